"""Regenerates /verif/MANIFEST.json from the check modules and the not-applicable list."""
import ast, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
 "N01": "A pure function of its numerical inputs: no schedule, clock, fault, crash point or history takes part, so simulation adds nothing over input generation.",
 "N02": "Pure numerical formulas without any nondeterminism, I/O or history.",
 "N03": "Pure numerical integration of a beam; no schedule, fault or history to simulate.",
 "N04": "Pure formula of its inputs; nothing to schedule or to fail.",
 "N05": "Pure numerical transform of a beam; nothing to schedule or to fail.",
 "N06": "Correctness of the averaging formulas is a pure function of the inputs; what schedules and shardings must not change about averages is covered by C18 and C21.",
 "N07": "Pure formulas of the inputs; their independence of history and sharding is covered by C20 and C21.",
 "N08": "Pure integer encoding functions; no nondeterminism.",
 "N09": "Pure geometric grouping; its independence of order and hash seed is covered by C12 and C18.",
 "N10": "Pure formulas of the inputs.",
 "N11": "Pure formula of the inputs; preservation of inputs is covered by C14.",
 "N12": "Rendering of plots is a pure function of the object; no schedule, fault or crash decides it.",
}
NOTE = ("Seeded search over schedules and fault sequences, not exhaustive: a clean batch is evidence, not proof. "
        "Real hera_pspec, h5py/HDF5, numpy and pyuvdata code runs; the disk, locks, clock, scheduler and listing order are simulated.")
checks = []
for p in props:
    f = os.path.join(here, "checks", p["id"].lower() + ".py")
    if os.path.exists(f):
        v = {n.targets[0].id: n.value for n in ast.parse(open(f).read()).body
             if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}
        m, n = [ast.literal_eval(v[k]) if k in v else "" for k in ("TECHNIQUE", "LEVEL_NOTE")]
        checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} --tier quick",
            thorough_cmd=f"./check.sh {p['id']} --tier thorough",
            technique="deterministic simulation with fault injection" + (": " + m if m else ""),
            level="exploration", level_note=(n + " " if n else "") + NOTE))
    else:
        NA.setdefault(p["id"], "No check built yet.")
have = {c["property"] for c in checks}
man = dict(version=1, setup_cmd="./setup.sh", checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items()) if k not in have],
    notes="All seams are outside /repo (third-party and standard-library entry points patched before hera_pspec is imported); no hooks in /repo.")
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
