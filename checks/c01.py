"""C01: shared container operations are linearizable."""
from sim.core import Violation
from . import cont

ID = "C01"
TECHNIQUE = "seeded interleavings of simulated processes on one container, linearizability check of the history"
QUICK, THOROUGH = 1500, 40000
RULE = ("one run = 2-4 simulated processes (each its own copy of hera_pspec) performing 2-5 container operations on one "
        "file, plus optional open-per-session writers holding the file, under a seeded schedule (preemption at SUT source "
        "lines, h5py calls, opens and sleeps) with injected open failures; the recorded history (invocation/return "
        "order, results) and a final full read-back must be linearizable against a dictionary. Non-trivial and distinct: "
        "counted by the set of (order of all operation results with the order of file opens), at least two processes ran.")
SHRINK = ["sched"]
ASSUME = ["processes are simulated as threads of one interpreter, each with a private copy of the package's modules",
          "file locks follow HDF5's default advisory locking (writers exclusive, readers shared)",
          "SWMR mode is not simulated"]


def gen_burst(rng):
    """Readers' calls against a writer that completes several stores at one preemption of a reader."""
    tags = cont.Tags()
    gs = ["g1", "g2", "g3", "a0"]
    init = [dict(op="set", g=g, n="a", spec=cont.gen_small(rng, tags()), ow=True)
            for g in rng.sample(gs, rng.choice([1, 2, 2, 3]))]
    wr = [dict(op="set", g=rng.choice(gs), n=rng.choice(["a", "z", "z2"]), spec=cont.gen_small(rng, tags()), ow=True,
               mode="rw") for _ in range(rng.randint(4, 7))]
    rd = []
    for _ in range(rng.randint(3, 6)):
        k = rng.choice(["tree", "tree", "tree", "getall", "spectra", "groups"])
        op = dict(op=k, mode=rng.choice(["r", "r", "rw"]))
        if k in ("getall", "spectra"):
            op["g"] = init[0]["g"]
        if k == "tree":
            op["str"] = rng.random() < 0.3
        rd.append(op)
    sched = []
    for _ in range(40):
        sched.append([rng.choice([1, 2, 3, 4, 6, 10]), rng.randrange(2)])
        sched.append([rng.choice([30, 80, 150, 300]), rng.randrange(2)])
    return dict(procs=[rd, wr], init=init, exists=True, sched=sched, trace=False, tsleep=0.1, maxiter=50, reuse=True)


def gen(rng, i):
    if rng.random() < 0.3:
        return gen_burst(rng)
    tags = cont.Tags()
    np_ = rng.choice([2, 2, 3, 3, 4])
    procs = []
    for p in range(np_):
        ops = []
        for _ in range(rng.randint(2, 5 if np_ < 4 else 3)):
            op = cont.gen_op(rng, tags, write=rng.choice([0.3, 0.5, 0.7]))
            op["mode"] = "rw" if op["op"] in ("set", "setlist", "save") or rng.random() < 0.3 else "r"
            if rng.random() < 0.1:
                op["faults"] = [dict(ev="open", at=1, len=rng.choice([1, 1, 2, 4]), do=rng.choice(["EAGAIN", "EIO"]))]
            if rng.random() < 0.12:
                op["session"] = True     # keep_open=True object for this operation: holds the file throughout
            ops.append(op)
        procs.append(ops)
    init = [cont.gen_op(rng, tags, write=1, lists=0) for _ in range(rng.choice([0, 1, 2, 3]))]
    trace = rng.random() < 0.6
    sched = []
    for _ in range(rng.choice([5, 20, 60])):
        gap = rng.choice([1, 2, 3, 5, 9]) if not trace else rng.choice([1, 3, 10, 30, 100, 300])
        sched.append([gap, rng.randrange(4)])
    return dict(procs=procs, init=init, exists=bool(init) or rng.random() < 0.5, sched=sched, trace=trace,
                tsleep=rng.choice([0.1, 0.5]), maxiter=rng.choice([0, 1, 3, 20, 50]), reuse=rng.random() < 0.5)


def execute(plan, sim):
    specs = cont.Specs(None)
    init = {}
    fn = "shared.h5"
    hp = sim.hp
    if plan["exists"] or plan["init"]:
        c = sim.must(lambda: hp.PSpecContainer(fn, mode="rw", keep_open=False), "construct container")
        sim.must(lambda: c.save(), "create file")
        for op in plan["init"]:
            o, r = cont.do_op(sim, specs, c, dict(op, ow=True, faults=[]))
            if r != ("ok",):
                raise Violation("setup-store-failed", f"{o!r} {getattr(o.exc, 'sim_tb', '')}")
            init, _ = cont.apply_model(specs, init, dict(op, ow=True))
    # specs of every process are built by that process; digests computed in advance here
    for ops in plan["procs"]:
        for op in ops:
            for s in ([op["spec"]] if "spec" in op else op.get("specs", [])):
                specs.make(hp, s)
    hist = [[] for _ in plan["procs"]]
    sim.tracing = plan["trace"]

    def body(idx):
        def run(p):
            cs = {}
            for op in plan["procs"][idx]:
                mode = op["mode"]
                if op.get("session"):
                    t0 = sim.nsteps
                    o = sim.call(lambda: p.hp.PSpecContainer(fn, mode=mode, keep_open=True, tsleep=plan["tsleep"],
                                                             maxiter=plan["maxiter"]), op, "open session")
                    if not o.ok:
                        hist[idx].append((op, ("fail", type(o.exc).__name__), t0, sim.nsteps, str(o.exc)))
                        continue
                    c = o.value
                    o, r = cont.do_op(sim, specs, c, dict(op, faults=[]))
                    o.value = None
                    hist[idx].append((op, r, t0, sim.nsteps, str(o.exc)))
                    sim.call(c._close if hasattr(c, "_close") else c.data.close, None, "end session")
                    del c
                    continue
                c = cs.get(mode) if plan["reuse"] else None
                if c is None:
                    o = sim.call(lambda: p.hp.PSpecContainer(fn, mode=mode, keep_open=False, tsleep=plan["tsleep"],
                                                             maxiter=plan["maxiter"]), None, "construct")
                    if not o.ok:
                        raise Violation("construct-failed", repr(o))
                    c = cs[mode] = o.value
                o, r = cont.do_op(sim, specs, c, op)
                o.value = None
                hist[idx].append((op, r, o.t0, o.t1, str(o.exc)))
        return run

    sim.run_procs([body(i) for i in range(len(plan["procs"]))])
    sim.tracing = False
    # a fresh reader's view of the final file
    final = None
    if cont.raw_bytes(sim, fn) is not None:
        final, err = cont.read_all(sim, fn)
        if err:
            raise Violation("final-state-unreadable", err)
    if sim.disk.open_handles():
        raise Violation("handle-left-open", str(sim.disk.open_handles()))
    check_history(plan, specs, init, hist, final, sim)


def check_history(plan, specs, init, hist, final, sim):
    allowed_fail = {"OSError", "BlockingIOError"}
    seqs = []
    for ops in hist:
        q = []
        for op, r, t0, t1, msg in ops:
            if r[0] == "fail":
                if r[1] == "FileNotFoundError" and not plan["exists"]:
                    sim.probes["file not there yet"] += 1
                    continue
                if r[1] not in allowed_fail:
                    raise Violation(f"unexpected-failure:{op['op']}:{r[1]}", f"{op['op']} failed with {r[1]}: {msg}")
                sim.probes["operation failed on a busy file"] += 1
                if op["op"] == "setlist":
                    for it in cont.model_items(specs, op):
                        q.append((it, None, t0, t1))
                    q[-1] = q[-1] + ("end",)
                continue
            items = cont.model_items(specs, op)
            if op["op"] == "setlist":
                # a refused element ends the list: elements before it are stored
                if r == ("ok",):
                    for it in items:
                        q.append((it, ("ok",), t0, t1))
                else:
                    q.append((dict(op="refusedlist", items=items), r, t0, t1))
            else:
                q.append((op, r, t0, t1))
        seqs.append(q)
    n = sum(len(q) for q in seqs)
    sim.evals["operations in histories"] += n
    order = sorted(((t1, i, repr(r)[:12]) for i, q in enumerate(seqs) for (_, r, _, t1, *_) in q))
    import hashlib

    sim.sigs.add(hashlib.sha256(repr([(i, r) for _, i, r in order]).encode()).hexdigest()[:12] + sim.digest()[:6])
    ok = linearizable(specs, seqs, init, final)
    if not ok:
        lines = [f"p{i}: {o.get('op')} {o.get('g', '')}/{o.get('n', '')} ow={o.get('ow')} [{t0},{t1}] -> "
                 f"{tuple(specs.name(x) if isinstance(x, str) and len(x) == 16 else x for x in (r or ('fail',)))}"
                 for i, q in enumerate(seqs) for (o, r, t0, t1, *_) in q]
        fin = None if final is None else {k: specs.name(v) for k, v in final.items()}
        raise Violation("not-linearizable", "no order explains the history\n" + "\n".join(lines)
                        + f"\ninitial {({k: specs.name(v) for k, v in init.items()})}\nfinal {fin}")


def linearizable(specs, seqs, init, final):
    seen = set()
    N = len(seqs)

    def key(pos, st):
        return (pos, tuple(sorted(st.items())))

    def steps(st, item, r):
        """possible (new state, skip rest) of taking item with result r"""
        if item["op"] == "refusedlist":
            cur = st
            for it in item["items"]:
                nxt, res = cont.apply_model(specs, cur, it)
                if res != ("ok",):
                    return [nxt] if res == r else []
                cur = nxt
            return []
        nxt, res = cont.apply_model(specs, st, item)
        return [nxt] if res == r else []

    stack = [(tuple([0] * N), init)]
    while stack:
        pos, st = stack.pop()
        k = key(pos, st)
        if k in seen:
            continue
        seen.add(k)
        pend = [seqs[i][pos[i]] if pos[i] < len(seqs[i]) else None for i in range(N)]
        if all(x is None for x in pend):
            if final is None:
                if not st:
                    return True
            elif {kk: v for kk, v in final.items()} == st:
                return True
            continue
        min_ret = min(x[3] for x in pend if x is not None)
        for i in range(N):
            x = pend[i]
            if x is None or x[2] > min_ret:
                continue
            nxt_pos = pos[:i] + (pos[i] + 1,) + pos[i + 1:]
            if x[1] is None:  # element of a list store that failed: applied, or this and the rest are not
                new, res = cont.apply_model(specs, st, x[0])
                if res == ("ok",):
                    stack.append((nxt_pos, new))
                j = pos[i]
                while len(seqs[i][j]) < 5:
                    j += 1
                stack.append((pos[:i] + (j + 1,) + pos[i + 1:], st))
            else:
                for new in steps(st, x[0], x[1]):
                    stack.append((nxt_pos, new))
    return False
