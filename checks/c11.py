"""C11: the job runner runs every job and reports exactly those that failed."""
from sim.core import Violation

ID = "C11"
TECHNIQUE = "simulated worker pool with seeded scheduling and job failures against a reference runner"
QUICK, THOROUGH = 6000, 400000
RULE = ("one run = 1-4 calls of job_monitor over seeded inputs (ranges, strings, tuples, arrays, duplicates, generators, "
        "dicts) on a simulated pool (serial lazy map, or a pool that takes jobs in chunks and finishes them in seeded "
        "order on the simulated clock) with a seeded outcome for every attempt of every job; compared with the "
        "reference: jobs and attempts received, order of positions, returned failures, the error if all fail, log. "
        "Distinct and non-trivial: (kind of input, pool, attempts pattern, retry limit) combinations.")
SHRINK = ["calls"]
ASSUME = ["job functions report failure by a non-zero return value, as documented; the mapping function returns "
          "results in input order as map and multiprocessing's map do"]


def gen(rng, i):
    calls = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        n = rng.choice([0, 1, 2, 3, 5, 8, 13])
        tries = rng.choice([0, 1, 2, 3, 5, 8])
        pf = rng.choice([0.0, 0.2, 0.5, 0.8, 1.0])
        out = [[0 if rng.random() > pf else rng.choice([1, 1, 2, -1, 7, 256]) for _ in range(max(1, tries) + 2)]
               for _ in range(n)]
        if rng.random() < 0.3:   # jobs that never succeed
            for k in rng.sample(range(n), min(n, max(1, n // 3))):
                out[k] = [rng.choice([1, 3]) for _ in out[k]]
        calls.append(dict(n=n, maxiter=tries, out=out,
                          inp=rng.choice(["range", "range", "range_off", "str", "tuple", "perm", "dup", "gen", "dictkeys",
                                          "array", "list_of_list", "enumerate", "none"]),
                          pool=rng.choice(["map", "list", "pool", "pool", "imap"]), chunk=rng.choice([1, 2, 5]),
                          order=[rng.random() for _ in range(64)], lf=rng.random() < 0.5, verbose=rng.random() < 0.3,
                          boolean=rng.random() < 0.15, npint=rng.random() < 0.3))
    return dict(calls=calls, clock_jumps=[[rng.uniform(0, 5), rng.choice([-5000, 5000])]] if rng.random() < 0.3 else [])


def inputs(kind, n, k0):
    import numpy as np

    if kind == "range":
        return range(n), list(range(n))
    if kind == "range_off":
        return range(k0, k0 + n), list(range(k0, k0 + n))
    if kind == "str":
        x = [f"job{i}" for i in range(n)]
        return x, x
    if kind == "tuple":
        x = [(i, (i + 1, n)) for i in range(n)]
        return x, x
    if kind == "perm":
        x = [(i * 7 + 3) % n if n not in (7,) else n - 1 - i for i in range(n)]
        if len(set(x)) != n:
            x = list(range(n))[::-1]
        return x, x
    if kind == "dup":
        x = [i // 2 for i in range(n)]
        return x, x
    if kind == "gen":
        x = [f"g{i}" for i in range(n)]
        return (v for v in x), x
    if kind == "dictkeys":
        x = [f"k{i}" for i in range(n)]
        return {v: 1 for v in x}.keys(), x
    if kind == "array":
        x = [10 - i for i in range(n)]
        return np.array(x), x
    if kind == "list_of_list":
        x = [[i, [i]] for i in range(n)]
        return x, x
    if kind == "enumerate":
        x = [(i, f"e{i}") for i in range(n)]
        return enumerate([f"e{i}" for i in range(n)]), x
    return [None] * n, [None] * n


class Log:
    def __init__(self):
        self.t = ""

    def write(self, s):
        self.t += s

    def flush(self):
        pass


def execute(plan, sim):
    hp = sim.hp
    for ci, call in enumerate(plan["calls"]):
        n, out = call["n"], call["out"]
        it, elems = inputs(call["inp"], n, 100)
        received = []   # (round, element)
        rounds = [0]
        # which position a received element belongs to: positions still pending, in order
        pend = [list(range(n))]
        state = {"given": []}

        def run(pos, attempt):
            v = out[pos][min(attempt, len(out[pos]) - 1)]
            if call["boolean"]:
                return v != 0
            if call["npint"]:
                import numpy as np

                return np.int64(v)
            return v

        attempts = [0] * n

        def run_func(x):
            received.append((rounds[0], repr(x)))
            # the job identifies itself by its position: the first pending position with this input
            todo = state["todo"]
            for q, pos in enumerate(todo):
                if repr(elems[pos]) == repr(x) or (call["inp"] == "array" and elems[pos] == x):
                    todo.pop(q)
                    a = attempts[pos]
                    attempts[pos] += 1
                    return run(pos, a)
            state["viol"] = Violation("job-run-on-wrong-input", f"round {rounds[0]}: got {x!r}, expected one of "
                                      f"{[elems[p] for p in todo]}")
            raise state["viol"]

        failing = list(range(n))

        def begin():
            rounds[0] += 1
            state["todo"] = list(failing)

        def end():
            # positions that failed in this round, from the plan
            failing[:] = [p for p in failing if out[p][min(attempts[p] - 1, len(out[p]) - 1)] != 0]

        def M(f, seq):
            begin()
            if call["pool"] == "map":
                def lazy():
                    for x in seq:
                        yield f(x)
                    end()
                return lazy()
            items = list(seq)
            res = [None] * len(items)
            if call["pool"] == "pool" and call["inp"] != "dup" and call["inp"] != "none":
                order = sorted(range(len(items)), key=lambda j: call["order"][(j // call["chunk"]) % 64])
                sim.fired["pool-reordering"] += order != list(range(len(items)))
            else:
                order = range(len(items))
            for j in order:
                sim.clock += call["order"][j % 64] * 30
                res[j] = f(items[j])
            end()
            return iter(res) if call["pool"] == "imap" else res

        lf = Log() if call["lf"] else None
        o = sim.call(lambda: hp.utils.job_monitor(run_func, it, "unit", M=M, lf=lf, maxiter=call["maxiter"],
                                                  verbose=call["verbose"]), None, f"job_monitor {call['inp']}")
        if "viol" in state:
            raise state["viol"]
        sim.evals["jobs"] += n
        sim.fired["job-failure"] += sum(1 for p in range(n) for v in out[p][:attempts[p]] if v)
        # reference
        tries = max(1, call["maxiter"])
        first = [p for p in range(n) if out[p][0] != 0]
        ref_att = [0] * n
        pending = list(range(n))
        for t in range(tries):
            if t and not pending:
                break
            for p in pending:
                ref_att[p] += 1
            pending = [p for p in pending if out[p][t] != 0]
            if t == 0 and len(pending) == n:
                break
        sim.sigs.add(f"{call['inp']}:{call['pool']}:{n}:{call['maxiter']}:{tuple(ref_att)}:{tuple(pending)}")
        if len(first) == n:
            if o.ok or not isinstance(o.exc, ValueError):
                raise Violation("total-failure-not-reported", repr(o))
            if attempts != ref_att:
                raise Violation("wrong-attempts", f"{attempts}, expected {ref_att}")
            continue
        if not o.ok:
            raise Violation("job-runner-failed", f"{o!r} {getattr(o.exc, 'sim_tb', '')}")
        if attempts != ref_att:
            raise Violation("wrong-attempts", f"{attempts}, expected {ref_att} ({call['inp']}, maxiter={call['maxiter']})")
        got = [int(x) for x in o.value]
        if got != pending:
            raise Violation("wrong-failures-reported", f"{got}, expected {pending}")
        if lf is not None and (("failed" in lf.t) != bool(pending)):
            raise Violation("wrong-log", lf.t)
