"""Which lines of hera_pspec the simulated runs execute (VERIF_LINECOV=directory; off by default)."""
import os
import sys

HITS = set()


def start():
    m = sys.monitoring
    if m.get_tool(m.COVERAGE_ID) is not None:
        return
    m.use_tool_id(m.COVERAGE_ID, "linecov")

    def line(code, n):
        f = code.co_filename
        if "hera_pspec" in f and "/tests/" not in f:
            HITS.add((f, n))
        return m.DISABLE
    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)


def stop(label):
    d = os.environ["VERIF_LINECOV"]
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{label}.{os.getpid()}"), "w") as h:
        for f, n in sorted(HITS):
            h.write(f"{f}:{n}\n")
