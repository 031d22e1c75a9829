"""python3 tools/linecov.py DIR REPO: executable lines of hera_pspec no simulated run reached (from VERIF_LINECOV=DIR)."""
import glob
import os
import sys

d, repo = sys.argv[1:3]
hits = {}
for f in glob.glob(d + "/*"):
    for l in open(f):
        p, n = l.rsplit(":", 1)
        hits.setdefault(os.path.basename(p), set()).add(int(n))


def lines(code, out):
    out.update(n for _, _, n in code.co_lines() if n)
    for c in code.co_consts:
        if hasattr(c, "co_lines"):
            lines(c, out)


tot = miss = 0
for f in sorted(glob.glob(repo + "/src/hera_pspec/*.py") + glob.glob(repo + "/scripts/*.py")):
    b = os.path.basename(f)
    src = open(f).read()
    want = set()
    lines(compile(src, f, "exec"), want)
    m = sorted(want - hits.get(b, set()))
    tot, miss = tot + len(want), miss + len(m)
    print(f"== {b}: {len(want) - len(m)}/{len(want)}")
    if "-v" in sys.argv:
        txt = src.split("\n")
        last = None
        for n in m:
            if txt[n - 1].strip().startswith(("def ", "class ", "import ", "from ", "@", '"""')) and n not in hits.get(b, ()):
                pass
            print(f"   {'' if last is None or n - last <= 2 else '--'}{n}: {txt[n - 1][:110]}")
            last = n
print("total", tot - miss, "/", tot)
