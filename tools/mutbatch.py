"""Development aid: mutbatch.py FILE: run checks against scratch copies with one replacement each.
FILE defines M = [(check or checks, file, old, new[, nth]), ...]; old may be a list of (old, new) pairs in new's place."""
import os, subprocess, sys, tempfile, shutil, time, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
B = os.environ.get("VERIF_REPO", "/repo")
only = [int(x) for x in sys.argv[2:]]
for n, m in enumerate(ns["M"]):
    if only and n not in only:
        continue
    checks, f, old, new = m[:4]
    nth = m[4] if len(m) > 4 else 0
    d = tempfile.mkdtemp(prefix="mutb.", dir="/tmp")
    try:
        subprocess.run(f"mkdir -p {d}/src && cp -a {B}/src/. {d}/src/ && cp -a {B}/scripts {d}/", shell=True, check=True)
        p = os.path.join(d, f if f.startswith("scripts") else "src/hera_pspec/" + f)
        s = open(p).read()
        parts = s.split(old)
        if len(parts) < nth + 2:
            print(n, "NOT FOUND", repr(old)[:80], flush=True)
            continue
        s = old.join(parts[: nth + 1]) + new + old.join(parts[nth + 1:])
        open(p, "w").write(s)
        r = subprocess.run([sys.executable, "-c", f"compile(open({p!r}).read(), 'x', 'exec')"])
        if r.returncode:
            print(n, "SYNTAX", flush=True)
            continue
        for c in checks.split():
            ev = f"{here}/evidence/{c}.json"
            keep = open(ev).read() if os.path.exists(ev) else None
            t = time.time()
            r = subprocess.run(["./check.sh", c, "--no-shrink"], cwd=here, env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            if keep:
                open(ev, "w").write(keep)
            v = re.findall(r"violation in run (\d+): (.*)", r.stdout)
            print(n, c, "MISSED" if r.returncode == 0 else f"caught run {v[0][0]}: {v[0][1][:100]}" if v else f"rc {r.returncode} {r.stdout[-300:]}",
                  f"{time.time()-t:.0f}s", "|", old.strip()[:50].replace("\n", "~"), "->", new.strip()[:50].replace("\n", "~"), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
