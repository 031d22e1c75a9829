"""Development aid: (re)generates /verif/seeded/<id>/ from tools/bugdefs.py against /repo's HEAD and tests each bug.
usage: plant.py [--test] [--stable] [IDs]    (--test: demo with and without; --stable: also the stable tests)"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
import bugdefs

args = sys.argv[1:]
ids = [a for a in args if not a.startswith("-")]
ENV = dict(os.environ, PYTHONHASHSEED="0", MPLBACKEND="agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", JAX_PLATFORMS="cpu")


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=dict(ENV, **k))


def copy(d):
    sh(f"git -C /repo archive HEAD | tar x -C {d}")
    sh(f"cd /repo && git ls-files --others --ignored --exclude-standard src | grep -v pycache | cpio -pdm {d}")
    sh("git init -q . && git add -A . && git -c user.email=a@b -c user.name=a commit -qm x", cwd=d)


def names(x):
    if isinstance(x, dict):
        for k in ("stable", "passed"):
            if k in x:
                return names(x[k])
        return {k for k, v in x.items() if v in ("passed", True)}
    return set(x)


for b in bugdefs.BUGS:
    if ids and b["id"] not in ids:
        continue
    out = os.path.join(here, "seeded", b["id"])
    os.makedirs(out, exist_ok=True)
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        copy(d)
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        r = sh("git diff --no-color", cwd=d)
        # edited lines must be lines of the original repository
        open(os.path.join(out, "patch.diff"), "w").write(r.stdout)
        demo = b["demo"]
        open(os.path.join(out, "demo.py"), "w").write(demo.lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(
            "#!/bin/bash\n# exit 0 if the property holds, 1 if it does not\nhere=$(cd \"$(dirname \"$0\")\" && pwd)\n"
            "work=$(mktemp -d) || exit 3\ntrap 'rm -rf \"$work\"' EXIT\n"
            "export MPLBACKEND=agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore\n"
            "export MPLCONFIGDIR=$work/mpl PYTHONPATH=$PWD/src:$here REPO=$PWD\n"
            "cd \"$work\" && /opt/venv/bin/python \"$here/demo.py\"\n")
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        for name in ("fx", "vis"):
            fxp = os.path.join(out, name + ".py")
            if f"from {name} import" in demo or f"import {name}" in demo:
                shutil.copy(os.path.join(here, "sim", name + ".py"), fxp)
            elif os.path.exists(fxp):
                os.remove(fxp)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        msg = [b["id"], f"{len(r.stdout.splitlines())} lines"]
        # blame of removed lines
        blame = []
        for f in {f for f, _, _ in b["edits"]}:
            cur = None
            for ln in sh(f"git diff -U0 --no-color {f}", cwd=d).stdout.splitlines():
                if ln.startswith("@@"):
                    a = ln.split()[1][1:].split(",")
                    st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    if n:
                        bl = sh(f"git -C /repo blame -s -L{st},{st + n - 1} HEAD -- {f}").stdout
                        blame += [x[:9] for x in bl.splitlines()]
        if not any(x.startswith("^1039d33") for x in blame):
            msg.append(f"NO ORIGINAL LINES CHANGED {blame}")
        if "--test" in args or "--stable" in args:
            bad = sh(f"bash {out}/demo.sh", cwd=d)
            sh("git stash -q", cwd=d)
            good = sh(f"bash {out}/demo.sh", cwd=d)
            sh("git stash pop -q", cwd=d)
            msg.append(f"demo: clean {good.returncode} patched {bad.returncode}")
            if good.returncode or not bad.returncode or bad.returncode > 1:
                msg.append("DEMO WRONG\n" + good.stdout[-1500:] + good.stderr[-1500:] + "\n--patched\n" + bad.stdout[-600:] + bad.stderr[-1500:])
        if "--stable" in args:
            w = tempfile.mkdtemp(prefix="plantt.", dir="/tmp")
            sh(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --no-cov --timeout=300 --tb=short "
               f"--disable-warnings --continue-on-collection-errors --basetemp={w}/tmp -o junit_family=xunit2 --junitxml={w}/junit.xml",
               cwd=d, PYTHONPATH=f"{d}/src", MPLCONFIGDIR=w)
            sh(f"python3 /opt/vp/results.py {w}/o.json junit:{w}/junit.xml")
            base = names(json.load(open("/opt/vp/BASELINE.json")))
            miss = sorted(base - names(json.load(open(f"{w}/o.json"))))
            msg.append(f"stable missing: {miss[:5]} ({len(miss)})")
            shutil.rmtree(w)
        print(*msg, flush=True)
    finally:
        shutil.rmtree(d)
