"""Development tool: plant a bug from a definition file, confirm it, keep it.

plant.py DEF.py   where DEF.py defines ID, PROPERTY, FILE, EDITS=[(old, new), ...]
(or FILES={file: edits}), DEMO (python source: exits non-zero / raises when the
property is broken), NEEDS, BREAKS. The change is made in a scratch copy of
/repo; it is kept only if the stable tests pass with it and the demonstration
passes without and fails with it. No check uses this tool or its results."""
import json, os, runpy, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.check_output("git -C /repo rev-list --max-parents=0 HEAD", shell=True, text=True).split()[0]
DEMO_SH = '''#!/bin/bash
# exit 0 when the property holds, non-zero when it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export TTPCACHEFOLDER="$T" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
cd "$T" && timeout 250 "$PY" "$D/demo.py"
'''


def one(path):
    d = runpy.run_path(path)
    files = d.get("FILES") or {d["FILE"]: d["EDITS"]}
    w = tempfile.mkdtemp(prefix="plant.")
    r = w + "/repo"
    try:
        subprocess.check_call(["cp", "-a", "/repo", r])
        subprocess.check_call("git checkout -q -- .", shell=True, cwd=r)
        for f, edits in files.items():
            s = open(os.path.join(r, f)).read()
            for old, new in edits:
                n = s.count(old)
                if n != 1:
                    return "%s: %d occurrences of %r" % (d["ID"], n, old)
                s = s.replace(old, new)
            open(os.path.join(r, f), "w").write(s)
        diff = subprocess.check_output("git diff", shell=True, cwd=r, text=True)
        # lines changed must be lines of the original repository
        base_ok = False
        for f in files:
            blame = subprocess.check_output(["git", "blame", "-s", "HEAD", "--", f], cwd=r, text=True).splitlines()
            no = 0
            for l in subprocess.check_output(["git", "diff", "-U0", "--", f], cwd=r, text=True).splitlines():
                if l.startswith("@@"):
                    no = int(l.split()[1].lstrip("-").split(",")[0])
                elif l.startswith("-") and not l.startswith("---"):
                    if blame[no - 1].split()[0].lstrip("^").startswith(BASE[:7]):
                        base_ok = True
                    no += 1
        out = os.path.join(w, "seed")
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(DEMO_SH)
        open(out + "/demo.py", "w").write(d["DEMO"].lstrip("\n"))
        json.dump(dict(property=d["PROPERTY"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
        os.chmod(out + "/demo.sh", 0o755)
        good = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        bad = subprocess.run(["bash", out + "/demo.sh"], cwd=r, capture_output=True, text=True)
        t = subprocess.check_output(["bash", VERIF + "/tools/scratch_test.sh", r], text=True)
        msg = "%s: base_line=%s demo clean=%d patched=%d tests %s" % (d["ID"], base_ok, good.returncode, bad.returncode, " ".join(t.split()[:12]))
        if good.returncode:
            msg += "\n" + (good.stdout + good.stderr)[-600:]
        ok = base_ok and good.returncode == 0 and bad.returncode != 0 and "FAILING 0" in t
        if ok:
            dst = os.path.join(VERIF, "seeded", d["ID"])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(out, dst)
            msg = "KEPT " + msg + " | " + (bad.stderr.strip().splitlines() or [""])[-1][:150]
        else:
            msg = "REJECTED " + msg
        return msg
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(int(os.environ.get("W", 6))) as ex:
        for m in ex.map(one, sys.argv[1:]):
            print(m, flush=True)
