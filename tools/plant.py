"""Turn the entries of tools/seed_specs*.py into /verif/seeded/<id>/ after confirming each of them.

usage: plant.py [ID ...]      (without arguments: every entry that is not planted yet)

For every entry: copy /repo, make the edits, check that the stable tests still pass, that the demonstration exits 0
without and nonzero with the edits, and that only lines of the original repository are replaced.
"""
import glob
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
SEEDED = ROOT / "seeded"
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=600,
                          env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", **env))


def tests_ok(d):
    r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider 2>&1 | tail -3", d, PYTHONPATH=d)
    return "43 passed" in r.stdout and "failed" not in r.stdout, r.stdout


def demo(d, where):
    r = sh("timeout 280 bash %s/demo.sh" % where, d)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def plant(s):
    out = SEEDED / s["id"]
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        shutil.rmtree(out, ignore_errors=True)
        out.mkdir(parents=True)
        (out / "demo.py").write_text(s["demo"].lstrip("\n"))
        (out / "demo.sh").write_text('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n%sexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'
                                     % s.get("env", ""))
        (out / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        d = tmp + "/repo"
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        rc, o = demo(d, out)
        if rc != 0:
            raise SystemExit("%s: demo fails on the clean tree (%s)\n%s" % (s["id"], rc, o))
        for k, (f, old, new) in enumerate(s["edits"]):
            p = pathlib.Path(d) / f
            t = p.read_text()
            if t.count(old) < 1:
                raise SystemExit("%s: %r not in %s" % (s["id"], old, f))
            n = s.get("counts", {}).get(k, s.get("count", 1))
            if t.count(old) != n:
                raise SystemExit("%s: %r is %d times in %s" % (s["id"], old, t.count(old), f))
            p.write_text(t.replace(old, new))
        ok, o = tests_ok(d)
        if not ok:
            print("%s: REJECTED, the tests notice it\n%s" % (s["id"], o))
            shutil.rmtree(out)
            return False
        rc, o = demo(d, out)
        if rc == 0:
            raise SystemExit("%s: demo passes with the change" % s["id"])
        diff = sh("git diff", d).stdout
        (out / "patch.diff").write_text(diff)
        # replaced lines must be original ones
        import re
        cur = None
        for line in diff.splitlines():
            m = re.match(r"\+\+\+ b/(.*)", line)
            if m:
                cur = m.group(1)
                blame = sh("git blame -s HEAD -- %s" % cur, d).stdout.splitlines()
            m = re.match(r"@@ -(\d+)", line)
            if m:
                n = int(m.group(1))
                continue
            if cur and line[:1] in " -" and not line.startswith("---"):
                if line[0] == "-" and not blame[n - 1].startswith("^f0c5f57"):
                    print("   note %s: %s:%d is not an original line" % (s["id"], cur, n))
                n += 1
        r = sh("git apply --check %s/patch.diff" % out, "/repo")
        if r.returncode:
            raise SystemExit(s["id"] + ": patch does not apply: " + r.stderr)
        print("%s: planted (%s) %s" % (s["id"], s["property"], o.strip().splitlines()[-1][:110] if o.strip() else ""))
        return True
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    specs = []
    for f in sorted(glob.glob(str(ROOT / "tools" / "seed_specs*.py"))):
        specs += runpy.run_path(f)["SPECS"]
    ids = [s["id"] for s in specs]
    assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1]
    want = sys.argv[1:]
    for s in specs:
        if (want and s["id"] in want) or (not want and not (SEEDED / s["id"]).exists()):
            plant(s)


main()
