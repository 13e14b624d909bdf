"""Run the check of its property (quick) on every planted bug, in scratch copies.  usage: catch.py [ID ...]  (env ALL=1: every check)"""
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = pathlib.Path(__file__).resolve().parent.parent
want = sys.argv[1:]
for s in sorted((ROOT / "seeded").iterdir()):
    if want and s.name not in want:
        continue
    prop = json.loads((s / "meta.json").read_text())["property"]
    props = ["C%02d" % i for i in range(1, 25)] if os.environ.get("ALL") else [prop]
    d = tempfile.mkdtemp(prefix="catch")
    subprocess.run(["cp", "-a", "/repo/elgas", d + "/elgas"], check=True)
    subprocess.run(["patch", "-s", "-p1", "-i", str(s / "patch.diff")], cwd=d, check=True)
    res = []
    for p in props:
        t0 = time.time()
        r = subprocess.run(["/opt/venv/bin/python", "-B", "check.py", p, os.environ.get("TIER", "quick")], cwd=ROOT, capture_output=True, text=True,
                           env=dict(os.environ, ELGAS_REPO=d, MC_OUT=d, VERIF_SEED="1"))
        hit = r.returncode == 1 and "VIOLATION property=%s" % p in r.stdout
        if os.environ.get("ALL"):
            if hit:
                res.append(p)
            elif r.returncode:
                res.append(p + "?%d" % r.returncode)
        else:
            lines = r.stdout.strip().splitlines()
            res.append("%s rc=%d %.0fs | %s" % ("caught" if hit else "MISSED", r.returncode, time.time() - t0, lines[-2][:150] if hit else lines[-1][:150] if lines else r.stderr[-300:]))
    print(s.name, prop, *res, flush=True)
    if not os.environ.get("ALL"):
        note = ROOT / "tools" / "caught.json"
        known = json.loads(note.read_text()) if note.exists() else {}
        fam = re.search(r"family (\S+) case", r.stdout)
        known[s.name] = ("%s %s" % (prop, fam.group(1) if fam else "")).strip() if hit else "not caught"
        note.write_text(json.dumps(known, indent=1, sort_keys=True) + "\n")
    shutil.rmtree(d)
