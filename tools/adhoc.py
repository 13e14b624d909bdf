"""Quick experiments: edits without demonstrations, each against the check of its own property.

usage: adhoc.py FILE [NAME ...]     FILE defines EDITS = [(name, property, file, old, new), ...]; several entries of one name are made together

Prints 'caught', 'quiet' or 'tests' (the repository's tests notice it) for every edit."""
import collections
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"


def main():
    edits = collections.OrderedDict()
    for name, prop, f, old, new in runpy.run_path(sys.argv[1])["EDITS"]:
        edits.setdefault((name, prop), []).append((f, old, new))
    for (name, prop), parts in edits.items():
        if sys.argv[2:] and name not in sys.argv[2:]:
            continue
        tmp = tempfile.mkdtemp(prefix="adhoc")
        try:
            subprocess.run(["cp", "-a", "/repo", tmp + "/repo"], check=True)
            for f, old, new in parts:
                p = pathlib.Path(tmp, "repo", f)
                t = p.read_text()
                if old not in t:
                    print("%-28s %s: %r is not in %s" % (name, prop, old[:40], f))
                p.write_text(t.replace(old, new))
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=tmp + "/repo", TZ="UTC")
            r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider"], cwd=tmp + "/repo", env=env, capture_output=True, text=True)
            note = "" if "43 passed" in r.stdout and "failed" not in r.stdout else " (tests notice it)"
            r = subprocess.run([PY, "-B", "check.py", prop, os.environ.get("TIER", "quick")], cwd=ROOT, capture_output=True, text=True,
                               env=dict(os.environ, ELGAS_REPO=tmp + "/repo", MC_OUT=tmp, VERIF_SEED="1"))
            last = [x for x in r.stdout.splitlines() if x.strip()]
            print("%-28s %s %s%s   %s" % (name, prop, {0: "QUIET", 1: "caught"}.get(r.returncode, "rc=%d" % r.returncode), note,
                                          last[-2 if r.returncode == 1 and len(last) > 1 else -1][:150] if last else r.stderr[-200:]), flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
