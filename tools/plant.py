#!/usr/bin/env python3
"""Plant a bug: plant.py SPEC.py   (SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO)
Writes seeded/<ID>/ and validates it in a scratch copy of /repo: demo passes
without, fails with, and (unless --fast) the test suite passes with the patch."""
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile

spec = runpy.run_path(sys.argv[1])
root = pathlib.Path(__file__).resolve().parent.parent
d = root / "seeded" / spec["ID"]
w = pathlib.Path(tempfile.mkdtemp(prefix="plant-"))
try:
    subprocess.run(["git", "clone", "-q", "/repo", str(w / "r")], check=True)
    r = w / "r"
    for f, old, new in spec["EDITS"]:
        p = r / "parametricmatrixmodels" / f
        s = p.read_text()
        assert s.count(old) == 1, (f, s.count(old), old)
        p.write_text(s.replace(old, new))
    diff = subprocess.run(["git", "-C", str(r), "diff"], capture_output=True, text=True, check=True).stdout
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(diff)
    (d / "meta.json").write_text(json.dumps({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, indent=1) + "\n")
    (d / "demo.py").write_text(spec["DEMO"].lstrip())
    (d / "demo.sh").write_text('#!/bin/bash\n# cwd: the repository\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                               'export PYTHONPATH="$PWD" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore\n'
                               'exec /opt/venv/bin/python "$here/demo.py"\n')
    os.chmod(d / "demo.sh", 0o755)
    res = {}
    res["with"] = subprocess.run(["bash", str(d / "demo.sh")], cwd=r, capture_output=True, text=True)
    res["without"] = subprocess.run(["bash", str(d / "demo.sh")], cwd="/repo", capture_output=True, text=True)
    print(spec["ID"], "with:", res["with"].returncode, (res["with"].stdout + res["with"].stderr).strip().splitlines()[-1:],
          "without:", res["without"].returncode)
    if res["without"].returncode:
        print(res["without"].stderr[-1500:])
    if "--fast" not in sys.argv:
        env = dict(os.environ, PYTHONPATH=str(r))
        t = subprocess.run(["bash", "-c", f". /opt/vp/env.sh; cd {r}; PYTHONPATH={r} /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=600 2>&1 | tail -8; PYTHONPATH={r} /opt/venv/bin/python -c 'import parametricmatrixmodels as p; print(p.__file__)'"],
                           capture_output=True, text=True, env=env)
        print(t.stdout[-700:])
finally:
    shutil.rmtree(w)
