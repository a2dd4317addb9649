"""bug(id, property, edits, demo, needs, breaks): writes seeded/<id>/ from text edits of /repo.

edits: list of (file below terragraph_planner/, old, new); old must be unique."""
import json, os, shutil, subprocess, tempfile

V = os.environ.get("VERIF_DIR") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PROJ_NETWORK=OFF
export PYTHONPATH="$here:$PWD"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def bug(id, prop, edits, demo, needs, breaks, shim=True, tg=False, ref=False):
    tmp = tempfile.mkdtemp(prefix="mkbug.")
    try:
        diff = ""
        files = {}
        for f, old, new in edits:
            p = "terragraph_planner/" + f
            text = files.get(p) or open("/repo/" + p).read()
            assert text.count(old) == 1, (id, f, text.count(old), old)
            files[p] = text.replace(old, new)
        subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", tmp + "/r"])
        for p, t in files.items():
            open(f"{tmp}/r/{p}", "w").write(t)
        diff = subprocess.check_output(["git", "-C", tmp + "/r", "diff"], text=True)
    finally:
        shutil.rmtree(tmp)
    d = f"{os.environ.get('SEEDED', V + '/seeded')}/{id}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    if shim:
        shutil.copy(f"{V}/shim/xpress.py", d + "/xpress.py")
    for n in (("tg", "gis") if tg or ref else ()) + (("site_ref",) if ref else ()):
        shutil.copy(f"{V}/lib/{n}.py", f"{d}/{n}.py")
