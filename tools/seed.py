"""Confirms planted bugs in scratch copies and writes them to /verif/seeded (not used by any check).

  python3 tools/seed.py make [ID ...]     from tools/seed_specs.py
  python3 tools/seed.py catch [ID ...]    runs the property's quick check against each
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SEEDED = os.path.join(ROOT, "seeded")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SH = '#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/py2compat PYTHONHASHSEED=0 TZ=UTC \\\n' \
     '    /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
HEAD = "import os\nimport sys\nimport py2compat\nsys.path.insert(0, os.getcwd())\n"


def ns(d, cmd, **kw):
    """cmd in a mount namespace of its own where d is /repo"""
    s = "mount --bind %s /verif && " % os.environ["SNAP"] if os.environ.get("SNAP") else ""    # a copy of /verif to use
    s += "mount --bind %s/repo /repo && mkdir -p %s/rep %s/ev && mount --bind %s/rep /opt/vp/reports && " \
        "mount --bind %s/ev /verif/evidence && %s" % (d, d, d, d, d, cmd)
    return subprocess.run(["unshare", "-Urm", "bash", "-c", s], capture_output=True, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    shutil.copytree("/repo", d + "/repo", symlinks=True)
    return d


def make(s):
    d = copy()
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(d, "repo", f)
            t = open(p, newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1:
                return s["id"], "edit matches %d times: %r" % (t.count(old), old)
            open(p, "w", newline="").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", d + "/repo", "diff"], capture_output=True).stdout
        out = os.path.join(d, "seed")
        os.mkdir(out)
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(HEAD + s["demo"].strip("\n") + "\n")
        open(out + "/patch.diff", "wb").write(diff)
        with open(out + "/meta.json", "w") as g:
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, g, indent=1)
        r = ns(d, "bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/o.json" % d)
        got = set(json.load(open(d + "/o.json"))["passed"])
        if STABLE - got:
            return s["id"], "breaks tests: %s" % sorted(STABLE - got)[:3]
        r = ns(d, "cd /repo && bash %s/seed/demo.sh" % d)
        if r.returncode == 0:
            return s["id"], "demo passes with the change"
        why = (r.stderr.strip().splitlines() or [""])[-1]
        r = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        if r.returncode:
            return s["id"], "demo fails without the change: " + r.stderr[-300:]
        to = os.path.join(SEEDED, s["id"])
        shutil.rmtree(to, ignore_errors=True)
        shutil.copytree(out, to)
        return s["id"], "ok (%s)" % why[:90]
    finally:
        shutil.rmtree(d)


def catch(i, tier="quick"):
    d = copy()
    try:
        p = os.path.join(SEEDED, i)
        prop = json.load(open(p + "/meta.json"))["property"]
        r = subprocess.run(["git", "-C", d + "/repo", "apply", p + "/patch.diff"], capture_output=True, text=True)
        if r.returncode:
            return i, prop, "does not apply"
        r = ns(d, "cd /verif && timeout 900 python3-vt engine/run.py %s --tier %s" % (prop, tier))
        lines = r.stdout.splitlines()
        if r.returncode == 1 and any(x.startswith("VIOLATION property=%s " % prop) for x in lines):
            k = [j for j, x in enumerate(lines) if x.startswith("VIOLATION")][0]
            return i, prop, "caught: " + " ".join(lines[max(0, k - 2):k - 1])[:110]
        return i, prop, "MISSED rc=%d %s" % (r.returncode, " | ".join(lines[-3:])[:300] + r.stderr[-200:])
    finally:
        shutil.rmtree(d)


def main():
    ids = sys.argv[2:]
    if sys.argv[1] == "make":
        sys.path.insert(0, HERE)
        from seed_specs import SEEDS
        todo = [s for s in SEEDS if s["id"] in ids or (not ids and not os.path.exists(os.path.join(SEEDED, s["id"])))]
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(make, todo):
                print(*r, flush=True)
    else:
        todo = ids or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(int(os.environ.get("N", "2"))) as ex:
            for r in ex.map(catch, todo):
                print(*r, flush=True)


if __name__ == "__main__":
    main()
