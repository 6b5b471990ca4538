"""python3 tools/mkseed.py FILE...: each FILE defines ID, PROPERTY, NEEDS,
BREAKS, EDITS [(file under gpkit, old, new)], DEMO (python source, exit status
by assertion).  Confirms the change in a scratch copy (tests pass, demo fails
with it and passes without) and writes seeded/ID/."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# exit 0 when the property holds on the tree in the current directory
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True,
                          text=True, timeout=timeout)


def main(path):
    ns = {}
    exec(compile(open(path).read(), path, "exec"), ns)
    d = tempfile.mkdtemp(prefix="seed")
    try:
        r = d + "/repo"
        shutil.copytree("/repo", r, symlinks=True)
        out = d + "/seed"
        os.makedirs(out)
        open(out + "/demo.py", "w").write(ns["DEMO"])
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        a = sh("bash %s/demo.sh" % out, r)
        if a.returncode:
            return "demo fails on the unchanged tree:\n" + a.stdout[-1500:] + a.stderr[-1500:]
        for f, old, new in ns["EDITS"]:
            p = "%s/gpkit/%s" % (r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: old text occurs %i times" % (f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff -- gpkit", r).stdout
        b = sh("bash %s/demo.sh" % out, r)
        if not b.returncode:
            return "demo passes with the change:\n" + b.stdout[-1500:]
        # the stable tests, against the changed tree
        t = sh("PYTHONPATH=%s bash /verif/tools/stable.sh %s %s/t.json" % (r, r, d), r, 600)
        if t.returncode:
            return "tests: " + t.stdout[-1500:] + t.stderr[-800:]
        dest = "%s/seeded/%s" % (V, ns["ID"])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(out, dest)
        shutil.rmtree(dest + "/__pycache__", ignore_errors=True)
        open(dest + "/patch.diff", "w").write(diff)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"],
                   "what_it_breaks": ns["BREAKS"]},
                  open(dest + "/meta.json", "w"), indent=1)
        env = dict(os.environ, GPSA_REPO=r, GPSA_EVIDENCE=d)
        c = subprocess.run([sys.executable, "-m", "gpsa", "check", ns["PROPERTY"]],
                           cwd=V, env=env, capture_output=True, text=True)
        return "kept; check exits %i\n%s" % (c.returncode, (b.stdout + b.stderr)[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


for p in sys.argv[1:]:
    print(p, main(p))
