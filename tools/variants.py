"""python3 tools/variants.py [ID...]: runs the checks on edited copies of /repo's
source.  variants/CNN.py lists edits: bugs, which the check must report, and
rewrites that keep the behaviour, on which it must stay quiet."""
import importlib.util, os, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(job):
    prop, name, kind, edits, only = job
    d = tempfile.mkdtemp(prefix="gpsa")
    try:
        shutil.copytree("/repo/gpkit", d + "/gpkit", ignore=shutil.ignore_patterns(
            "env", "__pycache__", "tests"))
        for f, old, new in edits:
            p = os.path.join(d, "gpkit", f)
            src = open(p).read()
            if old not in src:
                return prop, name, kind, "STALE", f
            open(p, "w").write(src.replace(old, new, 1))
            try:
                compile(open(p).read(), p, "exec")
            except SyntaxError as e:
                return prop, name, kind, "SYNTAX", str(e)
        env = dict(os.environ, GPSA_REPO=d, GPSA_EVIDENCE=d)
        r = subprocess.run([sys.executable, "-m", "gpsa", "check", prop],
                           cwd=V, env=env, capture_output=True, text=True)
        want = 1 if kind == "bug" else 0
        return prop, name, kind, "ok" if r.returncode == want else \
            "WRONG(rc=%i)" % r.returncode, (r.stdout + r.stderr)[-1800:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ids = sys.argv[1:] or [os.path.basename(f)[:-3] for f in
                           sorted(glob.glob(V + "/variants/C*.py"))]
    allprops = "--all" in ids
    under = [i[8:] for i in ids if i.startswith("--under=")]
    ids = [i for i in ids if not i.startswith("-")] or [
        os.path.basename(f)[:-3] for f in sorted(glob.glob(V + "/variants/C*.py"))]
    jobs = []
    rules = sorted(os.path.basename(f)[:-3].upper() for f in
                   glob.glob(V + "/gpsa/rules/c*.py") if f[-6:-3].lower()[0] == "c")
    for i in ids:
        spec = importlib.util.spec_from_file_location("v" + i, V + "/variants/%s.py" % i)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for v in m.VARIANTS:
            name, kind = v[0], v[1]
            edits = v[2] if isinstance(v[2], list) else [v[2:5]]
            if under:       # every kept behaviour, under one check only
                if kind == "same":
                    jobs.extend((p, name, kind, edits, None) for p in under)
                continue
            jobs.append((i, name, kind, edits, None))
            if allprops and kind == "same":
                jobs.extend((p, name, kind, edits, None) for p in rules if p != i)
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for prop, name, kind, res, out in ex.map(one, jobs):
            if res != "ok":
                bad += 1
                print("%s %s [%s]: %s\n   %s" % (prop, name, kind, res,
                                                out.replace("\n", "\n   ")))
    print("%i variants, %i wrong" % (len(jobs), bad))
    return bad


if __name__ == "__main__":
    sys.exit(1 if main() else 0)
