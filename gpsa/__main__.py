"""python3 -m gpsa check <ID> [--tier quick|thorough];  python3 -m gpsa all"""
import os
import sys


def main(argv):
    sys.setrecursionlimit(20000)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    from .check import check
    if argv and argv[0] == "check":
        return check(argv[1], tier)
    if argv and argv[0] == "all":
        import glob
        here = os.path.dirname(os.path.abspath(__file__))
        worst = 0
        for f in sorted(glob.glob(os.path.join(here, "rules", "c*.py"))):
            worst = max(worst, check(os.path.basename(f)[:-3].upper(), tier))
        return worst
    print(__doc__)
    return 2


sys.exit(main(sys.argv[1:]))
