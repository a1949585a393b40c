"""python3 run.py PROPERTY [quick|thorough]"""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import facts, report
from registry import CHECKS


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    c = CHECKS[prop]
    try:
        d = os.environ.get("OAK_FACTS_DIR")
        F = facts.Facts.existing(d) if d else facts.Facts(c.packages)
    except facts.BuildError as e:
        print("the source could not be analysed: %s" % e)
        return 2
    res = report.Result(prop)
    res.coverage["crates_compiled"] = len(F.files)
    c.run(F, res, tier)
    return report.finish(res, tier, seed, c.level, t0, c.explanation)


if __name__ == "__main__":
    sys.exit(main())
