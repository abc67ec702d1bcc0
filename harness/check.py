"""bin/check <property> [quick|thorough]"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import Check, CodeCrash, ToolError    # noqa

FAMILY = {}
for _p in ("C01", "C02", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12"):
    FAMILY[_p] = "walkfam"
from recfam import FAM as _FAM, EXTRA      # noqa
for _p in _FAM:
    FAMILY[_p] = "recfam"

ASSUME = ["TLC evaluates the specification correctly",
          "the recorder (harness/drive.py) reports what the public API returned, "
          "rounded to cm, cm/s and ms",
          "inputs lie in the generated domain sizes and value ranges"]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ck = Check(prop, tier, seed)
    try:
        mod = __import__(FAMILY[prop])
        mod.run(ck, prop)
        if prop in EXTRA:
            __import__("recfam").run(ck, prop, EXTRA[prop])
        return ck.finish(ASSUME)
    except CodeCrash as ex:
        ck.add_fail("recording.crash", str(ex))
        return ck.finish(ASSUME)
    except ToolError as ex:
        print("TOOL ERROR property=%s: %s" % (prop, ex))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ck.close()


if __name__ == "__main__":
    sys.exit(main())
