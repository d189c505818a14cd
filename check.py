#!/usr/bin/env python3
"""check.py <property>            run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
check.py setup                 build everything once
check.py replay <replay.json>  re-run one reported failure against the current tree"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
MODES = {"C29": "32", "C30": "bare"}


def subject(a):
    """The property this process is about."""
    return json.load(open(a[1])).get("property") if a[:1] == ["replay"] and len(a) > 1 else (a or [""])[0]


os.environ["OMV_MODE"] = MODES.get(subject(sys.argv[1:]), "")
import core
import props


def main():
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    what = sys.argv[1]
    try:
        if what == "setup":
            props.setup()
            return 0
        if what == "replay":
            return props.replay(json.load(open(sys.argv[2])))
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        rep = core.Report(what, "thorough" if tier == "thorough" else "quick", seed)
        props.run(rep)
        return core.finish(rep)
    except core.CheckError as e:
        core.log("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
