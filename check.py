#!/usr/bin/env python3
"""check.py ID: decides one property of /repo's current source. See DESIGN.md."""
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from lolv import build, core  # noqa: E402

LEXER = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"]
PARSER = ["C09", "C10", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"]


def decide(prop, tier):
    if prop in PARSER:
        from lolv import parsercheck
        return parsercheck.check(prop, build.load(), tier)
    if prop in LEXER:
        from lolv import lexcheck
        return lexcheck.check(prop, build.load(), tier)
    if prop == "C11":
        from lolv import sicheck
        return sicheck.check(prop, build.load(), tier)
    if prop == "C26":
        from lolv import effects
        return effects.check(prop, build.load(), tier)
    if prop in ("C27", "C28"):
        from lolv import values
        return values.check(prop, build.load(), tier)
    if prop in ("C23", "C24", "C25"):
        from lolv import walk
        return walk.check(prop, build.load(), tier)
    if prop == "C29":
        from lolv import vocab
        return vocab.check(prop, build.load(), tier)
    raise SystemExit("unknown property " + prop)


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        res = decide(prop, tier)
    except build.BuildError as e:
        print("ERROR: %s" % e)
        return 2
    return core.finish(prop, "other", res, t0, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
