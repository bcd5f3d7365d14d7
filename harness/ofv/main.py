"""Entry point of every check: python -m ofv.main <property> [--tier T] [--replay F]"""
import argparse, json, os, sys, traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    from . import checks, known
    from .report import Report
    if a.replay:
        return checks.replay_file(a.prop, a.replay)
    rep = Report(a.prop, tier, seed)
    try:
        known.run(a.prop, rep)
        checks.CHECKS[a.prop](rep)
    except Exception:
        # an error of the check, not a verdict about the code
        if not rep.fails:
            traceback.print_exc()
            return 2
        rep.harness.append(dict(harness=traceback.format_exc()))
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
