#!/usr/bin/env python3
"""Runs the checks.

  run.py setup                        build what the checks need
  run.py check ID [--tier quick|thorough] [--seed N]
  run.py replay FILE                  run a recorded violation again

A check explores the TLA+ specification with TLC (exhaustively in small scopes, and by long
random behaviours), replays the behaviours it printed on the caches built from /repo's working
tree, and validates traces recorded from them. Exit 0: the property held on everything explored;
1: VIOLATION; 2: the check itself failed.
"""
import sys, os, json, time, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import engine, plan

def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    sub.add_parser("setup")
    c = sub.add_parser("check")
    c.add_argument("id")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    c.add_argument("--sources", help="only the sources of this kind (development)")
    r = sub.add_parser("replay")
    r.add_argument("file")
    a = ap.parse_args()
    if a.cmd == "setup":
        return engine.setup()
    if a.cmd == "replay":
        return engine.replay_file(a.file)
    return engine.check(a.id, plan.PLAN[a.id], a.tier, a.seed, a.sources)

if __name__ == "__main__":
    sys.exit(main())
