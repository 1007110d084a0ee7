#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on the current tree of /repo."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

SCHED = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C22 C25 C26'.split()
SYNC = 'C16 C17 C18 C19 C20 C21 C23 C28'.split()


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        if prop in SCHED:
            import sched_check as m
        elif prop in SYNC:
            import sync_check as m
        elif prop == 'C15':
            import part_check as m
        elif prop == 'C29':
            import handle_check as m
        elif prop in ('C24', 'C27'):
            import thread_check as m
        rc = m.run(prop, tier, seed)
    except vlib.CheckError as e:
        print('ERROR', e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)


main()
