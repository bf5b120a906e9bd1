"""run.py check ID [quick|thorough]   one property
   run.py replay FILE                  reproduce a recorded violation
   run.py setup                        build the I/O layer"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import engine  # noqa: E402


def main(a):
    if not a:
        sys.exit(__doc__)
    if a[0] == 'setup':
        from sim import shim
        print(shim.build(True))
        return 0
    engine.reexec()
    if a[0] == 'check':
        tier = a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick')
        return engine.run_check(a[1], tier, os.environ.get('VERIF_SEED', '1'),
                                limit=int(os.environ.get('VERIF_RUNS', '0')) or None,
                                start=int(os.environ.get('VERIF_START', '0')))
    if a[0] == 'replay':
        return engine.replay(a[1])
    sys.exit(__doc__)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
