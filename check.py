#!/usr/bin/env python3-vt
"""check.py <ID> [--tier quick|thorough] [--seed N]   |   check.py --replay FILE"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'pbt'))


def main(a):
    import engine
    if a and a[0] == '--shard':
        engine.shard_main(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), a[6])
        return 0
    if a and a[0] == '--replay':
        return engine.replay(a[1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--tier' in a:
        i = a.index('--tier')
        tier = a[i + 1]
        del a[i:i + 2]
    if '--seed' in a:
        i = a.index('--seed')
        seed = int(a[i + 1])
        del a[i:i + 2]
    return engine.check(a[0], tier, seed)


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
