#!/usr/bin/env python3
"""usage: check.py C01 [quick|thorough]   decides one property against /repo's working tree"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import vlib


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if prop == 'setup':
        # warms the build cache; nothing else has to be prepared
        ctx = vlib.Ctx('setup', tier, seed)
        try:
            vlib.build(ctx)
            print('runner builds, worker counts can%s be set' % ('' if ctx.procs_ok else 'not'))
            return 0
        finally:
            ctx.cleanup()
    import registry
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        level = registry.CHECKS[prop](ctx)
        return vlib.finish(ctx, level)
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s the check could not decide' % prop)
        return 2
    finally:
        ctx.cleanup()


if __name__ == '__main__':
    sys.exit(main())
