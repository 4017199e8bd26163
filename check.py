#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: decide one property of the working tree in /repo by static analysis."""
import sys, os, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from sa import ctx, props, report, build


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    c = ctx.Ctx(tier)
    rep = report.Rep(pid)
    try:
        props.PROPS[pid](c, rep)
    except build.BuildError as e:
        print('ERROR: the working tree does not compile:\n%s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        c.close()
    return report.finish(rep, t0, tier, props.TECH.get(pid, 'abstract interpretation of the LLVM IR'))


if __name__ == '__main__':
    sys.exit(main())
