"""check.py <property> [quick|thorough]: decide one property from the source"""
import importlib
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'sa'))
sys.setrecursionlimit(20000)
import threading  # noqa
threading.stack_size(512 * 1024 * 1024)


def main():
    from ctx import Ctx
    from front import AnalysisBroken
    prop = sys.argv[1]
    if prop == '--setup':
        import front
        mods, digest, files = front.load()
        print('parsed %d modules' % len(mods))
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    ctx = Ctx(prop, tier)
    try:
        importlib.import_module('rules.' + prop.lower()).run(ctx)
        return ctx.finish()
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN %s: %s' % (prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 4


if __name__ == '__main__':
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 5)
