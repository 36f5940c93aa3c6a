"""Entry point: check.py <property> [quick|thorough]."""
import importlib
import os
import sys
import traceback

import vlib

REG = {}


def registry():
    import props
    return props.REG


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod, fn, level = registry()[prop]
    ck = vlib.Check(prop, tier, seed)
    old = os.getcwd()
    try:
        os.chdir(ck.work)
        vlib.silence()
        try:
            vlib.limit(600 if ck.quick else 0)
            m = importlib.import_module(mod)
            getattr(m, fn)(ck)
            vlib.limit(0)
        except vlib.Late:
            if not ck.viol:
                ck.fail('unfinished')
        except vlib.ToolError as e:
            print('TOOL-ERROR', e, file=sys.stderr)
            return 2
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            traceback.print_exc()
            if any(f.filename.startswith(vlib.REPO + '/') for f in tb):
                ck.fail('%s.unexpected-exception' % prop, error=repr(e), traceback=traceback.format_exc())
            else:
                return 2
        os.chdir(old)
        return ck.finish(level)
    finally:
        os.chdir(old)
        ck.cleanup()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
