"""check <property> [quick|thorough]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO_SRC = os.path.join(os.environ.get('VF_REPO', '/repo'), 'src')
sys.path.insert(0, REPO_SRC)
for k in ('YAPCAD_BOOLEAN_ENGINE', 'YAPCAD_DSL_RECURSION_LIMIT', 'YAPCAD_WHITEBOARD_ROOT'):
    os.environ.pop(k, None)
os.environ['VISUALTEST'] = 'false'
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')
from vf import core, registry


def run(prop, tier):
    modname, fname = registry.CHECKS[prop]
    try:
        mod = importlib.import_module('vf.areas.' + modname)
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('CHECK-ERROR property=%s cannot import driver: %s' % (prop, e))
        return 3
    return core.main(prop, tier, getattr(mod, fname))


if __name__ == '__main__':
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(run(prop, tier))
