"""python3-vt -m sa.run <property> [--thorough]  : decide one property of /repo's current source"""
import importlib
import os
import pkgutil
import sys
import traceback

sys.setrecursionlimit(20000)

from . import rules
from .check import Check
from .interp import Unsupported, PyEx, Cut
from .alg import AlgError


def registry():
    out = {}
    for m in pkgutil.iter_modules(rules.__path__):
        mod = importlib.import_module(f"sa.rules.{m.name}")
        out.update(getattr(mod, 'RULES', {}))
    return out


def run(pid, tier, seed, root='/repo'):
    reg = registry()
    if pid not in reg:
        print(f"no rules for {pid}")
        return 3
    c = Check(pid, tier, seed, root)
    try:
        reg[pid](c)
    except (Unsupported, Cut, AlgError) as ex:
        c.undecided.append(str(ex))
    except PyEx as ex:
        c.undecided.append(f"unexpected exception {ex}")
    except Exception:
        traceback.print_exc()
        c.undecided.append("internal error of the analysis")
    return c.finish()


def main(argv):
    args = [a for a in argv if not a.startswith('--')]
    tier = 'thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    root = os.environ.get('SA_ROOT', '/repo')
    if args == ['all']:
        rc = {p: run(p, tier, seed, root) for p in sorted(registry())}
        print({p: r for p, r in rc.items() if r})
        return max(rc.values())
    return run(args[0], tier, seed, root)


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.exit(res[0] if res else 2)
