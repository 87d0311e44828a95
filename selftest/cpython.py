'''Run the sample functions in the interpreter and in CPython, compare the results.'''
import importlib.util
import inspect
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyded import interp
from pyded.unit import *
from pyded.values import *
here = os.path.dirname(os.path.abspath(__file__))


def plain(I, v):
    if isinstance(v, Obj):
        h = I.h(v)
        if isinstance(h, HList):
            return [plain(I, x) for x in h.items]
        if isinstance(h, HSet):
            return {plain(I, x) for x in h.items}
        if isinstance(h, HDict):
            return {plain(I, k): plain(I, x) for k, x in h.items}
        if isinstance(h, HSym):
            return f'<sym {h.ty}>'
        return ('inst', h.cls.name)
    if isinstance(v, tuple):
        return tuple(plain(I, x) for x in v)
    return v


def main():
    interp.REPO_TOP = interp.REPO_TOP + ('sample',)
    spec = importlib.util.spec_from_file_location('sample', os.path.join(here, 'sample.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    bad = 0
    n = 0
    for name, f in vars(m).items():
        if inspect.isfunction(f) and f.__module__ == 'sample' and name not in ('cm', 'gen') and not name.startswith('s_'):
            for arg in range(9):
                def run(v):
                    out = v.attempt(f'sample:{name}', arg)
                    res.append(plain(v.I, out.value) if out.ok else ('exc', out.exc_name))
                    v.check('end', True)
                res = []
                r = run_unit(Unit(name, run), here)
                try:
                    want = f(arg)
                    if inspect.isgenerator(want):
                        want = list(want)
                except Exception as e:
                    want = ('exc', type(e).__name__)
                n += 1
                if not res or res[-1] != want:
                    bad += 1
                    print('DIFF', name, arg, r.status, r.reason[-600:], '\n   got ', res[-1:], '\n   want', want)
                    break
    print(n, 'comparisons', bad, 'differences')
    return bad


if __name__ == '__main__':
    sys.exit(1 if main() else 0)
