"""python -m symx.dbg C03 add_siso deg1=1 op=0 ...  : run the first path whose
choices match (option index), with tracebacks, and print what is asserted."""
import sys
import traceback
from . import run, engine, sym as S


def main():
    mod = run.load_prop(sys.argv[1])
    h = [q for q in mod.HARNESSES if q.name == sys.argv[2]][0]
    want = dict(a.split('=') for a in sys.argv[3:])
    orig = engine.SymX.choice

    def choice(self, label, options):
        i = int(want.get(label.replace(' ', '_'), 0))
        v = options[i]
        self.picked[label] = v
        return v
    engine.SymX.choice = choice
    path = S.Path([], None, dict(h.opts))
    path.need_frames = True
    S.set_path(path)
    x = engine.SymX(path, 'quick', h.opts)
    eq = engine.SymX.eq

    def show(self, a, b, label, **k):
        print('EQ', label)
        print(' ', a)
        print(' ', b)
        return eq(self, a, b, label, **k)
    engine.SymX.eq = show
    try:
        h.fn(x)
    except BaseException:
        traceback.print_exc()
    print('picked', x.picked)
    print('cands', x.cands)
    print('asserts', x.asserts, x.discharged)
    print('pc', [str(c) for c in path.pc])


main()
