"""Re-run one counterexample without the explorer: python -m mc.replay FILE"""
import importlib
import json
import sys

from . import engine


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, list) else x


def main():
    v = json.load(open(sys.argv[1]))
    if v['kind'] == 'crash':
        print('whole-process crash; run the check again')
        return 1
    mod = importlib.import_module(f'mc.props.{v["property"].lower()}')
    s = [s for s in mod.scenarios(v['tier']) if s.name == v['scenario']][0]
    if s.kind == 'tree':
        ch, out, err = engine.run_leaf(s.body, v['choices'])
        for l in ch.labels:
            if l:
                print('  ', l)
    else:
        hist = [tup(o) for o in v['history']]
        init = tup(v['init'])
        for o in hist:
            print('  ', o)
        _, _, err = engine._hist_step(s.factory, init, hist[:-1],
                                      hist[-1] if hist else None)
    if err is None:
        print('not reproduced')
        return 0
    print('reproduced:', engine._describe(err))
    return 1


if __name__ == '__main__':
    sys.exit(main())
