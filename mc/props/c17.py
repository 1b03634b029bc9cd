"""Configuration files with nested, overriding nodes."""
import contextlib
import io
import os
import shutil
import tempfile
from pathlib import Path

from pyhipp.core import DataDict
from pyhipp.io.yaml import ConfigFileParser

from ..engine import Tree
from ..util import need, outcome

LEVEL = 'exploration'
RULE = ('every (document, start nodes, nested nodes, requested keys) of the '
        'alphabet; distinct by the case')
ASSUMPTIONS = ['requested keys contain no slash', 'PyYAML is trusted']
BOUNDS = {'quick': 'three-level documents with each of 2 keys present or '
                   'absent per level, up to 1 start and 2 nested nodes; '
                   'rewrites of the file between two reads',
          'thorough': 'the same with 3 keys'}
NKEY = 2
VALS = ['1', '2.5', 'text', '[1, 2]', 'null', 'true']
MAPS = ['{a: 1, b: 2}', '[1]', '{b: 3}', '[2]', '{c: {a: 1}}', '{}']
PY = {'{a: 1, b: 2}': {'a': 1, 'b': 2}, '[1]': [1], '{b: 3}': {'b': 3},
      '[2]': [2], '{c: {a: 1}}': {'c': {'a': 1}}, '{}': {}, '1': 1, '2.5': 2.5, 'text': 'text', '[1, 2]': [1, 2], 'null': None,
      'true': True}


def doc(levels, names, wrap):
    """YAML text for levels[0] > names[0]: levels[1] > ..."""
    out, ind = [], 0
    for w in wrap:
        out.append('  ' * ind + w + ':')
        ind += 1
    for i, lv in enumerate(levels):
        out.append('  ' * ind + 'pad: 0')
        for k, v in lv.items():
            out.append('  ' * ind + f'{k}: {v}')
        if i < len(levels) - 1:
            out.append('  ' * ind + names[i] + ':')
            ind += 1
    return '\n'.join(out) + '\n'


def config_body(ch):
    keys = ['k', 'j', 'h'][:NKEY]
    depth = ch.pick([1, 2, 3], 'levels')
    levels = []
    vals = ch.pick([VALS, MAPS], 'values')
    for i in range(depth):
        lv = {}
        for j, k in enumerate(keys):
            if ch.flag(f'{k}@{i}'):
                lv[k] = vals[(2 * i + j) % len(vals)]
        levels.append(lv)
    names = ['n1', 'n2'][:depth - 1]
    wrap = ch.pick([[], ['top'], ['top', 'in']], 'start')
    nested = names[:ch.pick(list(range(depth)), 'nested used')]
    broken = ch.pick(['no', 'start', 'nested'], 'missing node')
    init = list(wrap)
    if broken == 'start':
        init = init + ['zz']
    elif broken == 'nested':
        nested = nested + ['zz']
    ask = [k for k in keys if ch.flag(f'ask {k}')]
    verbose = ch.flag('verbose')
    d = tempfile.mkdtemp(prefix='mc-c17-')
    try:
        path = os.path.join(d, 'c.yaml')
        text = doc(levels, names, wrap)
        with open(path, 'w') as f:
            f.write(text)
        kw = {'verbose': True} if verbose else \
            {'verbose': False} if depth == 2 else {}
        init, mine = list(init), list(nested)
        p = ConfigFileParser(Path(path) if verbose else path,
                             init, mine, **kw)
        init.append('zz')
        mine.append('zz')
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            o = outcome(p.get, ask)
        need(bool(buf.getvalue()) == (verbose and broken != 'x') or broken
             != 'no', 'log output %r with verbose=%s', buf.getvalue(),
             verbose)
        want = {}
        for lv in levels[:len(names[:len(nested)]) + 1
                         if broken != 'nested' else len(nested)]:
            want.update({k: PY[v] for k, v in lv.items() if k in ask})
        if broken != 'no' or any(k not in want for k in ask):
            need(o[0] == 'err' and isinstance(o[1], KeyError),
                 'missing key or node gives %r', o[1])
        else:
            need(o[0] == 'ok', 'get: %r', o[1])
            got = o[1]
            need(isinstance(got, DataDict) and len(got) == len(want),
                 'got %r, expected %r', got, want)
            for k, v in want.items():
                need(k in got and got[k] == v and type(got[k]) is type(v),
                     '%s = %r, expected %r', k, got[k], v)
            # the file is read anew every time
            lv = dict(levels[len(nested)])
            if ask:
                lv[ask[0]] = '77'
                lv2 = list(levels)
                lv2[len(nested)] = lv
                with open(path, 'w') as f:
                    f.write(doc(lv2, names, wrap))
                p.verbose_off()
                need(p.get(ask)[ask[0]] == 77, 'stale configuration')
                need(got[ask[0]] == want[ask[0]], 'earlier result changed')
            else:
                with open(path) as f:
                    need(f.read() == text, 'file changed')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return (str(levels), len(wrap), len(nested), broken, tuple(ask), verbose)


def scenarios(tier):
    global NKEY
    NKEY = 2 if tier == 'quick' else 3
    return [Tree('config', config_body)]
