"""Nested dictionary container."""
import copy
import itertools

from pyhipp.core import DataDict

from ..engine import Bfs, System, Tree, Violation
from ..util import need, outcome

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'keys are from {a,b} and slash paths over them; values are small ints, '
    'plain dicts and nested containers',
    'after a failed multi-key operation the contents are unspecified',
]
BOUNDS = {
    'quick': 'BFS depth 3 over the full menu from 3 initial containers; '
             'all 2-op menus without state merging on a second handle; '
             '18 unusual names x 6 depths x joins x kinds of values',
    'thorough': 'BFS depth 4',
}

PATHS = ['a', 'b', 'a/b', 'b/a', '/a', 'a//b/', 'a/b/a', '/', '//']


class R:
    """Reference container: kind is 'D' (DataDict) or 'd' (plain dict)."""

    def __init__(self, kind, d=None):
        self.kind, self.d = kind, d if d is not None else {}


def split(path):
    return [p for p in path.split('/') if p]


class Bad(Exception):
    pass


def rget(root, path):
    ks = split(path)
    if not ks:
        raise Bad(path)
    v = root
    for k in ks:
        if not isinstance(v, R):
            raise Bad(path)
        if k not in v.d:
            raise KeyError(k)
        v = v.d[k]
    return v


def rset(root, path, val):
    ks = split(path)
    if not ks:
        raise Bad(path)
    v = root
    for k in ks[:-1]:
        if not isinstance(v, R):
            raise Bad(path)
        if k not in v.d:
            raise KeyError(k)
        v = v.d[k]
    if not isinstance(v, R):
        raise Bad(path)
    v.d[ks[-1]] = val


def rdel(root, path):
    ks = split(path)
    if not ks:
        raise Bad(path)
    v = root
    for k in ks[:-1]:
        if not isinstance(v, R):
            raise Bad(path)
        if k not in v.d:
            raise KeyError(k)
        v = v.d[k]
    if not isinstance(v, R):
        raise Bad(path)
    if ks[-1] not in v.d:
        raise KeyError(ks[-1])
    del v.d[ks[-1]]


def mk(kind):
    """(impl value, reference value)"""
    if kind == '1':
        return 1, 1
    if kind == '2':
        return 2, 2
    if kind == 'D0':
        return DataDict(), R('D')
    if kind == 'D1':
        return DataDict({'b': 3}), R('D', {'b': 3})
    if kind == 'd1':
        return {'a': 4}, R('d', {'a': 4})
    if kind == 'DD':
        return (DataDict({'a': DataDict({'b': 5})}),
                R('D', {'a': R('D', {'b': 5})}))
    raise KeyError(kind)


def cmp(i, r, where='/', seen=0):
    if seen > 12:
        return
    if isinstance(r, R):
        want = DataDict if r.kind == 'D' else dict
        need(type(i) is want, 'at %s: type %s, expected %s', where,
             type(i).__name__, want.__name__)
        need(len(i) == len(r.d), 'at %s: len %s, expected %s', where, len(i),
             len(r.d))
        need(list(i) == list(r.d), 'at %s: iteration %s, expected %s', where,
             list(i), list(r.d))
        need(list(i.keys()) == list(r.d), 'at %s: keys()', where)
        vals, items = list(i.values()), list(i.items())
        need(len(vals) == len(items) == len(r.d), 'at %s: view sizes', where)
        for k, v, (k2, v2) in zip(r.d, vals, items):
            need(k2 == k and v2 is v, 'at %s: items() vs values()', where)
            need(i[k] is v, 'at %s: lookup of %r is not the stored object',
                 where, k)
            need(k in i, 'at %s: %r not contained', where, k)
            cmp(v, r.d[k], where + k + '/', seen + 1)
    else:
        need(i == r and type(i) is type(r), 'at %s: %r, expected %r', where, i,
             r)


def canon(r, seen=0, ids=None):
    if seen > 12:
        return '...'
    if isinstance(r, R):
        ids = {} if ids is None else ids
        if id(r) in ids:
            return ('ref', ids[id(r)])
        ids[id(r)] = len(ids)
        return (r.kind, tuple((k, canon(v, seen + 1, ids))
                              for k, v in r.d.items()))
    return r


def plain(r):
    """Simple representation: containers of kind D become dicts."""
    if isinstance(r, R):
        if r.kind == 'D':
            return {k: plain(v) for k, v in r.d.items()}
        return {k: raw(v) for k, v in r.d.items()}
    return r


def same_types(a, b):
    need(type(a) is type(b), 'simple repr holds a %s, expected %s',
         type(a).__name__, type(b).__name__)
    if isinstance(b, (dict, DataDict)):
        for k in b.keys():
            same_types(a[k], b[k])


def raw(r):
    return DataDict({k: raw(v) for k, v in r.d.items()}) \
        if isinstance(r, R) and r.kind == 'D' else (
        {k: raw(v) for k, v in r.d.items()} if isinstance(r, R) else r)


def err_like(o, e):
    need(o[0] == 'err', 'succeeded with %r, expected %s', o[1],
         type(e).__name__)
    if isinstance(e, KeyError):
        need(isinstance(o[1], KeyError), 'raised %r, expected KeyError', o[1])


class S(System):
    @staticmethod
    def inits():
        return ['empty', 'nested', 'mixed']

    def __init__(self, init):
        if init == 'empty':
            self.i, self.r = DataDict(), R('D')
            self.src = None
        elif init == 'nested':
            src = {'a': DataDict({'b': 1, 'a': 2}), 'b': 3}
            self.i = DataDict(src)
            self.r = R('D', {'a': R('D', {'b': 1, 'a': 2}), 'b': 3})
            self.src = src
        else:
            src = DataDict({'b': {'a': 1}, 'a': DataDict()})
            self.i = DataDict(src)
            self.r = R('D', {'b': R('d', {'a': 1}), 'a': R('D')})
            self.src = src
        self.src0 = list(self.src) if self.src is not None else None
        self.i2, self.r2 = None, None     # second handle, made by copy or |
        self.dead = False

    def canon(self):
        ids = {}
        return (self.dead, canon(self.r, ids=ids),
                None if self.r2 is None else canon(self.r2, ids=ids))

    def ops(self):
        if self.dead:
            return []
        o = [('get', p) for p in PATHS]
        o += [('get', ('a', 'b')), ('get', ('b', 'a/b')), ('get', ()),
              ('get', (('a', 'b'), 'a'))]
        o += [('set', p, k) for p in PATHS
              for k in (('1', 'D1', 'd1', 'DD') if p in ('a', 'b') else
                        ('2', 'D0'))]
        o += [('setm', ('a', 'b'), ('1', 'D1')), ('setm', ('b', 'a'),
                                                   ('D0', '2')),
              ('setm', ('a', 'a/b'), ('D0', '1')),
              ('setm', ('a', 'b'), ('1',)), ('setm', ('a',), ('1', '2')),
              ('setm', (), ()), ('setm', ('a', 'a'), ('1', '2'))]
        o += [('del', p) for p in PATHS]
        o += [('delm', ('a', 'b')), ('delm', ('a/b', 'a')), ('delm', ()),
              ('delm', ('b', 'b'))]
        o += [('update', 'plain'), ('update', 'DataDict'), ('update', 'bad'),
              ('ior', 'plain'), ('ior', 'DataDict'), ('or', 'plain'),
              ('or', 'DataDict'), ('or', 'empty'), ('or', 'EMPTY'),
              ('update', 'empty'), ('copy',), ('swap',), ('clear',),
              ('alias', 'a', 'b'), ('pop', 'a'), ('pop', 'a/b'),
              ('popd', 'b'), ('getd', 'a/b'), ('getd', 'b'),
              ('setdefault', 'b'), ('setdefault', 'a/b'), ('popitem',),
              ('repr',), ('eq',)]
        return o

    def observe(self):
        cmp(self.i, self.r)
        if self.i2 is not None:
            cmp(self.i2, self.r2)
        for p in ('a', 'b', 'c', 'a/b'):
            need((p in self.i) == (p in self.r.d), 'contains(%r)', p)
        for p in PATHS:
            o = outcome(lambda: self.i[p])
            try:
                v = rget(self.r, p)
            except Exception as e:  # noqa
                err_like(o, e)
            else:
                need(o[0] == 'ok', 'lookup %r failed: %r', p, o[1])
                cmp(o[1], v, p)
        if self.src is not None and not self.dead:
            need(list(self.src) == self.src0,
                 'the mapping given to the constructor changed: %s',
                 list(self.src))

    def apply(self, op):
        i, r, t = self.i, self.r, op[0]
        if t == 'get':
            o = outcome(lambda: i[op[1]])
            self.check_get(o, op[1])
        elif t == 'set':
            iv, rv = mk(op[2])

            def f():
                i[op[1]] = iv
            o = outcome(f)
            try:
                rset(r, op[1], rv)
            except Exception as e:  # noqa
                err_like(o, e)
            else:
                need(o[0] == 'ok', 'set %r failed: %r', op[1], o[1])
                need(i[op[1]] is iv, 'the stored object is not the one given')
        elif t == 'setm':
            vs = [mk(k) for k in op[2]]

            def f():
                i[op[1]] = tuple(v[0] for v in vs)
            o = outcome(f)
            if len(op[1]) != len(vs):
                need(o[0] == 'err', 'length mismatch accepted')
            else:
                try:
                    for k, v in zip(op[1], vs):
                        rset(r, k, v[1])
                except Exception as e:  # noqa
                    err_like(o, e)
                    self.dead = True
                    return
                need(o[0] == 'ok', 'set %r failed: %r', op[1], o[1])
        elif t in ('del', 'delm'):
            ks = [op[1]] if t == 'del' else list(op[1])

            def f():
                del i[op[1]]
            o = outcome(f)
            try:
                for k in ks:
                    rdel(r, k)
            except Exception as e:  # noqa
                err_like(o, e)
                if t == 'delm':
                    self.dead = True
                    return
            else:
                need(o[0] == 'ok', 'delete %r failed: %r', op[1], o[1])
        elif t in ('update', 'ior', 'or'):
            rv = {'b': 7, 'c': R('D', {'a': 8})}
            iv = {'b': 7, 'c': DataDict({'a': 8})}
            if op[1] in ('empty', 'EMPTY'):
                iv, rv = {}, {}
            if op[1] in ('DataDict', 'EMPTY'):
                iv = DataDict(iv)
            if op[1] == 'bad':
                o = outcome(lambda: i.update([('a', 1)]))
                need(o[0] == 'err', 'update with a non-mapping accepted')
            elif t == 'update':
                need(i.update(iv) is None, 'update returns None')
                r.d.update(rv)
            elif t == 'ior':
                j = i
                j |= iv
                need(j is i, '|= must keep the object')
                r.d.update(rv)
            else:
                out = i | iv
                need(type(out) is DataDict, '| gives %s', type(out))
                need(out is not i and out is not iv, '| gave an operand')
                self.i2, self.r2 = out, R('D', {**r.d, **rv})
            if not rv:
                need(len(iv) == 0, 'the right operand changed')
            elif op[1] != 'bad':
                need(list(iv) == ['b', 'c'] and iv['b'] == 7,
                     'the right operand changed')
        elif t == 'copy':
            self.i2, self.r2 = i.copy(), R('D', dict(r.d))
        elif t == 'swap':
            if self.i2 is not None:
                self.i, self.i2 = self.i2, self.i
                self.r, self.r2 = self.r2, self.r
        elif t == 'clear':
            i.clear()
            r.d.clear()
        elif t == 'alias':
            if 'a' in r.d and 'b' in r.d and r.d['a'] is not r.d['b']:
                i['b'] = i['a']
                r.d['b'] = r.d['a']
        elif t in ('pop', 'popd'):
            a = (op[1],) if t == 'pop' else (op[1], 'dflt')
            o = outcome(lambda: i.pop(*a))
            try:
                v = rget(r, op[1])
                rdel(r, op[1])
            except KeyError as e:
                if t == 'pop':
                    err_like(o, e)
                else:
                    need(o == ('ok', 'dflt'), 'pop default: %r', o[1])
            except Bad as e:
                err_like(o, e)
            else:
                need(o[0] == 'ok', 'pop: %r', o[1])
                cmp(o[1], v)
        elif t == 'getd':
            o = outcome(lambda: i.get(op[1], 'dflt'))
            try:
                v = rget(r, op[1])
            except KeyError:
                need(o == ('ok', 'dflt'), 'get default: %r', o[1])
            except Bad as e:
                err_like(o, e)
            else:
                need(o[0] == 'ok', 'get: %r', o[1])
                cmp(o[1], v)
        elif t == 'setdefault':
            o = outcome(lambda: i.setdefault(op[1], 9))
            try:
                v = rget(r, op[1])
            except KeyError:
                try:
                    rset(r, op[1], 9)
                    v = 9
                except Exception as e:  # noqa
                    err_like(o, e)
                    v = None
            except Bad as e:
                err_like(o, e)
                v = None
            if v is not None:
                need(o[0] == 'ok', 'setdefault: %r', o[1])
                cmp(o[1], v)
        elif t == 'popitem':
            o = outcome(i.popitem)
            if not r.d:
                need(o[0] == 'err' and isinstance(o[1], KeyError),
                     'popitem on empty')
            else:
                need(o[0] == 'ok', 'popitem: %r', o[1])
                k, v = o[1]
                need(k in r.d, 'popitem key %r', k)
                cmp(v, r.d.pop(k))
        elif t == 'repr':
            need(i.to_simple_repr() == plain(r), 'simple repr %s, expected %s',
                 i.to_simple_repr(), plain(r))
            same_types(i.to_simple_repr(), plain(r))
            need(isinstance(repr(i), str), 'repr')
            need(dict(i.get_dict()) == dict(i.items()), 'get_dict()')
        elif t == 'eq':
            need(i == raw(r) and not (i != raw(r)), 'equality with its twin')
            need(i != DataDict({'zz': 1}), 'equality with another')
            need(i == dict(i.items()), 'equality with a dict')
        self.observe()

    def check_get(self, o, key):
        def want(k):
            if isinstance(k, tuple):
                return tuple(want(x) for x in k)
            return rget(self.r, k)
        try:
            v = want(key)
        except Exception as e:  # noqa
            err_like(o, e)
            return
        need(o[0] == 'ok', 'get %r failed: %r', key, o[1])

        def chk(iv, rv):
            if isinstance(rv, tuple):
                need(type(iv) is tuple and len(iv) == len(rv), 'tuple shape')
                for x, y in zip(iv, rv):
                    chk(x, y)
            else:
                cmp(iv, rv)
        chk(o[1], v)


def menu_body(ch):
    """Two operations from the menu without merging states, then a full
    observation through a copy (a copy must not be a view)."""
    s = S(ch.pick(S.inits(), 'init'))
    if ch.flag('copy first'):
        s.apply(('copy',))
    for k in range(2):
        ops = s.ops()
        if not ops:
            break
        s.apply(ch.pick(ops, f'op{k}'))
    return s.canon()


def ctor_body(ch):
    kind = ch.pick(['none', 'dict', 'DataDict', 'list', 'pairs'], 'kind')
    n = ch.pick([0, 1, 2, 3], 'n')
    src = {k: v for k, v in zip('abc', range(n))}
    if kind == 'none':
        d = DataDict()
        need(len(d) == 0 and list(d) == [], 'empty')
        d['x'] = 1
        need(len(DataDict()) == 0, 'default argument shared')
        return 'none'
    if kind in ('list', 'pairs'):
        x = list(src.items()) if kind == 'pairs' else list(src)
        need(outcome(lambda: DataDict(x))[0] == 'err',
             'non-mapping accepted by the constructor')
        return (kind, n)
    x = src if kind == 'dict' else DataDict(src)
    d = DataDict(x)
    need(list(d.items()) == [(k, v) for k, v in zip('abc', range(n))],
         'items %s', list(d.items()))
    d['zz'] = 1
    need('zz' not in x, 'constructor aliases its argument')
    if n:
        x['a'] = 'changed'
        need(d['a'] == 0, 'constructor aliases its argument')
    e = copy.deepcopy(d)
    e['b/'] = 5
    need(e['b'] == 5 and (n < 2 or d['b'] == 1), 'deepcopy is independent')
    return (kind, n)


NAMES = ['a', 'A', ' a', 'a ', 'a b', '.', '..', 'a.b', '*', '0', '-1',
         '\u00e9', '\\', 'a\tb', 'x' * 70, '_dict', 'keys', '/']
JOIN = ['/', '//', '/ /', '///']


def names_body(ch):
    """Any name without a slash is an ordinary component, at any depth."""
    depth = ch.pick([1, 2, 3, 4, 5, 7], 'depth')
    name = ch.pick(NAMES, 'name')
    where = ch.pick(sorted({0, depth // 2, depth - 1}), 'where')
    join = ch.pick(JOIN if depth > 1 else ['/'], 'join')
    lead, trail = ch.pick([('', ''), ('/', ''), ('//', '/'), ('', '//')],
                          'ends')
    ks = ['k%d' % j for j in range(depth)]
    if name == '/':
        name = 'plain'
    ks[where] = name
    if join == '/ /' and depth > 1:
        # a blank is a name like any other
        ks = ks[:1] + [' '] + ks[1:]
        path = lead + '/'.join(ks) + trail
    else:
        path = lead + join.join(ks) + trail
    kinds = ch.pick(['DDD', 'ddd', 'mixed'], 'kinds')

    def box(j):
        return DataDict() if kinds == 'DDD' or kinds == 'mixed' and j % 2 \
            else {}
    root = DataDict({'other': 5})
    boxes = [root]
    v = root
    for j, k in enumerate(ks[:-1]):
        o = outcome(lambda: root.__setitem__('/'.join(ks[:j + 2]), 1))
        need(o[0] == 'err' and isinstance(o[1], KeyError),
             'a missing level was accepted: %r', o[1])
        need(k not in boxes[-1], 'a missing level was made up')
        b = box(j)
        root[lead + '/'.join(ks[:j + 1])] = b
        need(boxes[-1][k] is b, 'the stored level')
        boxes.append(b)
        v = b
    need(len(v) == (1 if v is root else 0), 'the last level')
    o = outcome(lambda: root[path])
    need(o[0] == 'err' and isinstance(o[1], KeyError), 'read of nothing')
    o = outcome(root.__delitem__, path)
    need(o[0] == 'err' and isinstance(o[1], KeyError), 'deletion of nothing')
    full = name in ('a', ' a', '/') and not lead and not trail
    old = ch.pick([1, 'text', None, 'd', 'D'] if full else ['D'], 'old')
    new = ch.pick([2, 0, None, (), 'd', 'D'] if full else [0, 'd'], 'new')

    def mkv(x, n):
        return {n: 1, 's': 0} if x == 'd' else DataDict({n: 1, 's': 0}) \
            if x == 'D' else x
    for n, x in (('old', old), ('new', new)):
        val = mkv(x, n)
        o = outcome(root.__setitem__, path, val)
        need(o[0] == 'ok', 'set %r: %r', path, o[1])
        need(root[path] is val and v[ks[-1]] is val, 'the stored value')
        need(list(v) == (['other', ks[-1]] if v is root else [ks[-1]]),
             'the entries %s', list(v))
        if isinstance(val, (dict, DataDict)):
            need(list(val) == [n, 's'] and val['s'] == 0,
                 'the given value changed: %s', list(val))
            need(root[path + '/' + n] == 1, 'below')
        for j, b in enumerate(boxes[:-1]):
            need(b[ks[j]] is boxes[j + 1] and
                 len(b) == (2 if j == 0 else 1), 'level %d', j)
    got = root[path, 'other', path]
    need(type(got) is tuple and got[0] is val and got[1] == 5 and
         got[2] is val, 'several keys: %r', got)
    o = outcome(lambda: root[path, 'zz'])
    need(o[0] == 'err' and isinstance(o[1], KeyError), 'a missing key')
    need((ks[0] in root) and ('k9' not in root), 'contains')
    if ch.flag('twice'):
        o = outcome(root.__delitem__, (path, path))
        need(o[0] == 'err' and isinstance(o[1], KeyError),
             'the same entry deleted twice')
    else:
        del root[path]
    need(ks[-1] not in v and root['other'] == 5 and
         len(v) == (1 if v is root else 0), 'deletion')
    return depth, where, kinds, old, new


def scenarios(tier):
    d = 3 if tier == 'quick' else 4
    return [Tree('names', names_body), Tree('ctor', ctor_body), Tree('menu2', menu_body),
            Bfs('histories', S, d)]
