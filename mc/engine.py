"""
Two exhaustive explorers over the real implementation.

Tree  : stateless explorer.  `body(ch)` asks `ch.pick(options)` for every piece
        of nondeterminism (input, operation, environment answer, fault point).
        The explorer runs `body` once per leaf of the resulting choice tree, by
        re-execution from scratch, depth first, first option first.  Nothing is
        sampled: the run ends when every leaf has been executed.

Bfs   : explicit-state explorer.  A `System` couples a fresh real object with a
        small reference model.  A state is identified by the canonical form of
        the system; it is reached by replaying an operation history on a fresh
        pair.  Every enabled operation is applied in every distinct state up to
        the depth bound, result and full observation are compared after each.

A counterexample is a choice vector / operation history; it is written as JSON
and can be replayed by `./replay FILE`.
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

NPROC = int(os.environ.get('MC_PROCS', '8'))
EXEC_LIMIT_S = 240          # one execution of a body never legitimately takes this long


class Violation(Exception):
    """The property does not hold on this execution.

    key: stable identification of the failing input, used to match the
    committed known-findings file.
    """

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Divergence(Exception):
    """The harness did not reproduce a recorded prefix: harness error."""


class _Split(BaseException):
    pass


class _Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise _Timeout()


class Ch:
    """One execution: a choice vector being followed / extended."""

    def __init__(self, prefix=(), split=None):
        self.prefix = list(prefix)
        self.trace = []         # chosen indices
        self.widths = []        # number of options at each point
        self.labels = []        # text of the chosen option
        self.split = split

    def idx(self, n, label=None):
        if n <= 0:
            raise Divergence('empty choice')
        k = len(self.trace)
        if k < len(self.prefix):
            c = self.prefix[k]
            if not 0 <= c < n:
                raise Divergence(f'choice {k} = {c} out of range {n}')
        else:
            if self.split is not None and k >= self.split and n > 1:
                raise _Split()
            c = 0
        self.trace.append(c)
        self.widths.append(n)
        self.labels.append(label(c) if callable(label) else label)
        return c

    def pick(self, options, label=''):
        options = list(options) if not isinstance(
            options, (list, tuple)) else options
        return options[self.idx(
            len(options), lambda c: f'{label}={_short(options[c])}')]

    def flag(self, label=''):
        return self.pick((False, True), label)

    def many(self, options, n, label=''):
        return [self.pick(options, f'{label}[{i}]') for i in range(n)]

    def upto(self, options, lo, hi, label=''):
        n = self.pick(list(range(lo, hi + 1)), f'len({label})')
        return self.many(options, n, label)

    def subset(self, options, label=''):
        return [o for i, o in enumerate(options) if self.flag(f'{label}[{i}]')]


def _short(o):
    try:
        s = getattr(o, '__name__', None) if callable(o) else None
        s = s or repr(o)
    except Exception:           # noqa
        s = f'<{type(o).__name__}>'
    s = ' '.join(s.split())
    return s if len(s) < 160 else s[:157] + '...'


def digest(o):
    return hashlib.blake2b(repr(o).encode(), digest_size=8).digest()


class Tree:
    kind = 'tree'

    def __init__(self, name, body, note=''):
        self.name, self.body, self.note = name, body, note


class Bfs:
    kind = 'bfs'

    def __init__(self, name, factory, depth, note='', exact=1):
        """exact: histories of up to this many operations are all extended,
        also where the reference says they lead to the same state: the code
        may remember what the reference does not."""
        self.name, self.factory, self.depth, self.note = name, factory, depth, note
        self.exact = min(exact, depth - 1)


class System:
    """Base of the coupled (implementation, reference) pairs used by Bfs."""

    replaying = False   # set while an already checked prefix is re-executed

    def ops(self):
        raise NotImplementedError

    def apply(self, op):
        raise NotImplementedError

    def canon(self):
        raise NotImplementedError

    def close(self):
        pass


class Result:
    def __init__(self):
        self.execs = 0
        self.trivial = 0
        self.seen = set()
        self.samples = []
        self.violations = []    # dicts
        self.known = {}
        self.nodes = 0
        self.transitions = 0
        self.states = 0

    def merge(self, o):
        self.execs += o.execs
        self.trivial += o.trivial
        self.seen |= o.seen
        self.nodes += o.nodes
        self.transitions += o.transitions
        self.states += o.states
        for s in o.samples:
            if len(self.samples) < 3:
                self.samples.append(s)
        self.violations += o.violations
        for k, v in o.known.items():
            self.known.setdefault(k, v)


def _describe(e):
    if isinstance(e, Violation):
        return str(e)
    if isinstance(e, _Timeout):
        return f'no answer within {EXEC_LIMIT_S} s'
    tb = traceback.extract_tb(e.__traceback__)
    where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}'
                        for f in reversed(tb[-4:]))
    return f'unexpected {type(e).__name__}: {e} [{where}]'


def run_leaf(body, prefix, split=None):
    """-> (ch, outcome, failure)"""
    ch = Ch(prefix, split)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(EXEC_LIMIT_S)
    try:
        out = body(ch)
        if len(ch.trace) < len(ch.prefix):
            raise Divergence('execution ended inside the replayed prefix')
        return ch, out, None
    except (Divergence, _Split, KeyboardInterrupt):
        raise
    except BaseException as e:  # noqa: every failure of the code is an answer
        if isinstance(e, (SystemExit, MemoryError)) and isinstance(
                e, MemoryError):
            raise
        return ch, None, e
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def explore(body, prefix, known, res, name, max_viol=3):
    """All leaves below `prefix`."""
    fixed = len(prefix)
    cur = list(prefix)
    while True:
        ch, out, err = run_leaf(body, cur)
        res.execs += 1
        res.nodes += len(ch.trace) - (0 if res.execs == 1 else
                                      min(len(cur) - 1, len(ch.trace)))
        if err is not None:
            key = getattr(err, 'key', None)
            if key is not None and key in known:
                res.known.setdefault(key, _describe(err))
            else:
                res.violations.append(dict(
                    scenario=name, kind='tree', choices=list(ch.trace),
                    labels=[l for l in ch.labels if l], key=key,
                    message=_describe(err)))
                if len(res.violations) >= max_viol:
                    return
        if out is None:
            res.trivial += 1
        else:
            d = digest((name, out))
            if d not in res.seen:
                res.seen.add(d)
            if len(res.samples) < 1 and len(ch.labels) and res.execs % 7 == 1:
                res.samples.append(
                    f'{name}: ' + '; '.join(l for l in ch.labels if l)[:400])
        t, w = ch.trace, ch.widths
        i = len(t) - 1
        while i >= fixed and t[i] + 1 >= w[i]:
            i -= 1
        if i < fixed:
            return
        cur = t[:i] + [t[i] + 1]


def prefixes(body, want, max_depth=8):
    """Cut the choice tree into at least `want` subtrees when possible."""
    done, frontier, depth = [], [[]], 0
    while frontier and len(done) + len(frontier) < want and depth < max_depth:
        nxt = []
        for p in frontier:
            try:
                ch, _, _ = run_leaf(body, p, split=len(p))
            except _Split:
                nxt += _expand(body, p)
                continue
            if len(ch.trace) == len(p):
                done.append(p)
            else:               # only 1-wide points below p
                done.append(p)
        frontier, depth = nxt, depth + 1
    return done + frontier


class _Probe(Ch):
    def idx(self, n, label=None):
        if len(self.trace) >= len(self.prefix) and n > 1:
            self.n = n
            raise _Split()
        return super().idx(n, label)


def _expand(body, p):
    ch = _Probe(p)
    try:
        body(ch)
    except _Split:
        pass
    pre = list(ch.trace)
    return [pre + [i] for i in range(ch.n)]


# ---------------------------------------------------------------- BFS workers

def replay_history(factory, init, hist):
    s = factory(init)
    for op in hist:
        s.apply(op)
    return s


def _hist_step(factory, init, hist, op):
    """Replay hist then op on a fresh pair. -> (canon or None, enabled, err)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(EXEC_LIMIT_S)
    s = None
    try:
        s = factory(init)
        s.replaying = True
        for o in hist:
            s.apply(o)
        s.replaying = False
        if op is not None:
            s.apply(op)
        return digest(s.canon()), s.ops(), None
    except (KeyboardInterrupt, MemoryError, Divergence):
        raise
    except BaseException as e:  # noqa
        return None, None, e
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if s is not None:
            s.close()


def bfs_task(factory, init, hist, ops, known, name):
    """Apply every op in the state reached by hist."""
    out, viol, kn = [], [], {}
    for op in ops:
        c, en, err = _hist_step(factory, init, hist, op)
        if err is not None:
            key = getattr(err, 'key', None)
            if key is not None and key in known:
                kn.setdefault(key, _describe(err))
                continue
            viol.append(dict(scenario=name, kind='bfs', init=init,
                             history=hist + [op], key=key,
                             message=_describe(err)))
            if len(viol) >= 3:
                break
            continue
        out.append((op, c, en))
    return out, viol, kn


# ---------------------------------------------------------------- process pool

def _worker(fn, tasks, counter, conn, slot, cur):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= len(tasks):
                break
            cur[slot] = i
            conn.send((i, 'ok', fn(tasks[i])))
        conn.send((None, 'end', None))
    except BaseException as e:  # noqa
        try:
            conn.send((None, 'error', traceback.format_exc()))
        except Exception:       # noqa
            pass
        del e
    finally:
        conn.close()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)


def pmap(fn, tasks, stop=lambda r: False, nproc=None):
    """Unordered parallel map by fork.  Yields (i, 'ok', result) or
    (i, 'died', signal) if the worker process was killed by the code."""
    nproc = min(nproc or NPROC, max(1, len(tasks)))
    ctx = mp.get_context('fork')
    counter = ctx.Value('l', 0)
    cur = ctx.Array('l', [-1] * nproc)
    live = {}
    for s in range(nproc):
        r, w = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(fn, tasks, counter, w, s, cur))
        p.start()
        w.close()
        live[r] = (p, s)
    out, stopped = [], False
    from multiprocessing.connection import wait
    while live:
        for r in wait(list(live)):
            p, s = live[r]
            try:
                i, tag, val = r.recv()
            except (EOFError, OSError):
                p.join()
                del live[r]
                if p.exitcode != 0 and not stopped:
                    out.append((cur[s], 'died', p.exitcode))
                continue
            if tag == 'end':
                p.join()
                del live[r]
            elif tag == 'error':
                for q, _ in live.values():
                    q.kill()
                raise RuntimeError('harness error in worker:\n' + val)
            else:
                out.append((i, tag, val))
                if not stopped and stop(val):
                    stopped = True
                    with counter.get_lock():
                        counter.value = len(tasks) + 10**6
    return out


# ---------------------------------------------------------------- drivers

def run_trees(trees, known, want=96):
    tasks = []
    for t in trees:
        for p in prefixes(t.body, want):
            tasks.append((t, p))
    # interleave so that early tasks come from all scenarios
    def one(task):
        t, p = task
        r = Result()
        explore(t.body, p, known, r, t.name)
        return r
    per = {t.name: Result() for t in trees}
    for i, tag, val in pmap(one, tasks,
                            stop=lambda r: len(r.violations) > 0):
        t, p = tasks[i]
        if tag == 'died':
            per[t.name].violations.append(dict(
                scenario=t.name, kind='tree', choices=p, labels=[], key=None,
                message=f'process died (exit {val}) while exploring below '
                        f'this prefix'))
        else:
            per[t.name].merge(val)
    return per


def run_bfs(b, known):
    res = Result()
    seen = {}
    frontier = []
    for init in b.factory.inits():
        c, en, err = _hist_step(b.factory, init, [], None)
        if err is not None:
            res.violations.append(dict(
                scenario=b.name, kind='bfs', init=init, history=[],
                key=getattr(err, 'key', None), message=_describe(err)))
            return res
        if c not in seen:
            seen[c] = ([],)
            frontier.append((init, [], en))
    level = [len(frontier)]
    for d in range(b.depth):
        tasks = []
        for init, hist, ops in frontier:
            # split big menus so the pool stays busy
            for k in range(0, len(ops), 24):
                tasks.append((init, hist, ops[k:k + 24]))

        def one(task):
            return bfs_task(b.factory, task[0], task[1], task[2], known,
                            b.name)
        nxt = []
        for i, tag, val in sorted(
                pmap(one, tasks, stop=lambda v: len(v[1]) > 0),
                key=lambda x: x[0]):
            init, hist, ops = tasks[i]
            if tag == 'died':
                res.violations.append(dict(
                    scenario=b.name, kind='bfs', init=init, history=hist,
                    key=None, message=f'process died (exit {val}) applying '
                    f'one of {_short(ops)}'))
                continue
            out, viol, kn = val
            for k, v in kn.items():
                res.known.setdefault(k, v)
            res.violations += viol
            res.transitions += len(out)
            res.execs += len(out)
            for op, c, en in out:
                new = c not in seen
                seen[c] = True
                if new or d < b.exact:
                    nxt.append((init, hist + [op], en))
                if new:
                    if len(res.samples) < 2 and d + 1 >= min(2, b.depth):
                        res.samples.append(
                            f'{b.name}: {_short(init)} -> '
                            + _short(hist + [op]))
        frontier = nxt
        level.append(len(nxt))
        if res.violations or not frontier:
            break
    res.states = len(seen)
    res.levels = level
    return res


def first_violation(vs):
    def size(v):
        return (len(v.get('history', v.get('choices', []))),
                sum(v.get('choices', [])) if v['kind'] == 'tree' else 0)
    return min(vs, key=size)
