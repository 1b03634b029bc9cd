"""Entry point of one check: python -m mc.run PROPERTY TIER"""
import importlib
import json
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known(pid):
    """known_findings.txt: lines `known: property=<id> key=<key> | <text>`."""
    known = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith('known:'):
                continue
            head, _, text = line[len('known:'):].partition('|')
            f = dict(x.split('=', 1) for x in head.split())
            if f.get('property') == pid:
                known[f['key']] = text.strip()
    return known


def check(pid, tier):
    t0 = time.time()
    from . import engine
    mod = importlib.import_module(f'mc.props.{pid.lower()}')
    known = load_known(pid)
    mod_warm = getattr(mod, 'warm', None)
    if mod_warm is not None:
        try:
            mod_warm()
        except Exception:   # noqa: the exploration itself will meet it again
            pass
    scen = mod.scenarios(tier)
    only = os.environ.get('MC_ONLY')
    if only:
        scen = [s for s in scen if s.name in only.split(',')]
    trees = [s for s in scen if s.kind == 'tree']
    bfss = [s for s in scen if s.kind == 'bfs']
    per = {}
    viol, knownhit = [], {}
    if trees:
        per.update(engine.run_trees(trees, set(known)))
    found = any(r.violations for r in per.values())
    for b in bfss:
        # a violation is enough: nothing more is explored
        per[b.name] = engine.Result() if found else \
            engine.run_bfs(b, set(known))
    for r in per.values():
        viol += r.violations
        for k, v in r.known.items():
            knownhit.setdefault(k, v)
    # ---- evidence
    level = mod.LEVEL
    tree_execs = sum(per[t.name].execs for t in trees)
    states = sum(per[b.name].states for b in bfss)
    transitions = sum(per[b.name].transitions for b in bfss)
    distinct = sum(len(per[t.name].seen) for t in trees)
    samples = [s for r in per.values() for s in r.samples][:8] or ['(none)']
    if viol:
        samples.append('violation: ' + str(viol[0].get('labels') or
                                           viol[0].get('history')))
    cov = dict(samples=samples, exhaustive=not viol,
               bounds=getattr(mod, 'BOUNDS', {}).get(tier, ''),
               scenarios={n: dict(
                   kind=('bfs' if any(b.name == n for b in bfss) else 'tree'),
                   executions=r.execs, distinct_outcomes=len(r.seen),
                   trivial=r.trivial, states=r.states,
                   transitions=r.transitions,
                   levels=getattr(r, 'levels', None)) for n, r in per.items()})
    if level == 'model_checking':
        cov.update(states=states, transitions=transitions,
                   traces_validated_against_impl=transitions + tree_execs)
        if trees:
            cov.update(stateless_executions=tree_execs,
                       stateless_distinct_outcomes=distinct)
    else:
        cov.update(evaluations=tree_execs + transitions,
                   distinct_nontrivial=distinct + states, rule=mod.RULE)
    ev = dict(property=pid, tier=tier,
              seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level,
              coverage=cov, assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    # ---- report
    for n, r in per.items():
        print(f'{pid} {n}: executions={r.execs} distinct={len(r.seen)} '
              f'states={r.states} transitions={r.transitions} '
              f'violations={len(r.violations)}')
    for k in sorted(knownhit):
        print(f'KNOWN-FINDING: property={pid} {k} {known[k]}')
    if viol:
        v = engine.first_violation(viol)
        d = os.path.join(ROOT, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{pid}-{v["scenario"]}.json')
        v = dict(v, property=pid, tier=tier)
        with open(path, 'w') as f:
            json.dump(v, f, indent=1, default=str)
        print(f'{pid} [{v["scenario"]}] {v["message"][:1500]}')
        for l in v.get('labels') or v.get('history') or []:
            print('   ', l)
        print(f'VIOLATION property={pid} replay={path}')
        print(f'{pid}: {time.time() - t0:.1f} s')
        return 1
    print(f'{pid}: held on everything explored, {time.time() - t0:.1f} s')
    return 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else \
        os.environ.get('VERIF_TIER', 'quick')
    # A supervisor survives a crash of the interpreter under the code we test.
    pidc = os.fork()
    if pidc == 0:
        rc = 2
        try:
            rc = check(pid, tier)
        except BaseException:   # noqa
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(rc)
    _, st = os.waitpid(pidc, 0)
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS,
                   signal.SIGFPE, signal.SIGILL):
            d = os.path.join(ROOT, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f'{pid}-crash.json')
            with open(path, 'w') as f:
                json.dump(dict(property=pid, tier=tier, kind='crash',
                               signal=sig), f)
            print(f'VIOLATION property={pid} replay={path}')
            sys.exit(1)
        sys.exit(128 + sig)
    sys.exit(os.WEXITSTATUS(st))


if __name__ == '__main__':
    main()
