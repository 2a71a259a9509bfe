"""Runs the scenarios of one property: symbolic exploration, counterexample
replay on the unpatched code, witness validation, evidence."""
import importlib
import itertools
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

_scen = []


class Scenario:
    def __init__(self, f, params, thorough, only, max_paths, budget):
        self.f, self.params, self.thorough = f, params, thorough
        self.only, self.max_paths, self.budget = only, max_paths, budget
        self.name = f.__name__

    def instances(self, tier):
        if self.only and tier != self.only:
            return []
        p = dict(self.params or {})
        if tier == 'thorough' and self.thorough:
            p.update(self.thorough)
        keys = sorted(p)
        return [dict(zip(keys, v)) for v in
                itertools.product(*[p[k] for k in keys])]


def scenario(params=None, thorough=None, only=None, max_paths=6000,
             budget=None):
    def deco(f):
        _scen.append(Scenario(f, params, thorough, only, max_paths, budget))
        return f
    if callable(params):
        f, params = params, None
        return deco(f)
    return deco


def load(pid):
    del _scen[:]
    sys.path.insert(0, REPO)
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    m = importlib.import_module('props.' + pid)
    importlib.reload(m) if not _scen else None
    return m, list(_scen)


# ------------------------------------------------------- function coverage

_covered = set()


def _cover_on():
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, 'symx')
    except ValueError:
        return
    pre = os.path.join(REPO, 'sdepy') + os.sep

    def start(code, off):
        if code.co_filename.startswith(pre):
            _covered.add(os.path.basename(code.co_filename)[:-3] + '.'
                         + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


# ----------------------------------------------------------- one scenario

def concrete_run(f, kw, values, cfg):
    """Returns (failures, env) ; raises ReplayInvalid"""
    from .env import ConcEnv
    import numpy as np
    env = ConcEnv(dict(values), cfg)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            f(env, **kw)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            at = ''
            for fr in reversed(tb):
                if fr.filename.startswith(REPO):
                    at = ' at %s' % fr.name
                    break
            env.failures.append('unexpected exception %s: %s%s' % (
                type(e).__name__, str(e)[:200], at))
    return env.failures, env


def run_scenario(task):
    pid, name, kw, cfg = task
    t0 = time.time()
    try:
        r = _run_scenario(pid, name, kw, cfg)
    except BaseException as e:   # noqa: never lose a worker
        r = dict(status='inconclusive',
                 msg='machinery: %s' % ''.join(
                     traceback.format_exception(e))[-1500:],
                 stats={}, paths=0, goals=0, validated=0)
    r.update(name=name, kw={k: repr(v) for k, v in kw.items()},
             wall=time.time() - t0, covered=sorted(_covered))
    return r


def _run_scenario(pid, name, kw, cfg):
    from . import core, nf, facade
    from .core import Unsupported, PathAbort
    from .engine import Engine, Stats
    from .env import SymEnv, ReplayInvalid, GoalFailed, Inconclusive
    _covered.clear()
    sys.monitoring.restart_events()
    m, scens = load_cached(pid)
    sc = next(s for s in scens if s.name == name)
    f = sc.f
    core.reset_table()
    nf.reset()
    stats = Stats()
    budget = sc.budget or cfg['budget']
    eng = Engine(seed=cfg['seed'] * 7919 + hash_(name), deadline=time.time()
                 + budget, stats=stats, max_paths=sc.max_paths,
                 qtimeout=cfg.get('qtimeout', 4000))
    core.ENG.cur = eng
    res = dict(status='holds', msg='', stats=stats, paths=0, goals=0,
               validated=0, samples=[], known=[], maxdepth=0, aborted=0)
    inconclusive = []

    def replay(cands, limit, want=None):
        """first candidate that fails on the real code"""
        n = 0
        for a in cands:
            n += 1
            if n > limit:
                break
            try:
                fails, _ = concrete_run(f, kw, a, cfg)
            except (ReplayInvalid, Unsupported):
                continue
            fails = [x for x in fails if x not in cfg.get('known', ())]
            if fails:
                return a, fails
        return None

    first = True
    while True:
        if not first and not eng.next_path():
            break
        first = False
        if res['paths'] + res['aborted'] >= sc.max_paths:
            inconclusive.append('path budget (%d) exhausted' % sc.max_paths)
            break
        if time.time() > t_end(eng):
            inconclusive.append('time budget exhausted after %d paths'
                                % res['paths'])
            break
        eng.start()
        env = SymEnv(eng, cfg)
        bad = None
        try:
            with facade.patched():
                f(env, **kw)
            eng.discharge()
            res['paths'] += 1
            res['goals'] += env.ngoals
        except PathAbort:
            res['aborted'] += 1
            continue
        except GoalFailed as g:
            bad = ('goal', g.label, g.conds, g.last)
        except Inconclusive as g:
            bad = ('undecided', g.msg, None, None)
        except Unsupported as g:
            where = traceback.extract_tb(g.__traceback__)
            w = [x for x in where if x.filename.startswith(REPO)]
            bad = ('unsupported', 'not encodable: %s %s' % (
                g, ('at %s:%d' % (w[-1].name, w[-1].lineno)) if w else
                'at ' + ' < '.join('%s:%d' % (x.name, x.lineno)
                                   for x in where[-4:])), None, None)
        except nf.TooBig:
            bad = ('undecided', 'normal form too big', None, None)
        except Exception as e:
            bad = ('exception', 'unexpected exception %s: %s' % (
                type(e).__name__, str(e)[:300]), None, None)
            bad_tb = ''.join(traceback.format_exception(e))[-2500:]
        if bad is not None and not eng.feasible():
            # the path was followed on an undecided branch query
            res['aborted'] += 1
            continue
        eng.decs = eng.decs[:max(eng.idx, 0)] if eng.idx <= len(
            eng.decs) else eng.decs
        res['maxdepth'] = max(res['maxdepth'], len(eng.pc))
        if bad is None:
            # witness validation on the real code
            p = res['paths']
            if res['validated'] < cfg['witness'] and (
                    p <= 4 or p % 7 == 0 or p % 11 == 0):
                for a in itertools.islice(eng.assignments(
                        None, None, 30, 2), 1):
                    try:
                        fails, cenv = concrete_run(f, kw, a, cfg)
                    except (ReplayInvalid, Unsupported):
                        break
                    res['validated'] += 1
                    if len(res['samples']) < 2:
                        res['samples'].append(dict(
                            scenario=name, kw={k: repr(v)
                                               for k, v in kw.items()},
                            path_condition=[core.show(c, 60)
                                            for c in eng.pc[:8]],
                            witness={k: a[k] for k in list(a)[:10]}))
                    fails = [x for x in fails
                             if x not in cfg.get('known', ())]
                    if fails:
                        # the encoding passes, the real code fails: confirm
                        # on another point of the same path
                        r = replay(eng.assignments(None, None, 10, 1), 4)
                        if r is None:
                            inconclusive.append(
                                'witness run fails where the encoding holds, '
                                'not confirmed: %s' % fails[:2])
                            continue
                        res.update(status='violation', values=r[0],
                                   msg='; '.join(r[1][:4]))
                        return res
            continue
        kind, label, conds, last = bad
        if kind == 'goal':
            r = replay(eng.assignments(conds, last), 12)
            if r is None:
                r = replay(eng.assignments(None, None, 20, 2), 6)
            if r is not None:
                res.update(status='violation', values=r[0],
                           msg='%s [%s]' % (label, '; '.join(r[1][:4])))
                return res
            inconclusive.append(
                'goal refuted by the solver but not reproduced: %s: %s' % (
                    label, core.show(conds[0], 300) if conds else ''))
        elif kind == 'exception':
            r = replay(eng.assignments(None, None, 20, 4), 8)
            if r is not None:
                res.update(status='violation', values=r[0],
                           msg='%s [%s]' % (label, '; '.join(r[1][:4])))
                return res
            inconclusive.append(label + ' not reproduced\n' + bad_tb)
        else:
            # still run witnesses of the undecided path on the real code
            try:
                r = replay(eng.assignments(None, None, 12, 1), 4)
            except Unsupported:
                r = None
            if r is not None:
                res.update(status='violation', values=r[0],
                           msg='%s [%s]' % (label, '; '.join(r[1][:4])))
                return res
            inconclusive.append(label)
        if len(inconclusive) >= 3:
            break
    if any('refuted' in x for x in inconclusive):
        # the counterexamples found do not replay (functions left
        # uninterpreted): others, not bound to the same path
        r = replay(eng.anywhere(60), 60)
        if r is not None:
            res.update(status='violation', values=r[0],
                       msg='; '.join(r[1][:4]))
            return res
    if res['paths'] == 0 or res['goals'] == 0:
        inconclusive.append('vacuous: no path reached an assertion')
    if inconclusive:
        res['status'] = 'inconclusive'
        res['msg'] = ' | '.join(inconclusive[:3])
    res['queries'] = eng.queries
    return res


def t_end(eng):
    return eng.deadline


def hash_(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) % 1000003
    return h


_loaded = {}


def load_cached(pid):
    if pid not in _loaded:
        _loaded[pid] = load(pid)
    return _loaded[pid]


def _worker(conn, task):
    _init()
    try:
        conn.send(run_scenario(task))
    finally:
        conn.close()


def _lost(t, msg, wall):
    return dict(status='inconclusive', msg=msg, stats={}, paths=0, goals=0,
                validated=0, name=t[1],
                kw={k: repr(v) for k, v in t[2].items()}, wall=wall,
                covered=[])


def schedule(ctx, tasks, jobs, end, grace):
    """one forked process per scenario instance (the parent stays single
    threaded, so that forking is safe)"""
    from multiprocessing.connection import wait
    todo = list(enumerate(tasks))[::-1]
    run, out = {}, {}
    while todo or run:
        while todo and len(run) < jobs and time.time() < end:
            i, t = todo.pop()
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(w, t), daemon=True)
            p.start()
            w.close()
            run[r] = (i, t, p, time.time())
        if time.time() >= end:
            for r, (i, t, p, s) in run.items():
                p.kill()
                out[i] = _lost(t, 'hard time limit', time.time() - s)
            for i, t in todo:
                out[i] = _lost(t, 'hard time limit (not started)', 0.)
            break
        limit = min(end, min(s + t[3]['kill'] for i, t, p, s in
                             run.values()))
        for r in wait(list(run), max(0.05, limit - time.time())):
            i, t, p, s = run.pop(r)
            try:
                out[i] = r.recv()
                if out[i]['status'] == 'violation':
                    # decided: leave some time to the others
                    end = min(end, time.time() + grace)
            except EOFError:
                out[i] = _lost(t, 'the worker process died',
                               time.time() - s)
            r.close()
            p.join()
        for r in [r for r, (i, t, p, s) in run.items()
                  if time.time() > s + t[3]['kill']]:
            i, t, p, s = run.pop(r)
            p.kill()
            p.join()
            r.close()
            out[i] = _lost(t, 'time limit of a scenario', time.time() - s)
    return [out[i] for i in range(len(tasks))]


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _cover_on()


# -------------------------------------------------------------------- main

def known_findings(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [x for x in json.load(fh)['findings']
                if x.get('property') == pid and x.get('status') == 'open']


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--scenario')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--grace', type=float, help='seconds left to the other '
                    'scenarios after a violation')
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 4))
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    m, scens = load_cached(a.pid)
    known = known_findings(a.pid)
    cfg = dict(tier=tier, seed=a.seed,
               budget=150 if tier == 'quick' else 700,
               kill=330 if tier == 'quick' else 2400,
               witness=4 if tier == 'quick' else 16,
               qtimeout=4000 if tier == 'quick' else 15000,
               known=[k['label'] for k in known])
    if a.replay:
        return do_replay(a, scens, cfg)
    tasks = []
    for s in scens:
        if a.scenario and not s.name.startswith(a.scenario):
            continue
        for kw in s.instances(tier):
            tasks.append((a.pid, s.name, kw, cfg))
    results = []
    hard = 820 if tier == 'quick' else 6 * 3600
    ctx = mp.get_context('fork')
    if a.j == 1:
        _init()
        results = [run_scenario(t) for t in tasks]
    else:
        results = schedule(ctx, tasks, max(1, a.j), t0 + hard,
                           240 if a.grace is None else a.grace)
    rc = report(a, m, tier, results, known, time.time() - t0, scens)
    return rc


def report(a, m, tier, results, known, wall, scens):
    pid = a.pid
    viol = [r for r in results if r['status'] == 'violation']
    inc = [r for r in results if r['status'] == 'inconclusive']
    if a.v:
        for r in sorted(results, key=lambda r: -r['wall']):
            print('%-12s %6.1fs paths=%d goals=%d val=%d %s %s %s' % (
                r['status'], r['wall'], r['paths'], r['goals'],
                r['validated'], r['name'], r['kw'], r['msg'][:1500]))
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    cov = sorted({c for r in results for c in r['covered']})
    samples = [s for r in results for s in r.get('samples', [])]
    rnd = random.Random(a.seed)
    rnd.shuffle(samples)
    paths = sum(r['paths'] for r in results)
    q = tot.get('branch_queries', 0) + tot.get('goal_queries', 0)
    coverage = dict(
        states=tot.get('decisions', 0) + paths,
        transitions=tot.get('decisions', 0) + tot.get('forks', 0),
        traces_validated_against_impl=sum(r['validated'] for r in results),
        samples=samples[:6] or [dict(note='no witness sampled')],
        explanation='states: nodes of the explored symbolic decision trees; '
        'transitions: branch outcomes followed or refuted; every path '
        'condition and assertion is decided by z3 over all real values '
        'within the bounds; traces: path witnesses re-executed on the '
        'unpatched code.',
        scenarios=len(results),
        scenarios_decided=sum(r['status'] == 'holds' for r in results),
        paths_complete=paths,
        assertions_checked=sum(r['goals'] for r in results),
        solver_queries=q,
        assertions_unsat=tot.get('goals_unsat', 0),
        equalities_identical_terms_unsat=tot.get('folded_unsat', 0),
        assertions_identical_terms=tot.get('goals_trivial', 0),
        solver_seconds=round(tot.get('solver_s', 0), 3),
        functions_encoded=cov,
        sample_queries=[x for r in results
                        for x in r.get('queries', [])][:2],
        bounds=getattr(m, 'BOUNDS', ''),
        per_scenario=[dict(name=r['name'], kw=r['kw'], status=r['status'],
                           paths=r['paths'], wall=round(r['wall'], 2))
                      for r in results],
        inconclusive=[dict(name=r['name'], kw=r['kw'], why=r['msg'][:600])
                      for r in inc])
    ev = dict(property=pid, tier=tier, seed=a.seed, level='model_checking',
              coverage=coverage,
              assumptions=['floats of the implementation read as exact reals'
                           ] + list(getattr(m, 'ASSUMPTIONS', [])),
              wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if not a.scenario:
        with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for r in inc:
        print('INCONCLUSIVE property=%s scenario=%s%s: %s' % (
            pid, r['name'], r['kw'] or '', r['msg'][:700]))
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    for i, r in enumerate(viol):
        path = os.path.join(ROOT, 'replays', '%s-%s-%d.json' % (
            pid, r['name'], i))
        with open(path, 'w') as fh:
            json.dump(dict(property=pid, scenario=r['name'], kw=r['kw'],
                           values=r['values'], what=r['msg']), fh, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  %s %s: %s' % (r['name'], r['kw'] or '', r['msg'][:900]))
    print('%s: %d scenario instances, %d decided, %d inconclusive, %d '
          'violated; %d paths, %d assertions, %d solver queries (%.1f s), '
          '%.1f s' % (pid, len(results), coverage['scenarios_decided'],
                      len(inc), len(viol), paths,
                      coverage['assertions_checked'], q,
                      coverage['solver_seconds'], wall))
    if viol:
        return 1
    if len(inc) * 2 > len(results):
        return 2
    return 0


def do_replay(a, scens, cfg):
    from .env import ReplayInvalid
    with open(a.replay) as fh:
        d = json.load(fh)
    sc = next(s for s in scens if s.name == d['scenario'])
    for tier in ('quick', 'thorough'):
        for kw in sc.instances(tier):
            if {k: repr(v) for k, v in kw.items()} == d['kw']:
                fails, _ = concrete_run(sc.f, kw, d['values'], cfg)
                print('inputs:', json.dumps(d['values']))
                if fails:
                    print('reproduced on %s:' % REPO, '; '.join(fails))
                    return 1
                print('not reproduced: the property holds at this input')
                return 0
    return 2
