"""Running a check: jobs (one exploration each) in worker processes, obligations, replay, evidence, exit status."""
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction
import z3
from . import expr as X
from . import sym as S
from . import numeric as N
from . import smt, norm, load, explore
from .sym import Sym, SymBool, lift, Unsupported

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REALPY = os.environ.get('KGP_PYTHON', '/opt/venv/bin/python')


def num(v):
    """a sample value in a form that survives JSON and is turned into a float by the replay"""
    if isinstance(v, Fraction):
        return float(v)
    return float(N.mp.mpf(v))


def spread(xs, n=10):
    """at most n elements, the first ones and some from the whole list"""
    if len(xs) <= n:
        return xs
    h = n // 2
    return xs[:h] + [xs[h + (k * (len(xs) - h)) // (n - h)] for k in range(n - h)]


class Job:
    """context of one exploration; lives in a worker process"""

    def __init__(self, name, tier, seed, deadline):
        self.name, self.tier, self.seed = name, tier, seed
        self.deadline = deadline
        self.P = load.fresh()
        self.obl = []            # dicts
        self.cands = []          # counterexample candidates
        self.valid = []          # points for validating the encoding
        self.npaths = 0
        self.notes = []
        self.ex = None
        self.scope = name
        self.inputs = None
        self.functions = set()
        self.sides = {}
        self.nvalid = 3
        self.ztime = 2.0
        self.max_cands = 12
        self.check_sides = True
        self.lemmas = set()
        self.paths_out = {}
        self.complete = True
        self._monitor()

    def left(self):
        return self.deadline - time.time()

    def _monitor(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(3, 'kgp')
        except ValueError:
            pass
        root = os.path.join(load.REPO, 'kerrgeopy')

        def start(code, off):
            if code.co_filename.startswith(root):
                self.functions.add('%s:%s' % (os.path.relpath(code.co_filename, load.REPO), code.co_qualname))
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)

    # ---------------------------------------------------------------- exploration
    def explore(self, fn, facts=(), samples=(), inputs=None, scope=None, raises=None, timeout=1.0, budget=None,
                max_paths=300, defs=None, setup=None, merge=False):
        """run fn on every path; raises(exc) tells whether an exception escaping fn is what the property asks for"""
        self.inputs = inputs
        self.scope = scope or self.name
        defs = dict(defs or {})
        smp = [dict(defs, **s) for s in samples]
        ex = explore.Explorer(facts=facts, sampler=smp, timeout=timeout, max_paths=max_paths,
                              budget=min(budget or 1e9, max(1, self.left())))
        ex.extra_defs = defs
        ex.merge = merge
        self.ex = ex
        if setup:
            setup(ex)

        def wrapped():
            ex.path.obligations = []
            r = fn()
            if self.check_sides:
                self._sides()
            return r
        paths = ex.run(wrapped)
        if not ex.complete:
            self.complete = False
            self.notes.append('%s: exploration stopped after %d paths' % (self.scope, len(paths)))
        for p in paths:
            kind = p.outcome[0]
            key = kind
            if kind == 'raise':
                e = p.outcome[1]
                if 'Deadline' in str(e):        # wrapped by a foreign function call
                    raise Deadline()
                ok = bool(raises and raises(e))
                key = 'raise-ok' if ok else 'raise-unexpected'
                if not ok:
                    msg = '%s: %s' % (type(e).__name__, e)
                    tb = traceback.extract_tb(e.__traceback__)
                    where = [f for f in tb if 'kerrgeopy' in f.filename]
                    msg += ' at %s:%d' % (os.path.basename(where[-1].filename), where[-1].lineno) if where else ' (in the harness) ' + ' | '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
                    self._record('no exception', 'refuted' if p.samples else 'unresolved', msg, p)
                    for env in p.samples[:4]:
                        self._cand(env, 'raises ' + msg)
            elif kind == 'unsupported':
                self._record('encodable', 'unresolved', str(p.outcome[1])[:200], p)
            self.paths_out[key] = self.paths_out.get(key, 0) + 1
            self.npaths += 1
            for env in p.samples[:self.nvalid]:
                self._valid(env)
        self.stats = ex.stats
        return paths

    def _inputs_of(self, env):
        out = {}
        for k in self.inputs or ():
            v = env.get(k)
            if callable(v):
                v = v(env)
            if v is None:
                return None
            out[k] = num(v)
        return out

    def _cand(self, env, why):
        i = self._inputs_of(env)
        if i is None:
            return
        c = {'scope': self.scope, 'inputs': i, 'why': why[:300]}
        if sum(1 for d in self.cands if d['why'].split(':')[0] == c['why'].split(':')[0]) < 16 and len(self.cands) < self.max_cands * 20:
            self.cands.append(c)

    def _valid(self, env):
        i = self._inputs_of(env)
        if i is not None:
            c = {'scope': self.scope, 'inputs': i}
            if c not in self.valid:
                self.valid.append(c)

    def _record(self, name, status, how, path=None, secs=0.0):
        self.obl.append({'scope': self.scope, 'name': name, 'status': status, 'how': how, 'secs': round(secs, 3)})

    # ---------------------------------------------------------------- obligations (called while a path is running)
    def zero(self, name, n, scale=None, tol=1e-12):
        """the node must be zero for every input on this path"""
        if isinstance(n, Sym):
            n = n.n
        elif not isinstance(n, X.Node):
            n = lift(n)
        t0 = time.time()
        ex = self.ex
        if n.kind == 'c':
            if n.args == 0:
                return self._record(name, 'proved', 'syntactic', None, time.time() - t0)
        bad = []
        seen = 0
        und = []
        for env, memo in zip(ex._live, ex._memos):
            try:
                v = abs(N.evalf(n, env, memo))
                sc = self._mag(n, env, memo)
                seen += 1
                if v > tol * sc and v > N.mp.mpf(10) ** -20:
                    bad.append((v / sc, env))
            except N.Undefined as e:
                und.append((str(e), env))
        for why, env in und[:3]:
            self._cand(env, '%s: undefined (%s)' % (name, why))
        if bad:
            bad.sort(key=lambda b: -b[0])
            for v, env in spread(bad):
                self._cand(env, '%s: relative residual %s' % (name, N.mp.nstr(v, 3)))
            return self._record(name, 'refuted', 'witness with relative residual %s' % N.mp.nstr(bad[0][0], 3), None, time.time() - t0)
        try:
            f = norm.field(ex)
            f.deadline = min(self.deadline, time.time() + getattr(self, 'norm_budget', 60))
            e = f.el(n)
            res = f.poly_node(e.num)
            how = 'normal form (%d generators) + z3' % len(f.gens)
        except (norm.Failed, ZeroDivisionError, RecursionError) as er:
            res, how = n, 'z3 (%s)' % er
        if res.kind != 'c' and len(X.walk([res])) > 1500:
            self._hunt(name, lambda env, memo: abs(N.evalf(n, env, memo)) > max(tol * self._mag(n, env, memo), N.mp.mpf(10) ** -20))
            return self._record(name, 'unresolved', how + ': residual too large', None, time.time() - t0)
        c = X.cnot(X.cmp('eq', res))
        r, m = self._query(c)
        if r == 'unsat':
            return self._record(name, 'proved', how, None, time.time() - t0)
        if r == 'sat':
            self._model_cand(m, name)
        self._hunt(name, lambda env, memo: abs(N.evalf(n, env, memo)) > max(tol * self._mag(n, env, memo), N.mp.mpf(10) ** -20))
        self._record(name, 'unresolved', how + ': ' + r, None, time.time() - t0)

    def _hunt(self, name, bad):
        """the solver left an obligation open: look for a point that can be replayed among the variants of the samples"""
        found = 0
        for i, env, memo in self.ex.variants(2.0):
            try:
                if bad(env, memo):
                    self._cand(env, name + ': violated at a variant of the samples')
                    found += 1
            except (N.Undefined, ZeroDivisionError):
                self._cand(env, name + ': undefined at a variant of the samples')
                found += 1
            if found > 4:
                break

    def _mag(self, n, env, memo):
        sc = N.mp.mpf(0)
        if n.kind == 'a':
            sc = abs(N.mp.mpf(n.args[0].numerator) / n.args[0].denominator)
            for t, c in n.args[1]:
                sc += abs(N.evalf(t, env, memo) * c.numerator / c.denominator)
        return max(sc, N.mp.mpf(10) ** -6)

    def _query(self, c, timeout=None):
        ex = self.ex
        r, m = ex.light_query(c)
        if r == 'unsat':
            return r, m
        zc = ex._trans.cond(c)
        return smt.check(ex._zpc() + [zc] + ex._trans.defs, timeout or self.ztime)

    def _model_cand(self, m, why):
        ex = self.ex
        before = len(ex.sampler)
        ex._witness(X.TRUE, m)
        if len(ex.sampler) > before:
            self._cand(ex.sampler[-1], why + ' (solver model)')

    def true(self, name, c, timeout=None):
        """the condition must hold for every input on this path"""
        if isinstance(c, SymBool):
            c = c.c
        elif c is True or c is False:
            c = X.TRUE if c else X.FALSE
        t0 = time.time()
        ex = self.ex
        if c.op == 'const' and c.args[0]:
            return self._record(name, 'proved', 'syntactic', None, 0)
        bad = []
        for env, memo in zip(ex._live, ex._memos):
            try:
                if not N.holds(c, env, memo):
                    bad.append(env)
            except N.Undefined as e:
                self._cand(env, '%s: undefined (%s)' % (name, e))
        if bad:
            for env in spread(bad):
                self._cand(env, name + ': false')
            return self._record(name, 'refuted', 'witness', None, time.time() - t0)
        if c.op == 'const':
            # false on a path without sample points: decided by whether the path is reachable at all
            r, m = smt.check(ex._zpc() + ex._trans.defs, timeout or self.ztime)
            if r == 'sat':
                self._model_cand(m, name)
            if r != 'unsat':
                self._hunt(name, lambda env, memo: True)
            return self._record(name, 'proved' if r == 'unsat' else 'unresolved', 'path ' + r, None, time.time() - t0)
        if ex._cache.get(c.key) is True:
            return self._record(name, 'proved', 'path condition', None, time.time() - t0)
        r, m = self._query(X.cnot(c), timeout)
        if r == 'unsat':
            return self._record(name, 'proved', 'z3', None, time.time() - t0)
        if r == 'sat':
            self._model_cand(m, name)
        self._hunt(name, lambda env, memo: not N.holds(c, env, memo))
        self._record(name, 'unresolved', 'z3 ' + r, None, time.time() - t0)

    def _ncond(self, c):
        """the same condition with the radicands of its square roots in normal form"""
        if c.op == 'const':
            return c
        if c.op in ('not', 'and', 'or'):
            xs = [self._ncond(x) for x in c.args]
            return {'not': X.cnot, 'and': X.cand, 'or': X.cor}[c.op](*xs)
        n = c.args[0]
        m = {}
        f = norm.field(self.ex)
        for k in X.walk([n]):
            if k.kind == 'f' and k.args[0] == 'sqrt':
                try:
                    m[k] = X.fn('sqrt', f.full_node(f.el(k.args[1])))
                except norm.Failed:
                    pass
        return X.cmp(c.op, X.substitute([n], m)[0]) if m else c

    def equiv(self, name, got, want, timeout=None):
        """two conditions hold for the same inputs"""
        got, want = [X.TRUE if v is True else X.FALSE if v is False else getattr(v, 'c', v) for v in (got, want)]
        try:
            g2, w2 = self._ncond(got), self._ncond(want)
        except (norm.Failed, ZeroDivisionError, RecursionError):
            g2, w2 = got, want
        c = X.cor(X.cand(g2, w2), X.cand(X.cnot(g2), X.cnot(w2)))
        self.true(name, c, timeout)

    def fail(self, name, why='reached'):
        """this point must not be reached"""
        self.true(name + ': ' + why, X.FALSE)

    def _sides(self):
        """conditions under which the operations on the path are defined (denominators, radicands, ...)"""
        ex = self.ex
        done = set()
        for kind, c, k in ex.path.sides:
            if c.key in done:
                continue
            done.add(c.key)
            for env, memo in zip(ex._live, ex._memos):
                try:
                    ok = N.holds(c, env, memo)
                except N.Undefined:
                    ok = False
                if not ok:
                    self._cand(env, 'operation undefined: %s' % kind)
                    self.sides['violated at a sample'] = self.sides.get('violated at a sample', 0) + 1
                    break
            else:
                self.sides['held at every sample'] = self.sides.get('held at every sample', 0) + 1

    def result(self):
        return {'job': self.name, 'obl': self.obl, 'cands': self.cands, 'valid': self.valid, 'npaths': self.npaths,
                'notes': self.notes, 'functions': sorted(self.functions), 'smt': dict(smt.STATS), 'paths_out': self.paths_out,
                'sides': self.sides, 'complete': self.complete, 'branches': getattr(self, 'stats', {}).get('branches', 0)}


class Deadline(BaseException):
    pass


def _worker(fn, name, tier, seed, deadline, q):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    j = None

    def stop(*_):
        raise Deadline()
    signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, max(0.5, deadline - time.time()))
    try:
        j = Job(name, tier, seed, deadline)
        try:
            fn(j)
        except Deadline:
            j.complete = False
            j.notes.append('%s: stopped at the time limit' % name)
            if j.ex is not None:
                j.npaths = max(j.npaths, j.ex.stats['paths'] + 1)
                for env in (getattr(j.ex, '_live', []) or j.ex.sampler)[:3]:
                    j._valid(env)
                j._record('time limit', 'unresolved', 'the job was stopped at the time limit')
        signal.setitimer(signal.ITIMER_REAL, 0)
        q.put(j.result())
    except BaseException as e:
        r = j.result() if j is not None else {'job': name, 'obl': [], 'cands': [], 'valid': [], 'npaths': 0, 'notes': [], 'functions': [],
                                              'smt': dict(smt.STATS), 'paths_out': {}, 'sides': {}, 'complete': False, 'branches': 0}
        r['error'] = ''.join(traceback.format_exception(e))[-1500:]
        r['complete'] = False
        q.put(r)
    q.close()
    q.join_thread()
    os._exit(0)


def run_jobs(jobs, tier, seed, budget, workers=8):
    """jobs: list of (name, function of a Job); each runs in its own process and is stopped at the deadline"""
    ctx = mp.get_context('fork')
    end = time.time() + budget
    todo = list(jobs)[::-1]
    running, results = [], []
    while todo or running:
        while todo and len(running) < workers and time.time() < end - 1:
            name, fn = todo.pop()
            q = ctx.Queue()
            p = ctx.Process(target=_worker, args=(fn, name, tier, seed, end - 4, q))
            p.start()
            running.append((name, p, q))
        if todo and time.time() >= end - 1:
            for name, fn in todo:
                results.append({'job': name, 'skipped': True})
            todo = []
        still = []
        for name, p, q in running:
            try:
                r = q.get(timeout=0.02)
                results.append(r)
                p.join(5)
                if p.is_alive():
                    p.kill()
                continue
            except Exception:
                pass
            if time.time() > end or not p.is_alive():
                try:
                    r = q.get(timeout=1)
                except Exception:
                    r = {'job': name, 'timeout': True}
                results.append(r)
                if p.is_alive():
                    p.kill()
                p.join(2)
                continue
            still.append((name, p, q))
        running = still
    return results


def replay(prop, cases, timeout=120):
    """run the property's oracle on the real code for each case -> list of dicts"""
    if not cases:
        return []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    env['KGP_REPO'] = load.REPO
    n = min(8, max(1, len(cases) // 4))
    chunks = [cases[i::n] for i in range(n)]
    procs = []
    for ch in chunks:
        p = subprocess.Popen([REALPY, os.path.join(HERE, 'replay', 'run.py'), prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, text=True, env=env, cwd='/')
        procs.append(p)
    import threading
    outs = [None] * n

    def feed(k):
        try:
            outs[k] = procs[k].communicate(json.dumps(chunks[k]), timeout=timeout)
        except subprocess.TimeoutExpired:
            procs[k].kill()
            outs[k] = procs[k].communicate()
    th = [threading.Thread(target=feed, args=(k,)) for k in range(n)]
    [t.start() for t in th]
    [t.join() for t in th]
    res = [None] * len(cases)
    for k in range(n):
        rs = []
        for line in (outs[k][0] or '').splitlines():
            if line.startswith('RESULT '):
                rs.append(json.loads(line[7:]))
        for i, c in enumerate(chunks[k]):
            r = rs[i] if i < len(rs) else {'violated': None, 'detail': 'replay did not finish: ' + (outs[k][1] or '')[-300:]}
            res[k + i * n] = r
    return res


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def matches(finding, case):
    m = finding.get('match', {})
    if m.get('scope') and not case['scope'].startswith(m['scope']):
        return False
    for k, (lo, hi) in m.get('inputs', {}).items():
        v = case['inputs'].get(k)
        if v is None or not (lo <= v <= hi):
            return False
    return True


def main(prop, jobs, tier, seed, budget, level, meta):
    t0 = time.time()
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    results = run_jobs(jobs, tier, seed, budget)
    obl, cands, valid, funcs, notes, errors = [], [], [], set(), [], []
    smtstats = {'queries': 0, 'time': 0.0, 'sat': 0, 'unsat': 0, 'unknown': 0}
    npaths = branches = 0
    outs, sides, perjob = {}, {}, {}
    for r in results:
        if r.get('timeout') or r.get('skipped'):
            notes.append('%s: %s' % (r['job'], 'stopped at the time limit' if r.get('timeout') else 'not started in time'))
            perjob[r['job']] = 'no result'
            continue
        if r.get('error'):
            errors.append('%s: %s' % (r['job'], r['error']))
        obl += r['obl']
        cands += r['cands']
        valid += r['valid']
        funcs |= set(r['functions'])
        notes += r['notes']
        npaths += r['npaths']
        branches += r['branches']
        for k, v in r['smt'].items():
            smtstats[k] += v
        for d, s in ((outs, r['paths_out']), (sides, r['sides'])):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v
        cnt = {}
        for o in r['obl']:
            cnt[o['status']] = cnt.get(o['status'], 0) + 1
        perjob[r['job']] = {'paths': r['npaths'], 'obligations': cnt, 'complete': r['complete']}
    seen, cc = set(), []
    for c in cands:
        k = json.dumps([c['scope'], c['inputs']], sort_keys=True)
        if k not in seen:
            seen.add(k)
            cc.append(c)
    # spread over the scopes and reasons so that one noisy obligation does not crowd out the others
    by = {}
    for c in cc:
        by.setdefault((c['scope'], c['why'].split(':')[0]), []).append(c)
    pick = []
    while any(by.values()):
        for k in list(by):
            if by[k]:
                pick.append(by[k].pop(0))
    pick, more = pick[:160], pick[160:1600]
    vv = []
    for c in valid:
        k = json.dumps([c['scope'], c['inputs']], sort_keys=True)
        if k not in seen:
            seen.add(k)
            vv.append(c)
    vmax = 100 if tier == 'quick' else 300
    byv = {}
    for c in vv:
        byv.setdefault(c['scope'], []).append(c)
    vp = []
    while any(byv.values()) and len(vp) < vmax:
        for k in list(byv):
            if byv[k]:
                vp.append(byv[k].pop(0))
    rr = replay(prop, pick + vp, timeout=180 if tier == 'quick' else 600)
    known = known_findings(prop)
    t1 = time.time()
    while more and not any(r['violated'] and not any(matches(f, c) for f in known) for c, r in zip(pick + vp, rr)) and time.time() - t1 < 90:
        # none of the candidates was reproduced: try the others
        nxt, more = more[:160], more[160:]
        rr = rr[:len(pick)] + replay(prop, nxt, timeout=100) + rr[len(pick):]
        pick = pick + nxt
    violations, spurious, kf = [], [], set()
    for c, r in zip(pick + vp, rr):
        if r['violated']:
            hit = [f for f in known if matches(f, c)]
            if hit:
                kf.add(hit[0]['what'])
                continue
            violations.append((c, r))
        elif 'why' in c:
            spurious.append((c, r))
    skipped = sum(1 for r in rr if r['violated'] is False and r['detail'].startswith('not applicable'))
    ok_valid = sum(1 for r in rr if r['violated'] is False) - skipped
    for c, r in [(c, r) for c, r in zip(pick + vp, rr) if r['violated'] is None][:5]:
        print('REPLAY-ERROR: %s %s %s' % (c['scope'], c['inputs'], r['detail'].strip()[-200:]))
    bad_replay = sum(1 for c, r in zip(pick + vp, rr) if r['violated'] is None)
    for f in known:
        kf.add(f['what'])
    for w in sorted(kf):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    st = {}
    for o in obl:
        st[o['status']] = st.get(o['status'], 0) + 1
    for c, r in spurious[:10]:
        print('INCONCLUSIVE: %s %s | %s | replay: %s' % (c['scope'], c['inputs'], c['why'], r['detail'].strip()[-200:]))
    unres = [o for o in obl if o['status'] != 'proved']
    for o in unres[:10]:
        print('UNDECIDED: %s / %s: %s (%s)' % (o['scope'], o['name'], o['status'], o['how'][:160]))
    for e in errors[:5]:
        print('JOB-ERROR: ' + e)
    if not violations and not npaths:
        print('no path was explored')
    coverage = {
        'states': npaths, 'transitions': branches, 'traces_validated_against_impl': ok_valid,
        'samples': [dict(c['inputs'], scope=c['scope']) for c in (vp or pick)[:5]],
        'functions_encoded': sorted(funcs), 'path_outcomes': outs,
        'obligations': {'total': len(obl), **st}, 'per_job': perjob,
        'queries': smtstats['queries'], 'query_results': {k: smtstats[k] for k in ('sat', 'unsat', 'unknown')},
        'solver_time_s': round(smtstats['time'], 2), 'definedness_conditions': sides,
        'candidates_replayed': len(pick), 'candidates_not_reproduced': len(spurious), 'replays_without_answer': bad_replay, 'replays_outside_domain': skipped,
        'undecided': ['%s / %s: %s' % (o['scope'], o['name'], o['how'][:120]) for o in unres[:40]],
        'bounds': meta.get('bounds', ''), 'outside_the_claim': meta.get('outside', ''), 'stubs': meta.get('stubs', []),
        'notes': notes[:30], 'job_errors': errors[:10],
    }
    evid = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage,
            'assumptions': meta.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
        json.dump(evid, f, indent=1)
    print('%s %s: %d jobs, %d paths, %d obligations %s, %d queries (%.1f s solver), %d points replayed, %d candidates not reproduced, %.1f s'
          % (prop, tier, len(jobs), npaths, len(obl), st, smtstats['queries'], smtstats['time'], len(pick) + len(vp), len(spurious), time.time() - t0))
    if violations:
        c, r = violations[0]
        path = os.path.join(ev, 'replay', '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'cases': [dict(c, detail=r['detail']) for c, r in violations[:10]],
                       'run': '%s %s %s < this file' % (REALPY, os.path.join(HERE, 'replay', 'run.py'), prop)}, f, indent=1)
        print('counterexample: %s %s: %s' % (c['scope'], c['inputs'], r['detail']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0 if npaths else 2
