"""Exhaustive-exploration engine.

A check enumerates a finite space of *cases* (roots of histories, programs, input
shapes, fault plans).  Every case is executed against the real code; nothing is
sampled.  A case drives one or more transitions of the implementation in lock-step
with a reference model and records every model state it visits.

Check modules provide
    ID, TITLE, LEVEL, RULE, ASSUMPTIONS
    cases(tier)        -> iterable of JSON-able dicts, each with a unique 'id'
    run(case, rec)     -> drives the implementation, reports to rec
"""
import fnmatch
import hashlib
import json
import math
import multiprocessing as mp
import os
import queue
import resource
import signal
import sys
import time
import traceback

from . import boot

VERIF = boot.VERIF


class CaseTimeout(BaseException):
    pass


class Stop(Exception):
    """Raised by rec.require to abandon a case after a failed essential step."""


def _h(key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), 'big')


class Rec:
    """What one case reports."""
    def __init__(self, case):
        self.case = case
        self.states = set()
        self.trans = 0
        self.evals = 0
        self.viol = []
        self.notes = {}

    def state(self, *key):
        self.states.add(_h(key))

    def step(self, n=1):
        self.trans += n

    def fail(self, label, **detail):
        if len(self.viol) < 60:
            self.viol.append((label, {k: _js(v) for k, v in detail.items()}))

    def check(self, cond, label, **detail):
        self.evals += 1
        if not bool(cond):
            self.fail(label, **detail)
            return False
        return True

    def require(self, cond, label, **detail):
        if not self.check(cond, label, **detail):
            raise Stop()

    def close(self, got, want, tol, label, **detail):
        """max-norm comparison; shape must agree after squeezing; NaN never agrees."""
        import numpy as np
        self.evals += 1
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.dtype == object or w.dtype == object:
                raise TypeError('object array')
            g, w = np.squeeze(g), np.squeeze(w)
            if g.shape != w.shape:
                self.fail(label, why='shape', got_shape=list(g.shape), want_shape=list(w.shape), **detail)
                return False
            err = float(np.max(np.abs(g - w))) if g.size else 0.0
        except Exception as e:
            self.fail(label, why='not comparable: %r' % (e,), got=repr(got)[:200], **detail)
            return False
        if not err <= tol:
            self.fail(label, why='value', err=err, tol=tol,
                      got=_js(g), want=_js(w), **detail)
            return False
        return True

    def call(self, label, fn, *a, **k):
        """Run fn; an exception is a violation and abandons the case."""
        self.trans += 1
        try:
            return fn(*a, **k)
        except CaseTimeout:
            raise
        except Exception as e:
            self.fail(label + ':raised ' + type(e).__name__, exc=repr(e)[:300],
                      tb=''.join(traceback.format_exc().splitlines(True)[-6:])[:1500])
            raise Stop()

    def attempt(self, label, fn, *a, **k):
        """As call, but only this step is abandoned: returns (ok, value)."""
        try:
            return True, self.call(label, fn, *a, **k)
        except Stop:
            return False, None

    def rejects(self, label, fn, *a, **k):
        """fn must raise."""
        self.trans += 1
        self.evals += 1
        try:
            r = fn(*a, **k)
        except CaseTimeout:
            raise
        except Exception:
            return True
        self.fail(label, why='accepted', result=repr(r)[:300])
        return False


def _js(v):
    import numpy as np
    try:
        if isinstance(v, np.ndarray):
            if v.size > 64:
                return 'array%s head=%s' % (v.shape, np.array2string(v.ravel()[:16], precision=17))
            return np.array2string(v, precision=17, threshold=100)
        if isinstance(v, (int, float, str, bool, type(None))):
            if isinstance(v, float) and not math.isfinite(v):
                return repr(v)
            return v
        if isinstance(v, (list, tuple)):
            return [_js(x) for x in v]
        if isinstance(v, dict):
            return {str(k): _js(x) for k, x in v.items()}
        return repr(v)[:300]
    except Exception:
        return '<unprintable>'


def run_one(mod, case, limit=None):
    rec = Rec(case)
    if limit:
        def onalarm(sig, frm):
            raise CaseTimeout()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(int(limit))
    try:
        mod.run(case, rec)
    except Stop:
        pass
    except CaseTimeout:
        rec.fail('no answer within %ds' % limit)
    except MemoryError:
        rec.fail('memory exhausted')
    except Exception as e:
        rec.fail('raised ' + type(e).__name__, exc=repr(e)[:300],
                 tb=''.join(traceback.format_exc().splitlines(True)[-8:])[:2000])
    finally:
        if limit:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
    return rec


def _worker(mod, cases, nxt, cur, began, slot, q, limit, batch):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, 'w')
    out = []
    n = len(cases)
    last = time.time()
    while True:
        with nxt.get_lock():
            i = nxt.value
            if i >= n:
                break
            nxt.value = i + 1
        began[slot] = time.time()
        cur[slot] = i
        rec = run_one(mod, cases[i], limit)
        cur[slot] = -1
        out.append((i, rec.states, rec.trans, rec.evals, rec.viol, rec.notes))
        if len(out) >= batch or time.time() - last > 0.5:
            q.put((slot, out))
            out = []
            last = time.time()
    q.put((slot, out))
    q.put((slot, None))
    q.close()
    q.join_thread()


def explore(mod, cases, jobs=8, limit=250, budget=None):
    """Run every case; returns list of result tuples indexed by case."""
    n = len(cases)
    res = [None] * n
    ctx = mp.get_context('fork')
    nxt = ctx.Value('l', 0)
    jobs = max(1, min(jobs, n))
    cur = ctx.Array('l', [-1] * (jobs * 64), lock=False)
    began = ctx.Array('d', [0.0] * (jobs * 64), lock=False)
    q = ctx.Queue()
    procs = {}
    slots = iter(range(jobs * 64))

    def spawn():
        try:
            s = next(slots)
        except StopIteration:
            return
        p = ctx.Process(target=_worker, args=(mod, cases, nxt, cur, began, s, q, limit, 64), daemon=True)
        p.start()
        procs[s] = p

    for _ in range(jobs):
        spawn()
    done = set()

    def take(block):
        got = False
        while True:
            try:
                slot, out = q.get(timeout=0.2 if block else 0.01)
            except queue.Empty:
                return got
            got = True
            block = False
            if out is None:
                done.add(slot)
                continue
            for r in out:
                res[r[0]] = r

    while len(done) < len(procs):
        take(True)
        now = time.time()
        for s, p in list(procs.items()):
            if s in done:
                continue
            i = cur[s]
            hung = i >= 0 and now - began[s] > limit * 1.5 + 10
            if hung:
                os.kill(p.pid, signal.SIGKILL)
                p.join(5)
            if not p.is_alive():
                take(True)
                if s in done:
                    continue
                done.add(s)
                i = cur[s]
                if i >= 0:
                    why = 'no answer within %ds (killed)' % limit if hung else \
                          'process died (exit %s)' % p.exitcode
                    res[i] = (i, set(), 1, 1, [(why, {})], {})
                spawn()
    for p in procs.values():
        p.join(10)
    # cases whose results were lost with a dying worker: run them one by one
    missing = [i for i in range(n) if res[i] is None]
    for i in missing:
        r, w = ctx.Pipe(False)

        def one():
            sys.stdout = open(os.devnull, 'w')
            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
            rec = run_one(mod, cases[i], limit)
            w.send((i, rec.states, rec.trans, rec.evals, rec.viol, rec.notes))
            w.close()
        p = ctx.Process(target=one)
        p.start()
        w.close()
        try:
            if r.poll(limit * 1.5 + 10):
                res[i] = r.recv()
        except EOFError:
            pass
        if res[i] is None:
            if p.is_alive():
                os.kill(p.pid, signal.SIGKILL)
            p.join(5)
            res[i] = (i, set(), 1, 1, [('process died (exit %s)' % p.exitcode, {})], {})
        else:
            p.join(5)
    return res


def known(prop):
    """[(glob, what)] of the findings recorded for this property."""
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            head, what = line[len('finding:'):].split('::', 1)
            f = dict(t.split('=', 1) for t in head.split())
            if f['property'] == prop:
                out.append((f['match'].replace('%20', ' '), what.strip()))
    return out


def match(glob, key):
    # '[' is literal in our keys
    return fnmatch.fnmatchcase(key, glob.replace('[', '[[]'))


def main(mod, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--only', help='glob over case ids (debugging)')
    ap.add_argument('--all', action='store_true', help='print every violation key')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    limit = getattr(mod, "LIMIT", 250)

    if a.replay:
        d = json.load(open(a.replay))
        if hasattr(mod, 'setup'):
            mod.setup(d.get('tier', tier))
        rec = run_one(mod, d['case'], limit * 4)
        kn = known(mod.ID)
        bad = [(l, x) for l, x in rec.viol if not any(match(g, key_of(d['case'], l)) for g, _ in kn)]
        for l, x in rec.viol:
            print('case', d['case']['id'], '|', l, json.dumps(x)[:2000])
        if bad:
            print('VIOLATION property=%s replay=%s' % (mod.ID, os.path.abspath(a.replay)))
            return 1
        print('no violation on replay')
        return 0

    if hasattr(mod, 'setup'):
        mod.setup(tier)
    cases = list(mod.cases(tier))
    ids = set()
    for c in cases:
        assert c['id'] not in ids, 'duplicate case id %s' % c['id']
        ids.add(c['id'])
    if a.only:
        cases = [c for c in cases if match(a.only, c['id'])]
    if a.list:
        for c in cases:
            print(json.dumps(c))
        return 0
    # interleave so that expensive neighbours spread over the workers
    res = explore(mod, cases, jobs=a.jobs, limit=limit)

    states = set()
    trans = evals = 0
    viol = []
    nontrivial = 0
    notes = {}
    for c, r in zip(cases, res):
        states |= r[1]
        trans += r[2]
        evals += r[3]
        nontrivial += bool(r[1]) and r[3] > 0
        for l, x in r[4]:
            viol.append((c, l, x))
        for k, v in r[5].items():
            notes[k] = notes.get(k, 0) + v
    kn = known(mod.ID)
    hit = {}
    fresh = []
    for c, l, x in viol:
        key = key_of(c, l)
        for g, what in kn:
            if match(g, key):
                hit.setdefault((g, what), []).append(key)
                break
        else:
            fresh.append((c, l, x))

    for (g, what), keys in hit.items():
        print('KNOWN-FINDING: property=%s %s' % (mod.ID, what))

    wall = time.time() - t0
    cov = dict(states=len(states), transitions=trans,
               traces_validated_against_impl=len(cases),
               evaluations=evals, distinct_nontrivial=nontrivial,
               rule=mod.RULE, exhaustive=True,
               samples=[{'case': c, 'transitions': r[2], 'oracle_comparisons': r[3], 'states': len(r[1])}
                        for c, r in list(zip(cases, res))[::max(1, len(cases) // 5)][:6]],
               known_findings_observed=[{'what': w, 'instances': len(k)} for (g, w), k in hit.items()])
    cov.update(notes)
    ev = dict(property=mod.ID, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1),
              level=mod.LEVEL, coverage=cov, assumptions=list(mod.ASSUMPTIONS),
              wall_s=round(wall, 2), violations=len(fresh))
    if not a.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', '.%s.%d' % (mod.ID, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(VERIF, 'evidence', mod.ID + '.json'))
    print('%s %s: %d cases, %d model states, %d transitions, %d oracle comparisons, %.1fs'
          % (mod.ID, tier, len(cases), len(states), trans, evals, wall))
    if fresh:
        out = os.path.join(VERIF, 'out', mod.ID)
        os.makedirs(out, exist_ok=True)
        seen = 0
        for c, l, x in fresh:
            key = key_of(c, l)
            path = os.path.join(out, '%016x.json' % _h(key))
            if seen < 200:
                with open(path, 'w') as f:
                    json.dump(dict(property=mod.ID, tier=tier, case=c, label=l, detail=x), f, indent=1)
            seen += 1
            if a.all:
                print('  FAIL', key, json.dumps(x)[:600])
            elif seen <= 8:
                print('  violating case:', key, json.dumps(x)[:800])
                print('VIOLATION property=%s replay=%s' % (mod.ID, path))
        print('%s: %d violations' % (mod.ID, len(fresh)))
        return 1
    return 0


def key_of(case, label):
    return (case['id'] + '|' + label).replace(' ', '_')
