"""Discharging obligations with z3, in parallel processes (forked: terms are inherited)."""
import multiprocessing as mp
import os
import signal
import time
import z3

# (mbqi, timeout ms, seed)
ROUNDS = ((False, 8000, 0), (True, 8000, 0), (False, 40000, 7), (True, 40000, 3))


def attempt(hyps, goal, mbqi, ms, seed):
    s = z3.Solver()
    s.set('timeout', ms)
    s.set('smt.mbqi', mbqi)
    if seed:
        s.set('smt.random_seed', seed)
    if not mbqi:
        s.set('smt.auto_config', False)
    for f in hyps:
        s.add(f)
    s.add(z3.Not(goal))
    r = s.check()
    model = None
    if r == z3.sat:
        try:
            model = str(s.model())[:4000]
        except z3.Z3Exception:
            pass
    return r, (s.reason_unknown() if r == z3.unknown else ''), model


def decide(item, deadline, rounds=ROUNDS):
    """-> (status, seconds, detail, model)"""
    t = time.time()
    last = ('unknown', '')
    model = None
    full = 0        # rounds the solver had its whole time for
    for mbqi, ms, seed in rounds:
        left = deadline - time.time()
        if left * 1000 < ms:
            if full >= 2:
                return 'unknown', time.time() - t, last[1], model
            if left < 1:
                return 'late', time.time() - t, 'out of time', model
        r, why, m = attempt(item.hyps, item.goal, mbqi, int(min(ms, left * 1000)), seed)
        model = m or model
        if r == z3.unsat:
            return 'proved', time.time() - t, 'mbqi=%s' % mbqi, None
        full += left * 1000 >= ms
        last = (str(r), why)
        if r == z3.sat:
            return 'refuted', time.time() - t, 'counterexample found by the solver', model
    return 'unknown' if full >= min(2, len(rounds)) else 'late', time.time() - t, last[1], model


_items = None
_deadline = 0
_rounds = ROUNDS


def _one(i):
    try:
        return (i,) + decide(_items[i], _deadline, _rounds)
    except Exception as e:
        return (i, 'error', 0.0, '%s: %s' % (type(e).__name__, e), None)


def prove_all(items, deadline, procs=8, rounds=ROUNDS):
    """Statuses of the items, in order."""
    global _items, _deadline, _rounds
    if not items:
        return []
    _items, _deadline, _rounds = items, deadline, rounds
    out = [None] * len(items)
    procs = max(1, min(procs, len(items)))
    ctx = mp.get_context('fork')
    with ctx.Pool(procs) as pool:
        for r in pool.imap_unordered(_one, range(len(items))):
            out[r[0]] = r[1:]
    return out


_units = None
_args = None


def _unit(i):
    from core import Unsupported
    dump, off, props, deadline = _args
    u = _units[i]
    try:
        g = u.generate(dump, off, props)
    except Exception as e:
        import units
        g = units.Gen(u.name)
        g.undecided.append((u.name, '%s: %s' % (type(e).__name__, str(e)[:300])))
    res = []
    for it in g.items:
        try:
            res.append(decide(it, deadline))
        except Exception as e:
            res.append(('error', 0.0, str(e)[:200], None))
    probes = []
    for it in g.probes:
        try:
            probes.append(decide(it, deadline, ((False, 3000, 0),))[0])
        except Exception as e:
            probes.append('error')
    d = {'name': g.name, 'items': [(it.name, it.kind) + tuple(r) for it, r in zip(g.items, res)], 'undecided': g.undecided, 'used': g.used,
         'executed': g.executed, 'models': g.models, 'imprecise': g.imprecise, 'seconds': g.seconds,
         'probes': [(it.name, r) for it, r in zip(g.probes, probes)]}
    return i, d


def run_units(units_, dump, off, props, deadline, procs=8):
    """Light units: generation and proof of each in one process."""
    global _units, _args
    if not units_:
        return []
    _units, _args = units_, (dump, off, props, deadline)
    out = [None] * len(units_)
    ctx = mp.get_context('fork')
    with ctx.Pool(max(1, min(procs, len(units_)))) as pool:
        for i, d in pool.imap_unordered(_unit, range(len(units_))):
            out[i] = d
    return out


def run_heavy(u, dump, off, props, deadline, procs=8):
    """A big unit: generated here, its obligations proved by several processes."""
    g = u.generate(dump, off, props)
    res = prove_all(g.items, deadline, procs)
    pr = prove_all(g.probes, deadline, procs, ((False, 3000, 0),))
    return {'name': g.name, 'items': [(it.name, it.kind) + tuple(r) for it, r in zip(g.items, res)], 'undecided': g.undecided, 'used': g.used,
            'executed': g.executed, 'models': g.models, 'imprecise': g.imprecise, 'seconds': g.seconds,
            'probes': [(it.name, r[0]) for it, r in zip(g.probes, pr)]}
