"""check.py <property>: decides one property of the code in /repo.

exit 0: every obligation generated from the current source was discharged (or, for the parts out of
the verifier's reach, nothing was found by the bounded stand-in, which the evidence says);
exit 1: an obligation failed or a failing input was found; VIOLATION line on stdout."""
import json
import os
import subprocess
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build
import prove
import registry

T0 = time.time()
VERIF = build.VERIF
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
LIMIT = 800 if TIER == 'quick' else 3600
PROOF_DEADLINE = 420 if TIER == 'quick' else 1800


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


class Harness(threading.Thread):
    """Builds the concrete harness against /repo in the background."""

    def __init__(self):
        super().__init__(daemon=True)
        self.exe = None
        self.error = None
        self.start()

    def run(self):
        try:
            self.exe = build.harness()
        except Exception as e:
            self.error = str(e)

    def search(self, prop, seed, budget, out):
        """-> (found, stats dict)"""
        self.join(600)
        if not self.exe:
            return None, {'error': (self.error or '')[-1500:]}
        try:
            p = subprocess.run([self.exe, prop, str(seed), str(budget), out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=budget + 120)
        except subprocess.TimeoutExpired:
            return None, {'error': 'harness timed out'}
        stats = {}
        for l in p.stdout.splitlines():
            if l.startswith('{'):
                try:
                    stats = json.loads(l)
                except ValueError:
                    pass
        if p.returncode == 1 and os.path.exists(out):
            return True, stats
        if p.returncode == 0:
            return False, stats
        return None, {'error': 'exit %d: %s' % (p.returncode, (p.stderr or p.stdout)[-1500:])}


def verify(prop, all_units, dumps, deadline):
    """-> list of unit results, contract unit results"""
    res, done = [], {}
    for roots, dump in dumps.items():
        us = [u for u in all_units if getattr(u, 'roots', 'roots') == roots]
        r, d, _ = verify1(prop, us, dump, deadline)
        res += r
        done.update(d)
    return res, done


def verify1(prop, us, dump, deadline):
    import units
    spec = registry.PROPS[prop]
    props = {prop} | set(spec.get('with', ()))
    off = set()
    history = None
    for attempt in range(4):
        res = []
        light = [u for u in us if not getattr(u, 'heavy', False)]
        for u in us:
            if getattr(u, 'heavy', False):
                res.append(prove.run_heavy(u, dump, off, props, deadline))
        res += prove.run_units(light, dump, off, props, deadline)
        done = {}
        todo = {}
        for r in res:
            for cls, m in r['used'].items():
                for k, n in m.items():
                    todo[k] = (cls, n)
        while todo:
            batch = [(k, c, n) for k, (c, n) in todo.items() if k not in done]
            todo = {}
            if not batch:
                break
            rs = prove.run_units([units.ContractUnit(k, n) for k, c, n in batch], dump, off, props, deadline)
            for (k, c, n), r in zip(batch, rs):
                r['contract'] = c
                done[k] = r
            for r in rs:
                for cls, m in r['used'].items():
                    for k, n in m.items():
                        if k not in done:
                            todo[k] = (cls, n)
        bad = {k for k, r in done.items() if r['undecided'] or any(i[2] != 'proved' for i in r['items'])}
        cur = (res, done, bad)
        if history is not None and any(r['undecided'] for r in res) and not any(r['undecided'] for r in history[0]):
            # without the contracts that do not hold nothing can be said: they are what failed
            return history
        if not bad:
            return cur
        log('contracts not met by their bodies: %s' % ', '.join(done[k]['name'] for k in bad))
        history = cur
        off |= bad
    return history


def main():
    prop = sys.argv[1]
    spec = registry.PROPS[prop]
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    os.makedirs(build.WORK + '/replay', exist_ok=True)
    h = Harness()
    failed, undecided, notes = [], [], []
    res, cons = [], {}
    dumps = {}
    builderr = None
    us = registry.units(prop)
    for roots in dict.fromkeys(getattr(u, 'roots', 'roots') for u in us):
        try:
            dump, secs = build.dump(roots)
            dumps[roots] = dump
            log('%s: %d functions reachable from %d roots dumped from the compiler (%.1f s)' % (roots, len(dump['fns']), len(dump['roots']), secs))
        except build.BuildError as e:
            builderr = str(e)
            undecided.append(('extraction of ' + roots, str(e)[-1500:]))
        except Exception as e:
            undecided.append(('extraction of ' + roots, '%s: %s' % (type(e).__name__, e)))
    out = '%s/replay/%s.txt' % (build.WORK, prop)
    if os.path.exists(out):
        os.remove(out)
    # ------------------------------------------------ concrete search on the real code, first a short one:
    # with a failing input at hand the proof attempt need not be long
    found, stats = h.search(prop, SEED, 5, out)
    if dumps:
        try:
            res, done = verify(prop, us, dumps, min(T0 + PROOF_DEADLINE, time.time() + 45) if found else T0 + PROOF_DEADLINE)
            cons = done
        except Exception as e:
            traceback.print_exc()
            undecided.append(('verification', '%s: %s' % (type(e).__name__, e)))
    total = discharged = 0
    solver = 0.0
    vac = []
    for r in list(res) + list(cons.values()):
        relevant = 'contract' not in r or prop in registry.CONTRACT_PROPS[r['contract']]
        for what, reason in r['undecided']:
            undecided.append((what, reason))
        for name, kind, status, sec, detail, model in r['items']:
            total += 1
            solver += sec
            if status == 'proved':
                discharged += 1
                continue
            if r['imprecise']:
                undecided.append((name, 'not discharged (%s), and the body was executed imprecisely: %s' % (detail, r['imprecise'][0])))
            elif status == 'late':
                undecided.append((name, 'the time for this check ran out before the solver had its rounds'))
            elif status == 'error':
                undecided.append((name, detail))
            elif not relevant:
                undecided.append((name, 'a contract this proof relies on is not met (%s); the property is not about it' % detail))
            else:
                failed.append({'obligation': name, 'unit': r['name'], 'kind': kind, 'solver': '%s (%s)' % (status, detail), 'model': model})
        for name, status in r['probes']:
            if status == 'proved':
                vac.append((r['name'], name))
    log('obligations: %d generated, %d discharged, %d failed, %d parts undecided; solver time %.1f s' % (total, discharged, len(failed), len(undecided), solver))
    if dumps and not total and not undecided:
        undecided.append(('vacuity', 'no obligation was generated'))
    for u, n in vac:
        undecided.append((u, 'vacuous: %s is provable from the hypotheses' % n))
    # ------------------------------------------------ concrete search on the real code, longer where the proof left something open
    left = LIMIT - (time.time() - T0)
    base = 5 if TIER == 'quick' else 120
    if failed or undecided:
        base = 90 if TIER == 'quick' else 600
    budget = int(max(5, min(base, left - 60)))
    if not found:
        f2, s2 = h.search(prop, SEED + 1000, budget, out)
        found = f2
        stats = {k: (stats.get(k, 0) + s2.get(k, 0)) if isinstance(s2.get(k, 0), int) and isinstance(stats.get(k, 0), int) else s2.get(k, stats.get(k)) for k in set(stats) | set(s2)}
    if builderr and h.exe is None:
        log('the code does not build:\n' + builderr[-3000:])
        print('ERROR: /repo does not build with the verification crates; harness: %s' % (h.error or '')[-1500:])
        write(prop, spec, total, discharged, solver, res, cons, undecided, failed, stats, 0, found)
        return 2
    log('concrete search: %s' % json.dumps(stats)[:600])
    rc = 0
    if found:
        text = open(out).read()
        if failed:
            text += '\nfailed obligations:\n' + '\n'.join('  %s: %s' % (f['unit'], f['obligation']) for f in failed)
        open(out, 'w').write(text)
        print(text[:3000])
        for x in failed[:20]:
            print('FAILED obligation %s [%s] %s' % (x['obligation'], x['unit'], x['solver']))
        print('VIOLATION property=%s replay=%s' % (prop, out))
        rc = 1
    elif failed:
        with open(out, 'w') as f:
            f.write('property %s: obligations generated from the current source that the verifier no longer discharges\n' % prop)
            for x in failed:
                f.write('\nunit: %s\nobligation (%s): %s\nsolver: %s\n%s\n' % (x['unit'], x['kind'], x['obligation'], x['solver'], x['model'] or ''))
            f.write('\nconcrete search on the real code: %s\n' % json.dumps(stats))
        for x in failed[:20]:
            print('FAILED obligation %s [%s] %s' % (x['obligation'], x['unit'], x['solver']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, out))
        rc = 1
    for w, r in undecided[:20]:
        print('UNDECIDED %s: %s' % (w, r[:400]))
    if rc == 0:
        for line in registry.known_lines(prop, stats):
            print(line)
        if undecided:
            print('%s: %d of %d obligations discharged; for the undecided parts only the bounded search was made' % (prop, discharged, total))
        else:
            print('%s: all %d obligations discharged' % (prop, total))
    write(prop, spec, total, discharged, solver, res, cons, undecided, failed, stats, 1 if rc else 0, found)
    return rc


def write(prop, spec, total, discharged, solver, res, cons, undecided, failed, stats, nviol, found):
    models = sorted({m for r in list(res) + list(cons.values()) for m in r['models']})
    fns = sorted({x for r in list(res) + list(cons.values()) for x in r['executed']})
    own = [x for x in fns if 'wot_td' in x]
    cov = {
        'obligations': total,
        'discharged': discharged,
        'checker_cmd': 'bash /verif/check.sh %s' % prop,
        'trusted_base': ['z3 %s' % z3v(), 'rustc front end up to MIR (nightly, rustc_public)', 'the symbolic executor in /verif/engine (MIR semantics, loop summaries)']
        + ['assumed contract: %s' % m for m in models],
        'backend': 'z3 %s through its Python API' % z3v(),
        'solver_seconds': round(solver, 1),
        'units': [{'unit': r['name'], 'obligations': len(r['items']), 'discharged': sum(1 for i in r['items'] if i[2] == 'proved')} for r in list(res) + list(cons.values())],
        'functions_under_contract': sorted(r['name'] for r in cons.values()),
        'functions_of_the_crate_verified_from_their_own_MIR': own,
        'other_functions_executed_from_their_own_MIR': len(fns) - len(own),
        'samples': [i[0] for r in list(res) + list(cons.values()) for i in r['items']][:25],
        'undecided': [{'what': w, 'why': y[:400]} for w, y in undecided],
        'failed': [f['obligation'] for f in failed],
        'bounded_validation': dict(stats, note='random concrete inputs run against the real code with the oracle of this property; bounded, not counted as proved', found=found),
    }
    ev = {'property': prop, 'tier': 'thorough' if TIER == 'thorough' else 'quick', 'seed': SEED, 'level': spec.get('level', 'proof'), 'coverage': cov,
          'assumptions': registry.ASSUMPTIONS + spec.get('assumptions', []), 'wall_s': round(time.time() - T0, 1), 'violations': nviol}
    with open('%s/evidence/%s.json' % (VERIF, prop), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
