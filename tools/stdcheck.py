"""stdcheck.py [name ..]: conformance of the executor and of the contracts of std functions
(engine/models.py) with the real std.  Every small program of roots_std/ is run on many concrete
inputs, and executed symbolically once; for each input, the symbolic result must agree with the
real one: 'result == real' must not be refutable (soundness), 'result != real' should be (exactness)."""
import json, multiprocessing as mp, os, random, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/engine')
sys.setrecursionlimit(20000)
import z3
import build, units, spec
from core import *
from exec import St
from spec import W


def agrees(ex, w, x):
    """Formula: the value w is x."""
    w = W(ex, w) if not isinstance(w, W) else w
    if isinstance(w.v, Ite):
        return OR(AND(w.v.c, agrees(ex, w.v.a, x)), AND(NOT(w.v.c), agrees(ex, w.v.b, x)))
    if isinstance(w.v, Sc):
        return w.v.e == x if isinstance(x, (bool, int)) else Fa
    if x is None and not (w.ty is not None and w.ty >= 0 and ex.T[w.ty].get('name', '').endswith('Option')):
        return T
    if isinstance(w.v, Adt) and w.v.ty < 0:
        return AND(*[agrees(ex, f, y) for f, y in zip(w.v.f[0], x)])
    ty = w.ty
    t = ex.T[ty] if ty is not None and ty >= 0 else None
    last = t['name'].split('::')[-1] if t and t['k'] == 'adt' else None
    if isinstance(x, str):
        return EQ(ex.models.strterm(ex, w.v, St()), ex.lit(x))
    if last == 'Option':
        return NOT(w.some) if x is None else AND(w.some, agrees(ex, w.inner, x[0]))
    if last == 'Result':
        k, = x
        return AND(w.is_(k), agrees(ex, w.as_(k), x[k]))
    if t and t['k'] == 'tuple' and last is None:
        if x is None:
            return T
        return AND(*[agrees(ex, w.f(i), y) for i, y in enumerate(x)])
    s = w.seq
    return seq_agrees(ex, w, s, x)


def seq_agrees(ex, w, s, x):
    out = [EQ(ex.models.len_of(ex, w.v), I(len(x)))]
    try:
        ex.models.total(ex, s)
        return AND(*out, *[agrees(ex, ex.index(s, I(j)), y) for j, y in enumerate(x)])
    except Unsupported:
        pass
    # elements chosen by a condition: each chosen one occurs in the result
    for seg in s.segs:
        sg = ex.refresh(seg)
        out.append(spec.forall([z for z, _ in sg.b], IMP(AND(ex.seg_range(sg.b), sg.g), ex.under(sg, lambda: OR(*[agrees(ex, sg.v, y) for y in x])))))
    return AND(*out)


def work(a):
    name, cases = a
    t = time.time()
    try:
        ex = units.plain(D)
        key = D['roots'][name]
        b = ex.F[key]
        st = St()
        args = units.args_of(ex, b, st)
        r = ex.run_body(key, args, st)
        rg = list(ex.retg)
        bad, weak, n = [], [], 0
        forms = []
        for _, v, w, k, x in cases:
            inp = AND(*[agrees(ex, a, y) for a, y in zip(args, (v, w, k))])
            forms.append((inp, agrees(ex, r, x), (v, w, k, x)))
        hy = units.hyps_of(ex) + rg
        for inp, f, c in forms:
            def refuted(g):
                s = z3.Solver()
                s.set('timeout', 1500)
                s.set('smt.mbqi', False)
                s.set('smt.auto_config', False)
                for h in hy:
                    s.add(h)
                s.add(inp)
                s.add(g)
                return s.check() == z3.unsat
            n += 1
            if refuted(f):
                bad.append(c)
            elif not refuted(NOT(f)):
                weak.append(c)
            if time.time() - t > LIMIT:
                break
        pan = [o.name for o in ex.obls]
        return name, 'UNSOUND' if bad else 'weak' if weak else 'exact', n, bad or weak, list(ex.imprecise), time.time() - t
    except units.UNDECIDED as e:
        return name, 'unmodelled', 0, [units.why(e)[:150]], [], time.time() - t


if __name__ == '__main__':
    os.makedirs(build.WORK, exist_ok=True)
    rc, out = build.run(['cargo', '+nightly', 'run', '--offline', '-q'], HERE + '/roots_std', {'CARGO_TARGET_DIR': build.WORK + '/target-std-run'})
    by = {}
    for l in out.split('\n'):
        if l.startswith('["root_'):
            c = json.loads(l)
            by.setdefault(c[0], []).append(c)
    LIMIT = int(os.environ.get('STDCHECK_SECONDS', '40'))
    D = build.dump('roots_std')[0]
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    jobs = []
    for n in sorted(by):
        if sys.argv[1:] and not any(a in n for a in sys.argv[1:]):
            continue
        cs = by[n]
        rnd.shuffle(cs)
        jobs.append((n, cs[:int(os.environ.get('STDCHECK_CASES', '24'))]))
    tot = {}
    with mp.get_context('fork').Pool(int(os.environ.get('STDCHECK_JOBS', '8'))) as pool:
        for name, what, n, c, imp, sec in pool.imap_unordered(work, jobs, 1):
            tot[what] = tot.get(what, 0) + 1
            if what != 'exact':
                print('%-10s %s (%d cases, %.0f s) %s %s' % (what, name, n, sec, str(c[:1])[:200], str(imp[:1])[:100] if imp else ''), flush=True)
    print(tot)
    sys.exit(1 if tot.get('UNSOUND') else 0)
