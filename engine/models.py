"""Contracts assumed on the standard library (trusted): containers, strings, iterators, memory.

Each model is the contract of one std function, keyed by its path; anything not listed here is
executed from its own MIR."""
import z3
from core import *
import core
from exec import Outcome, St, Call, forall, occurs, lexlt, strip_generics

DEF = {}


def model(*names):
    def w(f):
        for n in names:
            DEF[n] = f
        return f
    return w


def lookup(ex, ref, args):
    d = ref.get('def', '')
    f = DEF.get(d)
    if f is not None:
        return f
    inst = ref.get('inst')
    if inst:
        f = DEF.get(inst['defname'])
        if f is not None:
            return f
        n = inst['name']
        f = DEF.get(n)
        if f is not None:
            return f
        if inst.get('kind') == 'intrinsic':
            return DEF.get('intrinsic:' + inst.get('intr', ''))
        for pre, g in PREFIX:
            if n.startswith(pre) or inst['defname'].startswith(pre):
                return g
    for pre, g in PREFIX:
        if d.startswith(pre):
            return g
    return None


# ------------------------------------------------------------------------------ helpers
def usize(e):
    return Sc(e, None)


def boolv(e):
    return Sc(e, None)


def mkopt(ex, ty, cond, v):
    """Option of type ty: Some(v) iff cond."""
    return Adt(ty, IF(cond, I(1), I(0)), {0: (), 1: (v,)})


def unit(ex, ty=-1):
    return Adt(ty, 0, {0: ()})


def tup(ex, *vs):
    return Adt(-1, 0, {0: tuple(vs)})


def is_str_ty(ex, ty):
    t = ex.T[ty]
    while t['k'] in ('ref', 'ptr') or t.get('box'):
        ty = t['ty'] if t['k'] in ('ref', 'ptr') else t['args'][0]
        t = ex.T[ty]
    return ex.T.isstr(ty)


def strterm(ex, v, st):
    """V term of a string-ish value or None."""
    v = ex.full_deref(v, st)
    if isinstance(v, Sym) and ex.T.isstr(v.ty):
        return v.t
    if isinstance(v, Ite):
        a, b = strterm(ex, v.a, st), strterm(ex, v.b, st)
        if a is not None and b is not None:
            return IF(v.c, a, b)
    return None


def term_of(ex, v, st=None):
    """An opaque V term for a value (used as map keys and arguments of uninterpreted functions)."""
    if isinstance(v, (RefV, BoxV)):
        return term_of(ex, v.v, st)
    if isinstance(v, RefM):
        return term_of(ex, ex.deref(v, st), st)
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, Ite):
        return IF(v.c, term_of(ex, v.a, st), term_of(ex, v.b, st))
    if isinstance(v, Sc):
        s = v.e.sort()
        return ex.pfn('box.%s' % s, [s], V)(v.e)
    if isinstance(v, Adt):
        ks = sorted(v.f)
        if len(ks) == 1:
            xs = [term_of(ex, x, st) for x in v.f[ks[0]]]
            return ex.pfn('pack.%d.%d.%d' % (ex.tkey(v.ty) if v.ty != -1 else -1, ks[0], len(xs)), [V] * len(xs), V)(*xs) if xs else z3.Const('pack.%d.%d' % (ex.tkey(v.ty) if v.ty != -1 else -1, ks[0]), V)
        out = None
        for k in ks:
            t = term_of(ex, Adt(v.ty, k, {k: v.f[k]}), st)
            out = t if out is None else IF(EQ(v.disc, I(k)), t, out)
        return out
    if isinstance(v, MapV):
        return v.t
    raise Unsupported('term of %s' % type(v).__name__)


def wrap_str(ex, t, ty):
    """String term as a value of type ty (String, &str, Box<str>...)."""
    tt = ex.T[ty]
    if tt['k'] in ('ref', 'ptr'):
        return RefV(wrap_str(ex, t, tt['ty']))
    if tt.get('box'):
        return BoxV(wrap_str(ex, t, tt['args'][0]))
    return Sym(t, ty)


def empty_term(ex):
    if 'emptymap' not in ex.projs:
        e = z3.Const('emptymap', V)
        k = z3.Const('k!e', V)
        ex.projs['emptymap'] = e
        ex.axioms.append(z3.ForAll([k], z3.Not(ex.has_fn()(e, k)), patterns=[ex.has_fn()(e, k)]))
        ex.axioms.append(ex.len_fn()(e) == 0)
    return ex.projs['emptymap']


def empty_map(ex):
    return MapV(SeqV(()), empty_term(ex), True)


def maplike(ex, v):
    if isinstance(v, MapV):
        return True
    if isinstance(v, Sym):
        return ex.T.ismap(v.ty)
    if isinstance(v, Ite):
        return maplike(ex, v.a) and maplike(ex, v.b)
    return False


def as_map(ex, v):
    if isinstance(v, MapV):
        return v
    if isinstance(v, Ite):
        return ex.merge(v.c, as_map(ex, v.a), as_map(ex, v.b))
    if isinstance(v, Sym) and ex.T.ismap(v.ty):
        key = (v.t.get_id(), v.ty)
        r = ex.mapcache.get(key)
        if r is None:
            args = ex.T[v.ty]['args']
            if ex.T[v.ty]['name'].startswith('serde_json'):
                n = [i for i in range(len(ex.T.t)) if ex.T[i].get('name') in ('serde_json::Value', 'serde_json::value::Value')]
                k = [i for i in range(len(ex.T.t)) if ex.T[i].get('name') == 'std::string::String']
                if not n or not k:
                    raise Unsupported('json map')
                args = [k[0], n[0]]
            kty = args[0]
            ex.map_axioms(kty)
            i = ex.bind('j')
            ke = ex.key_fn(kty)(v.t, i)
            kv = Sc(ke, kty) if ex.T.is_scalar(kty) else ex.mk(ke, kty)
            if ex.T.isset(v.ty):
                vv = unit(ex)
            else:
                vty = args[1]
                ve = ex.val_fn(vty)(v.t, i)
                vv = Sc(ve, vty) if ex.T.is_scalar(vty) else ex.mk(ve, vty)
            r = MapV(SeqV((Seg(((i, ex.len_fn()(v.t)),), T, tup(ex, kv, vv)),)), v.t, True)
            ex.mapcache[key] = r
        return r
    if v is UNDEF:
        return empty_map(ex)
    raise Unsupported('map view of %s' % type(v).__name__)


def pkey(ex, v):
    return ex.proj(v, 0, 0)


def pval(ex, v):
    return ex.proj(v, 0, 1)


def forall_pat(xs, f, pat):
    """Quantified fact with a trigger, where the trigger is a legal one."""
    todo = [pat]
    while todo:
        t = todo.pop()
        if t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return z3.ForAll(xs, f)
        todo += t.children()
    return z3.ForAll(xs, f, patterns=[pat])


def domain_facts(ex, D, D0, segs):
    """has(D,k) iff has(D0,k) or k is the key of an element of segs."""
    has = ex.has_fn()
    k = z3.Const('k!%d' % next(ex.cnt), V)
    alts = []
    if not D0.eq(ex.projs.get('emptymap', D)):
        alts.append(has(D0, k))
        ex.fact(forall_pat([k], IMP(has(D0, k), has(D, k)), has(D0, k)))
    for s in segs:
        kt = term_of(ex, pkey(ex, s.v))
        ws = []
        for x, _ in s.b:
            f = z3.Function('wk!%d' % next(ex.cnt), *([b.sort() for b in ex.binders] + [V, INT]))
            ws.append((x, f(*(ex.binders + [k]))))
        body = AND(ex.seg_range(s.b), s.g, kt == k)
        alts.append(z3.substitute(body, *ws) if ws else body)
        xs = [x for x, _ in s.b]
        f = IMP(AND(ex.seg_range(s.b), s.g), has(D, kt))
        ex.fact(forall(xs, f))
    ex.fact(forall_pat([k], IMP(has(D, k), OR(*alts)), has(D, k)))


def injective_key(ex, segs):
    """Syntactic: one traversal of a map, keys untouched."""
    if len(segs) != 1 or len(segs[0].b) != 1:
        return False
    try:
        kt = term_of(ex, pkey(ex, segs[0].v))
    except Unsupported:
        return False
    return z3.is_app(kt) and kt.decl().name().startswith('keyat.') and kt.arg(1).eq(segs[0].b[0][0])


def build_map(ex, base, segs):
    """base map extended by inserting the elements of segs in order."""
    segs = tuple(segs)
    if not segs:
        return base
    # the same insertions make the same map
    at = tuple(x.get_id() for x in ex.binders)
    for b, ss, m, at0, n, f in ex.built:
        if at == at0 and b.eq(base.t) and len(ss) == len(segs) and n < len(ex.facts) and ex.facts[n] is f and all(renamed(ex, x, y) for x, y in zip(ss, segs)):
            return m
    D = ex.fresh('D', V)
    n = len(ex.facts)
    domain_facts(ex, D, base.t, segs)
    distinct = not base.pairs.segs and injective_key(ex, segs)
    m = MapV(SeqV(base.pairs.segs + segs), D, distinct)
    if n < len(ex.facts):
        ex.built.append((base.t, segs, m, at, n, ex.facts[n]))
    return m


def renamed(ex, x, y):
    """The segments are the same up to the names of their indices."""
    if len(x.b) != len(y.b):
        return False
    sub = []
    for (p, h), (q, k) in zip(x.b, y.b):
        if not h.eq(z3.substitute(k, *sub) if sub else k):
            return False
        sub.append((q, p))
    return x.g.eq(z3.substitute(y.g, *sub) if sub else y.g) and ex.same(x.v, subst(y.v, sub) if sub else y.v)


def map_has(ex, m, kt):
    if isinstance(m, Ite):
        return IF(m.c, map_has(ex, m.a, kt), map_has(ex, m.b, kt))
    if isinstance(m, Sym):
        as_map(ex, m)
        return ex.has_fn()(m.t, kt)
    if isinstance(m, MapV):
        return ex.has_fn()(m.t, kt)
    raise Unsupported('contains on %s' % type(m).__name__)


def map_get(ex, m, kt):
    """(found, value)"""
    if isinstance(m, Ite):
        a, b = map_get(ex, m.a, kt), map_get(ex, m.b, kt)
        return IF(m.c, a[0], b[0]), ex.merge(m.c, a[1], b[1])
    mm = as_map(ex, m)
    found = ex.has_fn()(mm.t, kt)
    if len(mm.pairs.segs) == 1 and injective_key(ex, mm.pairs.segs) and isinstance(m, Sym):
        s = mm.pairs.segs[0]
        i = ex.kidx_fn()(m.t, kt)
        return found, pval(ex, subst(s.v, [(s.b[0][0], i)]))
    val = UNDEF
    for s in mm.pairs.segs:
        if isinstance(s.v, Opq):
            raise Unsupported('lookup in a map under construction')
        s = ex.refresh(s)
        # of several elements with this key the last one counts
        h, sub = ex.first(s.b, AND(s.g, term_of(ex, pkey(ex, s.v)) == kt), last=not mm.distinct)
        v = pval(ex, subst(s.v, sub) if sub else s.v)
        val = v if val is UNDEF else ex.merge(h, v, val)
    return found, val


def write(ex, r, v, st):
    ex.write_ref(r, v, st)


def target(ex, r, st):
    return ex.deref(r, st)


def container_default(ex, ty):
    T_ = ex.T
    t = T_[ty]
    if T_.isstr(ty):
        return Sym(ex.lit(''), ty)
    if T_.isvec(ty):
        return SeqV(())
    if T_.ismap(ty):
        return empty_map(ex)
    if t['k'] == 'adt' and t['name'] == 'std::option::Option':
        return Adt(ty, 0, {0: ()})
    if t['k'] == 'bool':
        return Sc(Fa, ty)
    if t['k'] in ('int', 'uint'):
        return Sc(I(0), ty)
    if t['k'] == 'float':
        return Sc(z3.FPVal(0.0, T_.sort(ty)), ty)
    if t['k'] == 'tuple':
        return Adt(ty, 0, {0: tuple(container_default(ex, x) for x in t['tys'])})
    if t['k'] == 'adt' and t['name'] == 'std::marker::PhantomData':
        return Adt(ty, 0, {0: ()})
    return None


# ------------------------------------------------------------------------------ iteration
def into_seq(ex, v, ty, st):
    """Elements produced by IntoIterator on v."""
    if isinstance(v, IterV):
        return v.seq
    if isinstance(v, RefM):
        x = ex.deref(v, st)
        if isinstance(x, IterV):
            return x.seq
        return mut_seq(ex, v, x, st)
    if isinstance(v, RefV):
        return ref_seq(ex, v.v, st)
    if isinstance(v, BoxV):
        return into_seq(ex, v.v, None, st)
    if maplike(ex, v):
        m = as_map(ex, v)
        if isinstance(v, Sym) and ex.T.isset(v.ty):
            return ex.map_seq(m.pairs, lambda p: pkey(ex, p))
        return dedup(ex, m)
    if ex.seqlike(v):
        return ex.as_seq(v)
    if isinstance(v, Ite):
        return ex.merge_seq(v.c, into_seq(ex, v.a, ty, st), into_seq(ex, v.b, ty, st))
    t = ex.adt_ty(v)
    if t is not None:
        n = ex.T.name(t)
        if n == 'std::option::Option':
            return SeqV((Seg((), EQ(ex.disc(v), I(1)), ex.proj(v, 1, 0)),))
        if n == 'std::result::Result':
            return SeqV((Seg((), EQ(ex.disc(v), I(0)), ex.proj(v, 0, 0)),))
        if n in ('std::ops::Range', 'std::ops::RangeInclusive'):
            lo, hi = ex.proj(v, 0, 0).e, ex.proj(v, 0, 1).e
            ety = ex.proj(v, 0, 0).ty
            i = ex.bind('r')
            n_ = hi - lo if n == 'std::ops::Range' else hi - lo + 1
            return SeqV((Seg(((i, z3.simplify(n_)),), T, Sc(z3.simplify(lo + i), ety)),))
    raise Unsupported('iteration over %s' % (type(v).__name__ + ' ' + (ex.tname(t) if t is not None else '')))


def dedup(ex, m):
    if not m.distinct:
        # later insertions win; the surviving pairs are those with no later equal key
        if not m.pairs.segs or len(m.pairs.segs) == 1 and not m.pairs.segs[0].b:
            return m.pairs
        kv = pkey(ex, m.pairs.segs[0].v)
        k0 = ex.full_deref(kv, St())
        kty = ex.adt_ty(k0)
        if kty is not None and kty >= 0 and ex.T.sort(kty) == V:
            # an arbitrary order, each key once, with the value of its last insertion
            at = (m.t.get_id(), tuple(x.get_id() for x in ex.binders), kty)
            if at in ex.mapcache:
                return ex.mapcache[at][0]
            ex.map_axioms(kty)
            i = ex.bind('j')
            ke = ex.key_fn(kty)(m.t, i)
            b = ((i, ex.len_fn()(m.t)),)
            val = ex.under(Seg(b, T, UNDEF), lambda: map_get(ex, m, ke)[1])
            key = ex.mk(ke, kty)
            while isinstance(kv, RefV):
                kv, key = kv.v, RefV(key)
            r = SeqV((Seg(b, T, tup(ex, key, val)),))
            ex.mapcache[at] = r, m.t, list(ex.binders)
            return r
        ex.note('traversal of a map with possibly repeated keys')
    return m.pairs


def ref_seq(ex, x, st):
    if isinstance(x, (RefV, BoxV)):
        return ref_seq(ex, x.v, st)
    if isinstance(x, RefM):
        return ref_seq(ex, ex.deref(x, st), st)
    if isinstance(x, Ite) and not ex.seqlike(x) and not maplike(ex, x):
        return ex.merge_seq(x.c, ref_seq(ex, x.a, st), ref_seq(ex, x.b, st))
    if maplike(ex, x):
        m = as_map(ex, x)
        if isinstance(x, Sym) and ex.T.isset(x.ty):
            return SeqV(tuple(Seg(s.b, s.g, RefV(pkey(ex, s.v))) for s in m.pairs.segs))
        return SeqV(tuple(Seg(s.b, s.g, tup(ex, RefV(pkey(ex, s.v)), RefV(pval(ex, s.v)))) for s in dedup(ex, m).segs))
    if ex.seqlike(x):
        return SeqV(tuple(Seg(s.b, s.g, RefV(s.v)) for s in ex.as_seq(x).segs))
    t = ex.adt_ty(x)
    if t is not None and ex.T.name(t) == 'std::option::Option':
        return SeqV((Seg((), EQ(ex.disc(x), I(1)), RefV(ex.proj(x, 1, 0))),))
    if isinstance(x, IterV):
        return x.seq
    raise Unsupported('iteration over &%s' % (type(x).__name__))


def mut_seq(ex, ref, x, st):
    if ex.seqlike(x):
        return SeqV(tuple(Seg(s.b, s.g, Opq('mutelem', ref=ref, val=s.v)) for s in ex.as_seq(x).segs))
    t = ex.adt_ty(x)
    if t is not None and ex.T.name(t) == 'std::option::Option':
        r2 = RefM(tuple((g, c, tuple(p) + (('f', 1, 0),)) for g, c, p in ref.alts))
        return SeqV((Seg((), EQ(ex.disc(x), I(1)), r2),))
    raise Unsupported('mutable iteration over %s' % type(x).__name__)


def is_mut(seq):
    return any(isinstance(s.v, Opq) and s.v.kind == 'mutelem' for s in seq.segs)


def iterv(seq):
    return IterV(seq, I(0), ())


def get_seq(ex, v, st, consume=True):
    """Sequence of an iterator value or &mut iterator; a borrowed iterator is left exhausted."""
    if isinstance(v, RefM):
        x = ex.deref(v, st)
        if isinstance(x, RefM):
            return get_seq(ex, x, st)
        s = get_seq(ex, x, st)
        if consume:
            ex.write_ref(v, Opq('havoc', id=0), st)
        return s
    if isinstance(v, IterV):
        return v.seq
    if isinstance(v, Ite):
        return ex.merge_seq(v.c, get_seq(ex, v.a, st), get_seq(ex, v.b, st))
    return into_seq(ex, v, None, st)


def nomut(seq):
    if is_mut(seq):
        raise Unsupported('adapter over a mutable traversal')
    return seq


def run_foreach(ex, seq, st, body):
    import loops
    if not is_mut(seq):
        return loops.foreach(ex, seq, st, body)
    if len(set(id(s.v.d['ref']) for s in seq.segs)) != 1:
        raise Unsupported('mutable traversal of several containers')
    ref = seq.segs[0].v.d['ref']
    acc = ('t', next(ex.cnt))
    cell = ('t', next(ex.cnt))
    st = st.copy()
    st.m[acc] = SeqV(())
    changed = []

    def body2(elem, s):
        s.m[cell] = elem.d['val']
        outs = body(RefM(((T, cell, ()),)), s)
        for o in outs:
            if o.kind == 'cont':
                nv = o.st.m.pop(cell)
                if not ex.same(nv, elem.d['val']):
                    changed.append(1)
                a = o.st.m[acc]
                o.st.m[acc] = SeqV(a.segs + (Seg((), T, nv),))
            else:
                o.st.m.pop(acc, None)
        return outs

    outs = loops.foreach(ex, seq, st, body2)
    for o in outs:
        a = o.st.m.pop(acc, None)
        o.st.m.pop(cell, None)
        if o.kind == 'done':
            if changed:
                ex.write_ref(ref, a, o.st)
        else:
            ex.write_ref(ref, Opq('havoc', id=0), o.st)
    return outs


@model('std::iter::IntoIterator::into_iter')
def m_into_iter(ex, c, st):
    v = c.args[0]
    if isinstance(v, IterV):
        return v
    if isinstance(v, RefM):
        x = ex.deref(v, st)
        if isinstance(x, (IterV, Opq)):
            return v
    ty = c.targs[0] if c.targs else None
    if isinstance(v, Opq):
        return v
    return iterv(into_seq(ex, v, ty, st))


@model('core::slice::<impl [T]>::iter', 'std::option::Option::<T>::iter')
def m_iter(ex, c, st):
    v = c.args[0]
    return iterv(ref_seq(ex, v, st))


@model('core::slice::<impl [T]>::iter_mut', 'std::option::Option::<T>::iter_mut')
def m_iter_mut(ex, c, st):
    r = c.args[0]
    return iterv(mut_seq(ex, r, ex.deref(r, st), st))


@model('std::option::Option::<T>::into_iter')
def m_opt_into_iter(ex, c, st):
    return iterv(into_seq(ex, c.args[0], None, st))


@model('std::collections::HashMap::<K, V, S, A>::iter', 'std::collections::BTreeMap::<K, V, A>::iter')
def m_map_iter(ex, c, st):
    return iterv(ref_seq(ex, c.args[0], st))


@model('std::collections::HashMap::<K, V, S, A>::values', 'std::collections::BTreeMap::<K, V, A>::values')
def m_values(ex, c, st):
    return iterv(SeqV(tuple(Seg(s.b, s.g, pval(ex, s.v)) for s in ref_seq(ex, c.args[0], st).segs)))


@model('std::collections::HashMap::<K, V, S, A>::keys', 'std::collections::BTreeMap::<K, V, A>::keys')
def m_keys(ex, c, st):
    return iterv(SeqV(tuple(Seg(s.b, s.g, pkey(ex, s.v)) for s in ref_seq(ex, c.args[0], st).segs)))


@model('std::collections::HashMap::<K, V, S, A>::into_values')
def m_into_values(ex, c, st):
    return iterv(SeqV(tuple(Seg(s.b, s.g, pval(ex, s.v)) for s in into_seq(ex, c.args[0], None, st).segs)))


@model('std::collections::HashMap::<K, V, S, A>::into_keys')
def m_into_keys(ex, c, st):
    return iterv(SeqV(tuple(Seg(s.b, s.g, pkey(ex, s.v)) for s in into_seq(ex, c.args[0], None, st).segs)))


@model('std::iter::once')
def m_once(ex, c, st):
    return iterv(SeqV((Seg((), T, c.args[0]),)))


@model('std::iter::empty')
def m_empty(ex, c, st):
    return iterv(SeqV(()))


def lazy(ex, seq, f, st):
    """Adapters are evaluated when created; closures must be free of effects."""
    return ex.map_seq(nomut(seq), f)


@model('std::iter::Iterator::map')
def m_map(ex, c, st):
    return iterv(lazy(ex, get_seq(ex, c.args[0], st), lambda v: ex.call_pure(c.args[1], [v], st), st))


@model('std::iter::Iterator::filter')
def m_filter(ex, c, st):
    out = []
    for seg in nomut(get_seq(ex, c.args[0], st)).segs:
        seg = ex.refresh(seg)
        r = ex.under(seg, lambda: ex.call_pure(c.args[1], [RefV(seg.v)], st))
        out.append(Seg(seg.b, AND(seg.g, r.e), seg.v))
    return iterv(SeqV(tuple(out)))


def opt_parts(ex, v):
    """(is present, payload) of an Option."""
    return EQ(ex.disc(v), I(1)), ex.proj(v, 1, 0)


@model('std::iter::Iterator::filter_map')
def m_filter_map(ex, c, st):
    out = []
    for seg in nomut(get_seq(ex, c.args[0], st)).segs:
        seg = ex.refresh(seg)
        r = ex.under(seg, lambda: ex.call_pure(c.args[1], [seg.v], st))
        p, v = opt_parts(ex, r)
        out.append(Seg(seg.b, AND(seg.g, p), v))
    return iterv(SeqV(tuple(out)))


def flat(ex, seq, f, st):
    out = []
    for seg in nomut(seq).segs:
        seg = ex.refresh(seg)
        inner = ex.under(seg, lambda: get_seq(ex, f(seg.v), st, consume=False))
        for s in inner.segs:
            s = ex.refresh(s)
            out.append(Seg(seg.b + s.b, AND(seg.g, s.g), s.v))
    return SeqV(tuple(out))


@model('std::iter::Iterator::flat_map')
def m_flat_map(ex, c, st):
    return iterv(flat(ex, get_seq(ex, c.args[0], st), lambda v: ex.call_pure(c.args[1], [v], st), st))


@model('std::iter::Iterator::flatten')
def m_flatten(ex, c, st):
    return iterv(flat(ex, get_seq(ex, c.args[0], st), lambda v: v, st))


@model('std::iter::Iterator::copied', 'std::iter::Iterator::cloned')
def m_copied(ex, c, st):
    return iterv(lazy(ex, get_seq(ex, c.args[0], st), lambda v: ex.deref(v, st), st))


@model('std::iter::Iterator::by_ref', 'std::iter::Iterator::fuse', 'std::iter::Iterator::peekable')
def m_by_ref(ex, c, st):
    if c.d.endswith('peekable'):
        raise Unsupported('peekable')
    return c.args[0]


@model('std::iter::Iterator::chain')
def m_chain(ex, c, st):
    a = get_seq(ex, c.args[0], st)
    b = get_seq(ex, c.args[1], st)
    return iterv(SeqV(nomut(a).segs + nomut(b).segs))


@model('std::iter::Iterator::enumerate')
def m_enumerate(ex, c, st):
    s = nomut(get_seq(ex, c.args[0], st))
    if len(s.segs) == 1 and len(s.segs[0].b) == 1 and is_true(s.segs[0].g):
        seg = s.segs[0]
        return iterv(SeqV((Seg(seg.b, seg.g, tup(ex, usize(seg.b[0][0]), seg.v)),)))
    if all(not x.b and is_true(x.g) for x in s.segs):
        return iterv(SeqV(tuple(Seg((), T, tup(ex, usize(I(i)), x.v)) for i, x in enumerate(s.segs))))
    raise Unsupported('enumerate of a filtered sequence')


@model('std::iter::Iterator::zip')
def m_zip(ex, c, st):
    a = nomut(get_seq(ex, c.args[0], st))
    b = nomut(get_seq(ex, c.args[1], st))
    if len(a.segs) == 1 and len(b.segs) == 1 and all(len(x.b) == 1 and is_true(x.g) for x in (a.segs[0], b.segs[0])):
        x = ex.refresh(a.segs[0])
        y = b.segs[0]
        i = x.b[0][0]
        n = IF(x.b[0][1] <= y.b[0][1], x.b[0][1], y.b[0][1])
        return iterv(SeqV((Seg(((i, n),), T, tup(ex, x.v, subst(y.v, [(y.b[0][0], i)]))),)))
    raise Unsupported('zip')


@model('std::iter::Iterator::inspect')
def m_inspect(ex, c, st):
    return c.args[0]


@model('std::iter::Iterator::rev')
def m_rev(ex, c, st):
    s = nomut(get_seq(ex, c.args[0], st))
    out = []
    for seg in reversed(s.segs):
        if not seg.b:
            out.append(seg)
        elif len(seg.b) == 1:
            x, hi = seg.b[0]
            y = ex.bind('i')
            sub = [(x, hi - 1 - y)]
            out.append(Seg(((y, hi),), z3.substitute(seg.g, *sub), subst(seg.v, sub)))
        else:
            raise Unsupported('rev')
    return iterv(SeqV(tuple(out)))


def seq_next(ex, s):
    """(present, value, rest)"""
    for n, seg in enumerate(s.segs):
        rest = SeqV(s.segs[n + 1:])
        if is_false(seg.g):
            continue
        if isinstance(seg.v, Opq) and seg.v.kind in ('acc', 'mutelem'):
            raise Unsupported('next on an accumulator')
        if not seg.b:
            if is_true(seg.g):
                return T, seg.v, rest
            p, v, r = seq_next(ex, rest)
            return OR(seg.g, p), ex.merge(seg.g, seg.v, v), ex.merge_seq(seg.g, rest, r)
        if len(seg.b) == 1 and is_true(seg.g):
            x, hi = seg.b[0]
            v0 = subst(seg.v, [(x, I(0))])
            y = ex.bind('i')
            ne = hi > 0
            sh = Seg(((y, IF(ne, hi - 1, I(0))),), T, subst(seg.v, [(x, y + 1)]))
            if not rest.segs:
                return ne, v0, SeqV((sh,))
            p, v, r = seq_next(ex, rest)
            return OR(ne, p), ex.merge(ne, v0, v), ex.merge_seq(ne, SeqV((sh,) + rest.segs), r)
        seg = ex.refresh(seg)
        h, sub = ex.first(seg.b, seg.g)
        v0 = subst(seg.v, sub)
        xs = [x for x, _ in seg.b]
        later = Seg(seg.b, AND(seg.g, lexlt([w for _, w in sub], xs)), seg.v)
        p, v, r = seq_next(ex, rest)
        return OR(h, p), ex.merge(h, v0, v), ex.merge_seq(h, SeqV((later,) + rest.segs), r)
    return Fa, UNDEF, SeqV(())


@model('std::iter::Iterator::next')
def m_next(ex, c, st):
    r = c.args[0]
    it = ex.deref(r, st)
    while isinstance(it, RefM):
        r = it
        it = ex.deref(r, st)
    if isinstance(it, Opq):
        if it.kind == 'cursor':
            ex.write_ref(r, Opq('cursor_used'), st)
            return mkopt(ex, c.destty, T, it.d['elem'])
        if it.kind == 'cursor_end':
            return mkopt(ex, c.destty, Fa, UNDEF)
        raise Unsupported('iterator advanced twice in a loop body (%s)' % it.kind)
    if isinstance(it, IterV):
        p, v, rest = seq_next(ex, it.seq)
        ex.write_ref(r, iterv(rest), st)
        return mkopt(ex, c.destty, p, v)
    t = ex.adt_ty(it)
    if t is not None and ex.T.name(t) == 'std::ops::Range':
        seq = into_seq(ex, it, None, st)
        p, v, rest = seq_next(ex, seq)
        ex.write_ref(r, iterv(rest), st)
        return mkopt(ex, c.destty, p, v)
    return NotImplemented


# ------------------------------------------------------------------------------ consumption
def collect_into(ex, ty, seq, st):
    t = ex.T[ty]
    n = t.get('name', '')
    if ex.T.isvec(ty):
        return nomut(seq)
    if t.get('box') and ex.T[t['args'][0]]['k'] == 'slice':
        return BoxV(seq)
    if ex.T.isset(ty):
        return build_map(ex, empty_map(ex), [Seg(s.b, s.g, tup(ex, s.v, unit(ex))) for s in seq.segs])
    if ex.T.ismap(ty):
        return build_map(ex, empty_map(ex), seq.segs)
    if n == 'std::result::Result':
        return try_collect(ex, ty, seq, st, 0, 1, lambda v: ex.proj(v, 1, 0))
    if n == 'std::option::Option':
        return try_collect(ex, ty, seq, st, 1, 0, None)
    if n in ('serde_json::Value', 'serde_json::value::Value'):
        vi = [i for i, x in enumerate(t['variants']) if x['name'] == 'Array'][0]
        return Adt(ty, vi, {vi: (seq,)})
    if t['k'] == 'tuple' and not t['tys']:
        return unit(ex, ty)
    if ex.T.isstr(ty):
        return ex.freshv('collected', ty)
    raise Unsupported('collect into %s' % t['s'])


def try_collect(ex, ty, seq, st, good, bad, err):
    hit = Fa
    ev = UNDEF
    okseq = []
    parts = []
    for seg in nomut(seq).segs:
        if is_false(seg.g):
            continue
        seg = ex.refresh(seg)
        cond = EQ(ex.disc(seg.v), I(bad))
        h, sub = ex.first(seg.b, AND(seg.g, cond))
        e = UNDEF
        if err is not None and not is_false(h):
            e = err(subst(seg.v, sub) if sub else seg.v)
        parts.append((h, e))
        okseq.append(Seg(seg.b, seg.g, ex.proj(seg.v, good, 0)))
    for h, e in reversed(parts):
        ev = ex.merge(h, e, ev) if ev is not UNDEF else e
        hit = OR(h, hit)
    inner = ex.T[ty]['args'][0]
    okv = collect_into(ex, inner, SeqV(tuple(okseq)), st)
    if good == 0:
        return Adt(ty, IF(hit, I(1), I(0)), {0: (okv,), 1: (ev,)})
    return Adt(ty, IF(hit, I(0), I(1)), {0: (), 1: (okv,)})


@model('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def m_collect(ex, c, st):
    return collect_into(ex, c.destty, get_seq(ex, c.args[0], st), st)


def try_kind(ex, ty):
    n = ex.T.name(ty)
    if n == 'std::result::Result':
        return 0, 1
    if n == 'std::option::Option':
        return 1, 0
    if n == 'std::ops::ControlFlow':
        return 0, 1
    raise Unsupported('try type %s' % ex.tname(ty))


def payload0(ex, v, variant):
    a = ex.proj(v, variant, 0)
    return a


def convert_break(ex, v, ty, bad):
    """A failing try value as a value of type ty (same failing payload)."""
    nf = len(ex.T.fields(ty, bad))
    return Adt(ty, bad, {bad: tuple(ex.proj(v, bad, i) for i in range(nf))})


def finish(ex, outs, st, vals):
    """Merge outcomes into the current state; vals(o) gives the result for each."""
    lst = []
    for o in outs:
        s = o.st
        s = s.copy()
        s.m[('ret',)] = vals(o)
        lst.append((tuple(o.g), s))
    g, s = ex.merge_states(lst)
    v = s.m.pop(('ret',))
    st.m = s.m
    return v


def try_each(ex, c, st, f, init=None):
    ty = c.destty
    good, bad = try_kind(ex, ty)
    seq = get_seq(ex, c.args[0], st)
    acc = ('t', next(ex.cnt))
    st0 = st.copy()
    if init is not None:
        st0.m[acc] = init

    def body(elem, s):
        a = [elem]
        if init is not None:
            a = [s.m[acc], elem]
            s.m[acc] = UNDEF
        pre = dict(s.m)
        r = ex.call_value(f, a, s)
        ok = EQ(ex.disc(r), I(good))
        outs = []
        if not is_false(ok):
            s1 = s.copy()
            for k in s1.m:
                if s1.m[k] is not pre.get(k):
                    w = restrict(s1.m[k], ok)
                    p = pre.get(k)
                    s1.m[k] = p if p is not None and ex.same(p, w) else w
            if init is not None:
                s1.m[acc] = ex.proj(r, good, 0)
            outs.append(Outcome('cont', () if is_true(ok) else (ok,), s1))
        if not is_true(ok):
            s2 = s.copy()
            outs.append(Outcome('brk', () if is_false(ok) else (NOT(ok),), s2, convert_break(ex, r, ty, bad)))
        return outs

    outs = run_foreach(ex, seq, st0, body)

    def val(o):
        if o.kind == 'brk':
            return o.val
        v = o.st.m[acc] if init is not None else unit(ex)
        nf = len(ex.T.fields(ty, good))
        return Adt(ty, good, {good: (v,) if nf else ()})

    r = finish(ex, outs, st, val)
    st.m.pop(acc, None)
    return r


@model('std::iter::Iterator::try_for_each')
def m_try_for_each(ex, c, st):
    return try_each(ex, c, st, c.args[1])


@model('std::iter::Iterator::try_fold')
def m_try_fold(ex, c, st):
    return try_each(ex, c, st, c.args[2], c.args[1])


@model('std::iter::Iterator::for_each')
def m_for_each(ex, c, st):
    seq = get_seq(ex, c.args[0], st)

    def body(elem, s):
        ex.call_value(c.args[1], [elem], s)
        return [Outcome('cont', (), s)]
    outs = run_foreach(ex, seq, st, body)
    return finish(ex, outs, st, lambda o: unit(ex, c.destty))


@model('std::iter::Iterator::fold')
def m_fold(ex, c, st):
    seq = get_seq(ex, c.args[0], st)
    acc = ('t', next(ex.cnt))
    st0 = st.copy()
    st0.m[acc] = c.args[1]

    def body(elem, s):
        a = s.m[acc]
        s.m[acc] = UNDEF
        s.m[acc] = ex.call_value(c.args[2], [a, elem], s)
        return [Outcome('cont', (), s)]
    outs = run_foreach(ex, seq, st0, body)
    r = finish(ex, outs, st, lambda o: o.st.m[acc])
    st.m.pop(acc, None)
    return r


def search(ex, c, st, pred, onhit, onmiss):
    """First element satisfying pred(elem, state)."""
    seq = get_seq(ex, c.args[0], st)

    def body(elem, s):
        ok = pred(elem, s)
        outs = []
        if not is_true(ok):
            outs.append(Outcome('cont', () if is_false(ok) else (NOT(ok),), s.copy()))
        if not is_false(ok):
            outs.append(Outcome('hit', () if is_true(ok) else (ok,), s.copy(), onhit(elem, s)))
        return outs
    outs = run_foreach(ex, nomut(seq), st, body)
    return finish(ex, outs, st, lambda o: o.val if o.kind == 'hit' else onmiss())


@model('std::iter::Iterator::find')
def m_find(ex, c, st):
    return search(ex, c, st, lambda e, s: ex.call_value(c.args[1], [RefV(e)], s).e,
                  lambda e, s: mkopt(ex, c.destty, T, e), lambda: mkopt(ex, c.destty, Fa, UNDEF))


@model('std::iter::Iterator::find_map')
def m_find_map(ex, c, st):
    box = {}

    def pred(e, s):
        r = ex.call_value(c.args[1], [e], s)
        box['r'] = r
        return EQ(ex.disc(r), I(1))
    return search(ex, c, st, pred, lambda e, s: mkopt(ex, c.destty, T, ex.proj(box['r'], 1, 0)), lambda: mkopt(ex, c.destty, Fa, UNDEF))


@model('std::iter::Iterator::any')
def m_any(ex, c, st):
    return search(ex, c, st, lambda e, s: ex.call_value(c.args[1], [e], s).e, lambda e, s: boolv(T), lambda: boolv(Fa))


@model('std::iter::Iterator::all')
def m_all(ex, c, st):
    return search(ex, c, st, lambda e, s: NOT(ex.call_value(c.args[1], [e], s).e), lambda e, s: boolv(Fa), lambda: boolv(T))


@model('std::iter::Iterator::position')
def m_position(ex, c, st):
    seq, _ = total(ex, nomut(get_seq(ex, c.args[0], st)))
    off, hits = I(0), []
    for seg in seq.segs:
        seg = ex.refresh(seg)
        if is_false(seg.g):
            continue
        e = ex.under(seg, lambda: ex.call_pure(c.args[1], [seg.v], st)).e
        h, sub = ex.first(seg.b, AND(seg.g, e))
        hits.append((h, off + sub[0][1] if sub else off))
        off = off + ex.seq_len(SeqV((seg,)))
    if all(is_false(h) for h, _ in hits):
        return mkopt(ex, c.destty, Fa, UNDEF)
    at = hits[-1][1]
    for h, k in reversed(hits[:-1]):
        at = IF(h, k, at)
    return mkopt(ex, c.destty, OR(*[h for h, _ in hits]), usize(at))


@model('std::iter::DoubleEndedIterator::rfind')
def m_rfind(ex, c, st):
    n = c.args[0]
    while isinstance(n, RefM):
        n = ex.deref(n, st)
    c.args = [m_rev(ex, C1(n), st)] + list(c.args[1:])
    return m_find(ex, c, st)


class C1:
    def __init__(self, a):
        self.args = [a]


@model('std::iter::Iterator::count', 'std::iter::ExactSizeIterator::len')
def m_count(ex, c, st):
    v = c.args[0]
    if isinstance(v, RefV):
        v = v.v
    return Sc(ex.seq_len(get_seq(ex, v, st, consume=False)), c.destty)


@model('std::iter::Iterator::skip', 'std::iter::Iterator::take')
def m_skip(ex, c, st):
    s = nomut(get_seq(ex, c.args[0], st))
    n = c.args[1].e
    s, ln = total(ex, s)
    y = ex.bind('i')
    if c.d.endswith('take'):
        return iterv(SeqV((Seg(((y, IF(n <= ln, n, ln)),), T, ex.index(s, y)),)))
    return iterv(SeqV((Seg(((y, IF(n <= ln, ln - n, I(0))),), T, ex.index(s, y + n)),)))


def total(ex, s):
    """A sequence with every element present, and its length."""
    if any(isinstance(x.v, Opq) and x.v.kind in ('acc', 'mutelem') for x in s.segs):
        raise Unsupported('positions in an accumulator')
    if not all(len(x.b) < 2 and not (x.b and occurs(x.b[0][0], x.g)) for x in s.segs):
        raise Unsupported('positions in a filtered sequence')
    return s, ex.seq_len(s)


@model('std::iter::Iterator::nth')
def m_nth(ex, c, st):
    n = c.args[1].e
    if not (z3.is_int_value(n) and n.as_long() < 4):
        raise Unsupported('nth')
    r = c.args[0]
    it = ex.deref(r, st)
    while isinstance(it, RefM):
        r = it
        it = ex.deref(r, st)
    if not isinstance(it, IterV):
        raise Unsupported('nth of a lazy iterator')
    s = it.seq
    for _ in range(n.as_long()):
        _, _, s = seq_next(ex, s)
    p, v, rest = seq_next(ex, s)
    ex.write_ref(r, iterv(rest), st)
    return mkopt(ex, c.destty, p, v)


@model('std::iter::Iterator::partition')
def m_partition(ex, c, st):
    yes, no = [], []
    for seg in nomut(get_seq(ex, c.args[0], st)).segs:
        seg = ex.refresh(seg)
        r = ex.under(seg, lambda: ex.call_pure(c.args[1], [RefV(seg.v)], st))
        yes.append(Seg(seg.b, AND(seg.g, r.e), seg.v))
        no.append(Seg(seg.b, AND(seg.g, NOT(r.e)), seg.v))
    if not all(ex.T.isvec(t) for _, t in ex.T.fields(c.destty)):
        raise Unsupported('partition')
    return tup(ex, SeqV(tuple(yes)), SeqV(tuple(no)))


@model('std::iter::Iterator::unzip')
def m_unzip(ex, c, st):
    a, b = [], []
    for seg in nomut(get_seq(ex, c.args[0], st)).segs:
        a.append(Seg(seg.b, seg.g, ex.proj(seg.v, 0, 0)))
        b.append(Seg(seg.b, seg.g, ex.proj(seg.v, 0, 1)))
    if not all(ex.T.isvec(t) for _, t in ex.T.fields(c.destty)):
        raise Unsupported('unzip')
    return tup(ex, SeqV(tuple(a)), SeqV(tuple(b)))


@model('std::iter::Iterator::last')
def m_last(ex, c, st):
    p, v = Fa, UNDEF
    for seg in nomut(get_seq(ex, c.args[0], st)).segs:
        seg = ex.refresh(seg)
        if is_false(seg.g):
            continue
        if isinstance(seg.v, Opq):
            raise Unsupported('last of %s' % seg.v.kind)
        h, sub = ex.first(seg.b, seg.g, last=True)
        x = subst(seg.v, sub) if sub else seg.v
        p, v = OR(h, p), x if v is UNDEF else ex.merge(h, x, v)
    return mkopt(ex, c.destty, p, v)


@model('std::iter::Iterator::take_while', 'std::iter::Iterator::skip_while', 'std::iter::Iterator::map_while')
def m_take_while(ex, c, st):
    how = c.d.rsplit('::', 1)[1]
    s, ln = total(ex, nomut(get_seq(ex, c.args[0], st)))
    i = ex.bind('i')
    seg = Seg(((i, ln),), T, ex.index(s, i))
    if how == 'map_while':
        r = ex.under(seg, lambda: ex.call_pure(c.args[1], [seg.v], st))
        go, v = opt_parts(ex, r)
    else:
        go, v = ex.under(seg, lambda: ex.call_pure(c.args[1], [RefV(seg.v)], st)).e, seg.v
    h, sub = ex.first(seg.b, NOT(go))
    n = IF(h, sub[0][1], ln) if sub else ln
    y = ex.bind('i')
    if how == 'skip_while':
        return iterv(SeqV((Seg(((y, ln - n),), T, ex.index(s, y + n)),)))
    return iterv(SeqV((Seg(((y, n),), T, subst(v, [(i, y)])),)))


@model('std::iter::Iterator::size_hint')
def m_size_hint(ex, c, st):
    return ex.freshv('size_hint', c.destty)


# ------------------------------------------------------------------------------ Vec / slice
@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')
def m_vec_new(ex, c, st):
    return SeqV(())


@model('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len')
def m_len(ex, c, st):
    v = ex.full_deref(c.args[0], st)
    n = len_of(ex, v)
    if not z3.is_int_value(n):
        ex.fact(n <= 2 ** 63 - 1)           # no allocation is larger
    return Sc(n, c.destty)


def len_of(ex, v):
    if isinstance(v, Sym):
        return ex.len_fn()(v.t)
    if isinstance(v, Ite):
        return IF(v.c, len_of(ex, v.a), len_of(ex, v.b))
    return ex.seq_len(ex.as_seq(v))


def empty_of(ex, v):
    if isinstance(v, Sym):
        return ex.len_fn()(v.t) == 0
    if isinstance(v, Ite):
        return IF(v.c, empty_of(ex, v.a), empty_of(ex, v.b))
    s = ex.as_seq(v)
    if any(isinstance(x.v, Opq) and x.v.kind == 'acc' for x in s.segs):
        raise Unsupported('emptiness of an accumulator')
    return ex.seq_len_is_empty(s)


@model('std::hint::unreachable_unchecked::precondition_check')
def m_unreachable(ex, c, st):
    """The safety condition of the code that calls it is proved, not assumed."""
    ex.oblige('code marked unreachable is not reached', Fa, 'unreachable')
    return unit(ex, c.destty)


@model('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def m_is_empty(ex, c, st):
    return Sc(empty_of(ex, ex.full_deref(c.args[0], st)), c.destty)


@model('std::vec::Vec::<T, A>::push')
def m_push(ex, c, st):
    r = c.args[0]
    s = ex.as_seq(ex.deref(r, st))
    ex.write_ref(r, SeqV(s.segs + (Seg((), T, c.args[1]),)), st)
    return unit(ex, c.destty)


@model('std::vec::Vec::<T, A>::pop')
def m_pop(ex, c, st):
    r = c.args[0]
    v = ex.deref(r, st)
    vty = ex.T[c.argtys[0]]['ty'] if c.argtys else ex.adt_ty(v)
    s = ex.as_seq(v)
    if not s.segs:
        return mkopt(ex, c.destty, Fa, UNDEF)
    last = s.segs[-1]
    if not last.b and is_true(last.g) and not isinstance(last.v, Opq):
        ex.write_ref(r, SeqV(s.segs[:-1]), st)
        return mkopt(ex, c.destty, T, last.v)
    # the popped element and the rest, characterised by membership
    ne = NOT(empty_of(ex, v))
    ety = ex.elem_ty(vty)
    x = ex.fresh('popped', V)
    rest = ex.fresh('rest', V)
    restv = Sym(rest, vty)
    ln = ex.len_fn()
    el = ex.elem_fn(ety)
    mem_x = []
    i = ex.bind('i')
    mem_i = []
    for seg in s.segs:
        if isinstance(seg.v, Opq):
            raise Unsupported('pop from an accumulator')
        seg = ex.refresh(seg)
        vt = term_of(ex, seg.v, st)
        body = AND(ex.seg_range(seg.b), seg.g)
        w = [(y, ex.fresh('w', INT)) for y, _ in seg.b]
        mem_x.append(z3.substitute(AND(body, vt == x), *w) if w else AND(body, vt == x))
        fi = z3.Function('rix!%d' % next(ex.cnt), *([b.sort() for b in ex.binders] + [INT] * len(seg.b) + [INT]))
        idx = fi(*(list(ex.binders) + [y for y, _ in seg.b]))
        ex.fact(forall([y for y, _ in seg.b], IMP(body, OR(vt == x, AND(0 <= idx, idx < ln(rest), el(rest, idx) == vt)))))
        ws = []
        for y, _ in seg.b:
            f = z3.Function('rw!%d' % next(ex.cnt), *([b.sort() for b in ex.binders] + [INT, INT]))
            ws.append((y, f(*(list(ex.binders) + [i]))))
        b2 = AND(body, vt == el(rest, i))
        mem_i.append(z3.substitute(b2, *ws) if ws else b2)
    ex.fact(IMP(ne, OR(*mem_x)))
    ex.fact(forall_pat([i], IMP(AND(0 <= i, i < ln(rest)), OR(*mem_i)), el(rest, i)))
    ex.fact(IMP(NOT(ne), ln(rest) == 0))
    ex.write_ref(r, restv, st)
    ev = ex.mkany(x, ety)
    return mkopt(ex, c.destty, ne, ev)


@model('std::vec::Vec::<T, A>::insert')
def m_vec_insert(ex, c, st):
    r = c.args[0]
    s = ex.as_seq(ex.deref(r, st))
    i = c.args[1].e
    if z3.is_int_value(i) and i.as_long() == 0:
        ex.write_ref(r, SeqV((Seg((), T, c.args[2]),) + s.segs), st)
        return unit(ex, c.destty)
    ln = len_of(ex, s)
    ex.oblige('no panic (insertion out of bounds) in %s line %s' % (c.site and c.site['fn'], c.site and c.site['line']), AND(0 <= i, i <= ln), loc=None)
    if z3.is_int_value(z3.simplify(ln - i)) and z3.simplify(ln - i).as_long() == 0:
        ex.write_ref(r, SeqV(tuple(s.segs) + (Seg((), T, c.args[2]),)), st)
        return unit(ex, c.destty)
    s, ln = total(ex, nomut(s))
    x = c.args[2]
    ex.write_ref(r, spread(ex, ln + 1, lambda y: ex.merge(EQ(y, i), x, ex.index(s, IF(y < i, y, y - 1)))), st)
    return unit(ex, c.destty)


@model('std::vec::Vec::<T, A>::append')
def m_append(ex, c, st):
    a = ex.as_seq(ex.deref(c.args[0], st))
    b = ex.as_seq(ex.deref(c.args[1], st))
    ex.write_ref(c.args[0], SeqV(a.segs + b.segs), st)
    ex.write_ref(c.args[1], SeqV(()), st)
    return unit(ex, c.destty)


@model('std::vec::Vec::<T, A>::drain')
def m_drain(ex, c, st):
    s = ex.as_seq(ex.deref(c.args[0], st))
    if not isinstance(c.args[1], Adt) or c.args[1].ty < 0 or ex.T[c.args[1].ty].get('name') != 'std::ops::RangeFull':
        s, ln = total(ex, nomut(s))
        r = range_of(ex, c.args[1], ln)
        if r is None:
            raise Unsupported('drain of a part')
        ex.oblige('no panic (range out of bounds) in %s line %s' % (c.site and c.site['fn'], c.site and c.site['line']), r[2], loc=None)
        ex.write_ref(c.args[0], SeqV(part(ex, s, I(0), r[0]).segs + part(ex, s, r[1], ln).segs), st)
        return iterv(part(ex, s, r[0], r[1]))
    ex.write_ref(c.args[0], SeqV(()), st)
    return iterv(s)


@model('std::vec::Vec::<T, A>::splice', 'std::vec::Vec::<T, A>::extract_if', 'std::string::String::drain')
def m_splice(ex, c, st):
    raise Unsupported('%s: takes effect when dropped' % c.d)


@model('std::vec::Vec::<T, A>::clear')
def m_clear(ex, c, st):
    ex.write_ref(c.args[0], SeqV(()), st)
    return unit(ex, c.destty)


@model('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::shrink_to_fit')
def m_nop(ex, c, st):
    return unit(ex, c.destty)


@model('std::iter::Extend::extend')
def m_extend(ex, c, st):
    r = c.args[0]
    v = ex.deref(r, st)
    add = get_seq(ex, c.args[1], st)
    if maplike(ex, v):
        m = as_map(ex, v)
        ex.write_ref(r, build_map(ex, m, add.segs), st)
    else:
        s = ex.as_seq(v)
        # extending by references copies the referents
        ety = None
        ex.write_ref(r, SeqV(s.segs + tuple(ex.refresh(x) for x in nomut(add).segs)), st)
    return unit(ex, c.destty)


@model('std::vec::Vec::<T, A>::extend_from_slice')
def m_extend_from_slice(ex, c, st):
    r = c.args[0]
    s = ex.as_seq(ex.deref(r, st))
    b = ex.as_seq(ex.full_deref(c.args[1], st))
    ex.write_ref(r, SeqV(s.segs + tuple(ex.refresh(x) for x in b.segs)), st)
    return unit(ex, c.destty)


@model('std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', 'std::vec::Vec::<T, A>::into_boxed_slice')
def m_as_slice(ex, c, st):
    if c.d.endswith('into_boxed_slice'):
        return BoxV(c.args[0])
    return c.args[0]


def element(ex, r, i, st):
    """A mutable reference to the element at a position."""
    while isinstance(r, RefM) and isinstance(ex.deref(r, st), RefM):
        r = ex.deref(r, st)
    if not isinstance(r, RefM):
        raise Unsupported('a mutable element of %s' % type(r).__name__)
    return RefM(tuple((g, cc, tuple(p) + (('ix', i),)) for g, cc, p in r.alts))


@model('core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut', 'core::slice::<impl [T]>::get_mut', 'std::ops::IndexMut::index_mut')
def m_element_mut(ex, c, st):
    v = ex.full_deref(c.args[0], st)
    if not ex.seqlike(v):
        raise Unsupported('a mutable element of %s' % type(v).__name__)
    s, ln = total(ex, nomut(ex.as_seq(v)))
    n = c.d.rsplit('::', 1)[-1]
    if n in ('get_mut', 'index_mut') and not isinstance(c.args[1], Sc):
        raise Unsupported('a mutable part of a slice')
    i = I(0) if n == 'first_mut' else z3.simplify(ln - 1) if n == 'last_mut' else c.args[1].e
    r = element(ex, c.args[0], i, st)
    inside = AND(0 <= i, i < ln)
    if n == 'index_mut':
        ex.oblige('no panic (index out of bounds) in %s line %s' % (c.site and c.site['fn'], c.site and c.site['line']), inside, loc=None)
        return r
    return mkopt(ex, c.destty, inside, r)


@model(*['%s::<impl [T]>::%s' % (p, n) for p in ('core::slice', 'std::slice', 'alloc::slice') for n in ('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key', 'rotate_left', 'rotate_right')])
def m_sort(ex, c, st):
    """The same elements in some order."""
    s, ln = total(ex, nomut(ex.as_seq(ex.full_deref(c.args[0], st))))
    n = next(ex.cnt)
    bs = list(ex.binders)
    f, g = [z3.Function('%s!%d' % (x, n), *([b.sort() for b in bs] + [INT, INT])) for x in ('order', 'place')]
    y = z3.Int('y!%d' % n)
    e, w = f(*(bs + [y])), g(*(bs + [y]))
    ex.fact(z3.ForAll(bs + [y], z3.Implies(AND(0 <= y, y < ln), z3.And(0 <= e, e < ln, g(*(bs + [e])) == y)), patterns=[e]))
    ex.fact(z3.ForAll(bs + [y], z3.Implies(AND(0 <= y, y < ln), z3.And(0 <= w, w < ln, f(*(bs + [w])) == y)), patterns=[w]))
    ex.fact(forall(bs, IMP(ln <= 1, f(*(bs + [I(0)])) == 0)))
    ex.write_ref(c.args[0], spread(ex, ln, lambda y: ex.index(s, f(*(bs + [y])))), st)
    return unit(ex, c.destty)


@model('core::slice::<impl [T]>::swap')
def m_slice_swap(ex, c, st):
    s, ln = total(ex, nomut(ex.as_seq(ex.full_deref(c.args[0], st))))
    i, j = c.args[1].e, c.args[2].e
    ex.oblige('no panic (index out of bounds) in %s line %s' % (c.site and c.site['fn'], c.site and c.site['line']), AND(0 <= i, i < ln, 0 <= j, j < ln), loc=None)
    a, b = ex.index(s, i), ex.index(s, j)
    ex.write_ref(element(ex, c.args[0], i, st), b, st)
    ex.write_ref(element(ex, c.args[0], j, st), a, st)
    return unit(ex, c.destty)


@model('std::string::String::clear')
def m_string_clear(ex, c, st):
    v = ex.full_deref(c.args[0], st)
    ex.write_ref(c.args[0], Sym(ex.lit(''), ex.adt_ty(v)), st)
    return unit(ex, c.destty)


@model('core::slice::<impl [T]>::first')
def m_first(ex, c, st):
    s = ex.as_seq(ex.full_deref(c.args[0], st))
    p, v, _ = seq_next(ex, s)
    return mkopt(ex, c.destty, p, RefV(v))


@model('std::vec::Vec::<T, A>::retain')
def m_retain(ex, c, st):
    r = c.args[0]
    out = []
    for seg in nomut(SeqV(ex.as_seq(ex.deref(r, st)).segs)).segs:
        seg = ex.refresh(seg)
        k = ex.under(seg, lambda: ex.call_pure(c.args[1], [RefV(seg.v)], st))
        out.append(Seg(seg.b, AND(seg.g, k.e), seg.v))
    ex.write_ref(r, SeqV(tuple(out)), st)
    return unit(ex, c.destty)


def spread(ex, n, f):
    y = ex.bind('i')
    return SeqV((Seg(((y, n),), T, f(y)),))


def vec_remove(ex, r, i, st, swap=False):
    """(the element at i, the others)"""
    v = ex.deref(r, st)
    s = nomut(ex.as_seq(v))
    if z3.is_int_value(i) and i.as_long() == 0 and not swap:
        p, x, rest = seq_next(ex, s)
        ex.write_ref(r, rest, st)
        return x
    s, ln = total(ex, s)
    x = ex.index(s, i)
    if swap:
        rest = spread(ex, ln - 1, lambda y: ex.merge(EQ(y, i), ex.index(s, ln - 1), ex.index(s, y)))
    else:
        rest = spread(ex, ln - 1, lambda y: ex.index(s, IF(y < i, y, y + 1)))
    ex.write_ref(r, rest, st)
    return x


@model('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def m_vec_remove(ex, c, st):
    i = c.args[1].e
    ln = len_of(ex, ex.deref(c.args[0], st))
    ex.oblige('no panic (removal out of bounds) in %s line %s' % (c.site and c.site['fn'], c.site and c.site['line']), AND(0 <= i, i < ln), loc=None)
    return vec_remove(ex, c.args[0], i, st, c.d.endswith('swap_remove'))


@model('std::vec::Vec::<T, A>::truncate')
def m_truncate(ex, c, st):
    s, ln = total(ex, nomut(ex.as_seq(ex.deref(c.args[0], st))))
    n = c.args[1].e
    ex.write_ref(c.args[0], spread(ex, IF(n <= ln, n, ln), lambda y: ex.index(s, y)), st)
    return unit(ex, c.destty)


@model('std::vec::Vec::<T, A>::split_off')
def m_split_off(ex, c, st):
    s, ln = total(ex, nomut(ex.as_seq(ex.deref(c.args[0], st))))
    n = c.args[1].e
    ex.oblige('no panic (split out of bounds) in %s line %s' % (c.site and c.site['fn'], c.site and c.site['line']), AND(0 <= n, n <= ln), loc=None)
    ex.write_ref(c.args[0], spread(ex, n, lambda y: ex.index(s, y)), st)
    return spread(ex, ln - n, lambda y: ex.index(s, y + n))


@model('std::vec::Vec::<T, A>::dedup')
def m_dedup(ex, c, st):
    s, ln = total(ex, nomut(ex.as_seq(ex.deref(c.args[0], st))))
    y = ex.bind('i')
    e = value_eq(ex, ex.index(s, y), ex.index(s, y - 1), st)
    ex.write_ref(c.args[0], SeqV((Seg(((y, ln),), OR(y == 0, NOT(e)), ex.index(s, y)),)), st)
    return unit(ex, c.destty)


@model('core::slice::<impl [T]>::reverse')
def m_reverse(ex, c, st):
    s, ln = total(ex, nomut(ex.as_seq(ex.deref(c.args[0], st))))
    ex.write_ref(c.args[0], spread(ex, ln, lambda y: ex.index(s, ln - 1 - y)), st)
    return unit(ex, c.destty)


@model('core::slice::<impl [T]>::last')
def m_slice_last(ex, c, st):
    s = ex.as_seq(ex.full_deref(c.args[0], st))
    if s.segs and not s.segs[-1].b and is_true(s.segs[-1].g) and not isinstance(s.segs[-1].v, Opq):
        return mkopt(ex, c.destty, T, RefV(s.segs[-1].v))
    s, ln = total(ex, nomut(s))
    return mkopt(ex, c.destty, ln > 0, RefV(ex.index(s, ln - 1)))


def range_of(ex, r, ln):
    """The part of a sequence of that length a range names -> (from, to, the range is in bounds); None if it is no range."""
    if not isinstance(r, Adt) or r.ty < 0:
        return None
    f = [x.e for x in r.f.get(0, ()) if isinstance(x, Sc)]
    n = ex.T[r.ty].get('name')
    if n == 'std::ops::Range' and len(f) == 2:
        lo, hi = f
    elif n == 'std::ops::RangeFrom' and len(f) == 1:
        lo, hi = f[0], ln
    elif n == 'std::ops::RangeTo' and len(f) == 1:
        lo, hi = I(0), f[0]
    elif n == 'std::ops::RangeFull':
        lo, hi = I(0), ln
    else:
        return None
    return lo, hi, AND(0 <= lo, lo <= hi, hi <= ln)


def part(ex, s, lo, hi):
    return spread(ex, hi - lo, lambda y: ex.index(s, y + lo))


@model('core::slice::<impl [T]>::split_at')
def m_split_at(ex, c, st):
    s, ln = total(ex, nomut(ex.as_seq(ex.full_deref(c.args[0], st))))
    n = c.args[1].e
    ex.oblige('no panic (split out of bounds) in %s line %s' % (c.site and c.site['fn'], c.site and c.site['line']), AND(0 <= n, n <= ln), loc=None)
    return Adt(c.destty, 0, {0: (RefV(part(ex, s, I(0), n)), RefV(part(ex, s, n, ln)))})


@model('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def m_split_first(ex, c, st):
    s, ln = total(ex, nomut(ex.as_seq(ex.full_deref(c.args[0], st))))
    if c.d.endswith('first'):
        a, b = ex.index(s, I(0)), part(ex, s, I(1), ln)
    else:
        a, b = ex.index(s, ln - 1), part(ex, s, I(0), ln - 1)
    pty = ex.T[c.destty]['args'][0]
    return mkopt(ex, c.destty, ln > 0, Adt(pty, 0, {0: (RefV(a), RefV(b))}))


@model('core::slice::<impl [T]>::get')
def m_get(ex, c, st):
    v = ex.full_deref(c.args[0], st)
    if not isinstance(c.args[1], Sc):
        s, ln = total(ex, nomut(ex.as_seq(v)))
        r = range_of(ex, c.args[1], ln)
        if r is None:
            raise Unsupported('slice get by this range')
        return mkopt(ex, c.destty, r[2], RefV(part(ex, s, r[0], r[1])))
    i = c.args[1].e
    return mkopt(ex, c.destty, AND(0 <= i, i < len_of(ex, v)), RefV(ex.index(v, i)))


@model('std::ops::Index::index')
def m_index(ex, c, st):
    v = ex.full_deref(c.args[0], st)
    if isinstance(c.args[1], Sc) and ex.seqlike(v):
        i = c.args[1].e
        ex.oblige('no panic (index out of bounds) in %s line %s' % (c.site and c.site['fn'], c.site and c.site['line']), AND(0 <= i, i < len_of(ex, v)), loc=None)
        return RefV(ex.index(v, i))
    if ex.seqlike(v):
        s, ln = total(ex, nomut(ex.as_seq(v)))
        r = range_of(ex, c.args[1], ln)
        if r is not None:
            ex.oblige('no panic (range out of bounds) in %s line %s' % (c.site and c.site['fn'], c.site and c.site['line']), r[2], loc=None)
            return RefV(part(ex, s, r[0], r[1]))
    t = strterm(ex, c.args[0], st)
    r = t is not None and range_of(ex, c.args[1], ex.strlen(t))
    if r:
        ex.oblige('no panic (text cut inside a character or out of bounds) in %s line %s' % (c.site and c.site['fn'], c.site and c.site['line']), AND(r[0] <= r[1], boundary(ex, t, r[0]), boundary(ex, t, r[1])), loc=None)
        return substr(ex, t, r[0], r[1], c.destty)
    if maplike(ex, v):
        kt = term_of(ex, c.args[1], st)
        f, x = map_get(ex, v, kt)
        ex.oblige('no panic (missing key) in %s line %s' % (c.site and c.site['fn'], c.site and c.site['line']), f)
        return RefV(x)
    raise Unsupported('index')


@model('core::slice::<impl [T]>::contains')
def m_slice_contains(ex, c, st):
    s = ex.as_seq(ex.full_deref(c.args[0], st))
    x = ex.deref(c.args[1], st)
    out = []
    for seg in s.segs:
        a = isinstance(seg.v, Opq) and seg.v.kind == 'acc' and ex.accs.get(seg.v.d['id'])
        t = a and strterm(ex, x, st)
        if t is not None and a:
            a[1] = ex.adt_ty(ex.full_deref(x, st))
            out.append(ex.has_fn()(a[0], t))
            continue
        seg = ex.refresh(seg)
        e = ex.under(seg, lambda: value_eq(ex, seg.v, x, st))
        out.append(ex.exists(seg.b, AND(seg.g, e)))
    return Sc(OR(*out), c.destty)


def value_eq(ex, a, b, st):
    """Bool for PartialEq on simple values (scalars, strings, field-less enums)."""
    a, b = ex.full_deref(a, st), ex.full_deref(b, st)
    if isinstance(a, Sc) and isinstance(b, Sc):
        if a.e.sort() in (F64, F32):
            return z3.fpEQ(a.e, b.e)
        return EQ(a.e, b.e)
    ta, tb = strterm(ex, a, st), strterm(ex, b, st)
    if ta is not None and tb is not None:
        return EQ(ta, tb)
    ty = ex.adt_ty(a)
    if ty is not None and ex.T[ty]['k'] == 'adt' and ex.T[ty]['kind'] == 'enum' and all(not v['fields'] for v in ex.T[ty]['variants']):
        return EQ(ex.disc(a), ex.disc(b))
    raise Unsupported('equality of %s' % (ex.tname(ty) if ty is not None else type(a).__name__))


@model('alloc::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::into_vec', 'std::slice::<impl [T]>::into_vec', 'slice::<impl [T]>::into_vec', 'slice::<impl [T]>::to_vec')
def m_to_vec(ex, c, st):
    return ex.full_deref(c.args[0], st)


# ------------------------------------------------------------------------------ maps
@model('std::collections::HashMap::<K, V>::with_capacity', 'std::collections::HashMap::<K, V>::new', 'std::collections::BTreeMap::<K, V>::new', 'std::collections::HashSet::<T>::new', 'std::collections::BTreeSet::<T>::new', 'std::collections::HashSet::<T>::with_capacity')
def m_map_new(ex, c, st):
    return empty_map(ex)


HM = 'std::collections::HashMap::<K, V, S, A>::'
BM = 'std::collections::BTreeMap::<K, V, A>::'
HS = 'std::collections::HashSet::<T, S, A>::'
BS = 'std::collections::BTreeSet::<T, A>::'


@model(HM + 'contains_key', BM + 'contains_key', HS + 'contains', BS + 'contains', 'std::collections::HashSet::<T, S>::contains')
def m_contains_key(ex, c, st):
    m = ex.full_deref(c.args[0], st)
    return Sc(map_has(ex, m, term_of(ex, c.args[1], st)), c.destty)


@model(HM + 'get', BM + 'get')
def m_map_get(ex, c, st):
    m = ex.full_deref(c.args[0], st)
    f, v = map_get(ex, m, term_of(ex, c.args[1], st))
    return mkopt(ex, c.destty, f, RefV(v))


@model(HM + 'is_empty', BM + 'is_empty', HS + 'is_empty', BS + 'is_empty')
def m_map_is_empty(ex, c, st):
    m = ex.full_deref(c.args[0], st)
    return Sc(map_empty(ex, m), c.destty)


def map_empty(ex, m):
    if isinstance(m, Ite):
        return IF(m.c, map_empty(ex, m.a), map_empty(ex, m.b))
    if isinstance(m, Sym):
        return ex.len_fn()(m.t) == 0
    return ex.seq_len_is_empty(m.pairs)


@model(HM + 'len', BM + 'len', HS + 'len', BS + 'len')
def m_map_len(ex, c, st):
    m = ex.full_deref(c.args[0], st)
    if isinstance(m, Sym):
        return Sc(ex.len_fn()(m.t), c.destty)
    mm = as_map(ex, m)
    if not mm.distinct:
        if all(not s.b and is_true(s.g) for s in mm.pairs.segs) and len(mm.pairs.segs) <= 1:
            return Sc(I(len(mm.pairs.segs)), c.destty)
        e = ex.fresh('maplen', INT)
        ex.fact(AND(e >= 0, (e == 0) == ex.seq_len_is_empty(mm.pairs)))
        return Sc(e, c.destty)
    return Sc(ex.seq_len(mm.pairs), c.destty)


@model(HM + 'insert', BM + 'insert')
def m_map_insert(ex, c, st):
    r = c.args[0]
    m = ex.deref(r, st)
    k, v = c.args[1], c.args[2]
    kt = term_of(ex, k, st)
    had = map_has(ex, m, kt)
    mm = as_map(ex, m)
    D = ex.fresh('D', V)
    seg = Seg((), T, tup(ex, k, v))
    domain_facts(ex, D, mm.t, [seg])
    ex.write_ref(r, MapV(SeqV(mm.pairs.segs + (seg,)), D, not mm.pairs.segs or mm.distinct and ex.excluded(had)), st)
    old = ex.freshv('replaced', ex.T[c.destty]['args'][0]) if c.destty is not None else UNDEF
    return mkopt(ex, c.destty, had, old)


@model(HS + 'insert', BS + 'insert', 'std::collections::HashSet::<T, S>::insert')
def m_set_insert(ex, c, st):
    r = c.args[0]
    m = ex.deref(r, st)
    kt = term_of(ex, c.args[1], st)
    had = map_has(ex, m, kt)
    mm = as_map(ex, m)
    D = ex.fresh('D', V)
    seg = Seg((), T, tup(ex, c.args[1], unit(ex)))
    domain_facts(ex, D, mm.t, [seg])
    ex.write_ref(r, MapV(SeqV(mm.pairs.segs + (seg,)), D, False), st)
    return Sc(NOT(had), c.destty)


@model(HM + 'entry', BM + 'entry')
def m_entry(ex, c, st):
    r = c.args[0]
    m = ex.deref(r, st)
    kt = term_of(ex, c.args[1], st)
    had = map_has(ex, m, kt)
    e = Opq('entry', ref=r, key=c.args[1])
    vs = ex.T[c.destty]['variants']
    occ = [i for i, x in enumerate(vs) if x['name'] == 'Occupied'][0]
    vac = 1 - occ
    return Adt(c.destty, IF(had, I(occ), I(vac)), {occ: (e,), vac: (e,)})


@model("std::collections::hash_map::VacantEntry::<'a, K, V, A>::insert", "std::collections::btree_map::VacantEntry::<'a, K, V, A>::insert")
def m_vacant_insert(ex, c, st):
    e = c.args[0]
    r = e.d['ref']
    mm = as_map(ex, ex.deref(r, st))
    D = ex.fresh('D', V)
    seg = Seg((), T, tup(ex, e.d['key'], c.args[1]))
    domain_facts(ex, D, mm.t, [seg])
    ex.write_ref(r, MapV(SeqV(mm.pairs.segs + (seg,)), D, mm.distinct), st)
    return RefV(c.args[1])          # reading only: a write through it is refused


@model(*["std::collections::%s::Entry::<'a, K, V, A>::%s" % (x, y) for x in ('hash_map', 'btree_map') for y in ('or_insert', 'or_insert_with', 'or_default')])
def m_or_insert(ex, c, st):
    a = c.args[0]
    e = ex.proj(a, 0, 0)
    if not (isinstance(a, Adt) and isinstance(e, Opq) and e.kind == 'entry'):
        raise Unsupported('entry of unknown origin')
    r = e.d['ref']
    had = EQ(a.disc, I([i for i, x in enumerate(ex.T[a.ty]['variants']) if x['name'] == 'Occupied'][0]))
    mm = as_map(ex, ex.deref(r, st))
    if c.d.endswith('or_insert'):
        new = c.args[1]
    elif c.d.endswith('or_insert_with'):
        new = ex.call_pure(c.args[1], [], st)
    else:
        new = container_default(ex, ex.T[a.ty]['args'][1]) if len(ex.T[a.ty].get('args', ())) > 1 else None
        if new is None:
            raise Unsupported('or_default')
    old = UNDEF if is_false(had) else map_get(ex, mm, term_of(ex, e.d['key'], st))[1] if not any(isinstance(x.v, Opq) for x in mm.pairs.segs) else None
    D = ex.fresh('D', V)
    seg = Seg((), NOT(had), tup(ex, e.d['key'], new))
    domain_facts(ex, D, mm.t, [seg])
    ex.write_ref(r, MapV(SeqV(mm.pairs.segs + (seg,)), D, mm.distinct), st)
    if old is None:
        return Opq('valref')
    return RefV(new if old is UNDEF else ex.merge(had, old, new))


@model("std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::into_mut", "std::collections::btree_map::OccupiedEntry::<'a, K, V, A>::into_mut")
def m_into_mut(ex, c, st):
    e = ex.full_deref(c.args[0], st)
    return RefV(map_get(ex, ex.deref(e.d['ref'], st), term_of(ex, e.d['key'], st))[1])


@model(HM + 'remove', BM + 'remove')
def m_map_remove(ex, c, st):
    r = c.args[0]
    m = ex.deref(r, st)
    kt = term_of(ex, c.args[1], st)
    f, v = map_get(ex, m, kt)
    ex.write_ref(r, without(ex, as_map(ex, m), lambda k, _: EQ(term_of(ex, k), kt)), st)
    return mkopt(ex, c.destty, f, v)


@model(HM + 'retain', BM + 'retain')
def m_map_retain(ex, c, st):
    r = c.args[0]
    m = MapV(dedup(ex, as_map(ex, ex.deref(r, st))), as_map(ex, ex.deref(r, st)).t, True)
    ex.write_ref(r, without(ex, m, lambda k, v: NOT(ex.call_pure(c.args[1], [RefV(k), RefV(v)], st).e)), st)
    return unit(ex, c.destty)


def without(ex, m, drop):
    """The map without the pairs to be dropped (a property of the key, or of pairs of distinct keys)."""
    out = []
    for seg in m.pairs.segs:
        if isinstance(seg.v, Opq):
            raise Unsupported('removal from a map under construction')
        seg = ex.refresh(seg)
        out.append(Seg(seg.b, AND(seg.g, NOT(ex.under(seg, lambda: drop(pkey(ex, seg.v), pval(ex, seg.v))))), seg.v))
    D = ex.fresh('D', V)
    domain_facts(ex, D, empty_term(ex), out)
    return MapV(SeqV(tuple(out)), D, m.distinct)


@model("std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::key", "std::collections::hash_map::VacantEntry::<'a, K, V, A>::key", "std::collections::btree_map::OccupiedEntry::<'a, K, V, A>::key", "std::collections::hash_map::Entry::<'a, K, V, A>::key")
def m_entry_key(ex, c, st):
    e = ex.full_deref(c.args[0], st)
    if isinstance(e, Opq):
        return RefV(e.d['key'])
    return NotImplemented


@model("std::collections::hash_map::VacantEntry::<'a, K, V, A>::into_key")
def m_into_key(ex, c, st):
    return c.args[0].d['key']


@model("std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::remove_entry", "std::collections::btree_map::OccupiedEntry::<'a, K, V, A>::remove_entry")
def m_remove_entry(ex, c, st):
    e = c.args[0]
    r = e.d['ref']
    f, v = UNDEF, UNDEF
    ex.write_ref(r, Opq('havoc', id=0), st)
    tys = ex.T[c.destty]['tys']
    return Adt(c.destty, 0, {0: (e.d['key'], ex.freshv('removed', tys[1]))})


@model("std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::get", "std::collections::btree_map::OccupiedEntry::<'a, K, V, A>::get")
def m_occ_get(ex, c, st):
    e = ex.full_deref(c.args[0], st)
    f, v = map_get(ex, ex.deref(e.d['ref'], st), term_of(ex, e.d['key'], st))
    return RefV(v)


@model("std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::remove", "std::collections::btree_map::OccupiedEntry::<'a, K, V, A>::remove")
def m_occ_remove(ex, c, st):
    e = c.args[0]
    f, v = map_get(ex, ex.deref(e.d['ref'], st), term_of(ex, e.d['key'], st))
    ex.write_ref(e.d['ref'], Opq('havoc', id=0), st)
    return v


@model("std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::insert")
def m_occ_insert(ex, c, st):
    e = ex.full_deref(c.args[0], st)
    r = e.d['ref']
    mm = as_map(ex, ex.deref(r, st))
    D = ex.fresh('D', V)
    seg = Seg((), T, tup(ex, e.d['key'], c.args[1]))
    domain_facts(ex, D, mm.t, [seg])
    ex.write_ref(r, MapV(SeqV(mm.pairs.segs + (seg,)), D, False), st)
    return ex.freshv('replaced', c.destty)


# ------------------------------------------------------------------------------ strings
def m_str_ident(ex, c, st):
    t = strterm(ex, c.args[0], st)
    if t is None or c.destty is None or not is_str_ty(ex, c.destty):
        return NotImplemented
    a = c.args[0]
    if isinstance(a, RefM) and ex.T[c.destty]['k'] == 'ref' and ex.T[c.destty].get('mut'):
        return a
    return wrap_str(ex, t, c.destty)


@model('std::string::String::new')
def m_string_new(ex, c, st):
    return Sym(ex.lit(''), c.destty)


@model('std::string::String::as_str', 'std::string::String::into_boxed_str', 'core::str::<impl str>::to_owned', 'alloc::str::<impl str>::to_owned', 'alloc::str::<impl str>::into_string')
def m_as_str(ex, c, st):
    return m_str_ident(ex, c, st)


@model('std::string::ToString::to_string', 'std::borrow::ToOwned::to_owned', 'std::convert::From::from', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow', 'std::convert::Into::into', 'std::convert::AsMut::as_mut')
def m_ident(ex, c, st):
    r = m_str_ident(ex, c, st)
    if r is not NotImplemented:
        return r
    if c.d in ('std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow', 'std::convert::AsMut::as_mut'):
        v = c.args[0]
        if isinstance(v, RefV):
            x = v.v
            if isinstance(x, BoxV):
                return RefV(x.v)
            if ex.seqlike(x):
                return v
        if isinstance(v, RefM):
            x = ex.deref(v, st)
            if isinstance(x, BoxV):
                return RefM(tuple((g, cc, tuple(p) + (('box',),)) for g, cc, p in v.alts))
            if ex.seqlike(x):
                return v
    if c.d in ('std::convert::From::from', 'std::convert::Into::into') and ex.T.isvec(c.destty) and ex.seqlike(c.args[0]) and (isinstance(c.args[0], SeqV) or ex.T[c.args[0].ty]['k'] == 'array'):
        return c.args[0]
    if c.d == 'std::borrow::ToOwned::to_owned':
        v = ex.deref(c.args[0], st)
        return v
    if c.d == 'std::string::ToString::to_string':
        v = ex.full_deref(c.args[0], st)
        f = ex.pfn('display.%s' % (ex.adt_ty(v) if ex.adt_ty(v) is not None else 'x'), [V], V)
        return Sym(f(term_of(ex, v, st)), c.destty)
    return NotImplemented


@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut')
def m_deref(ex, c, st):
    v = c.args[0]
    if isinstance(v, RefM):
        x = ex.deref(v, st)
        if isinstance(x, BoxV):
            return RefM(tuple((g, cc, tuple(p) + (('box',),)) for g, cc, p in v.alts))
        if c.d.endswith('deref_mut'):
            return v
        v = RefV(x)
    if isinstance(v, RefV):
        x = v.v
        if isinstance(x, BoxV):
            return RefV(x.v)
        if isinstance(x, RefM):
            return RefV(ex.deref(x, st))
        if isinstance(x, RefV):
            return x
        t = strterm(ex, x, st)
        if t is not None:
            return wrap_str(ex, t, c.destty)
        if ex.seqlike(x):
            return v
        if isinstance(x, Sym):
            return NotImplemented
        if isinstance(x, Ite):
            return NotImplemented
    return NotImplemented


@model('core::str::<impl str>::parse', 'std::str::FromStr::from_str')
def m_parse(ex, c, st):
    t = strterm(ex, c.args[0], st)
    if t is None:
        return NotImplemented
    return parse_result(ex, t, c.destty)


def parse_result(ex, t, rty):
    okty, errty = ex.T[rty]['args'][:2]
    ok = ex.pfn('parse_ok.%d' % ex.tkey(okty), [V], BOOL)(t)
    s = ex.T.sort(okty)
    pv = ex.pfn('parse.%d' % ex.tkey(okty), [V], s)(t)
    v = Sc(pv, okty) if ex.T.is_scalar(okty) else ex.mk(pv, okty)
    e = ex.mkany(ex.pfn('parse_err.%d' % ex.tkey(okty), [V], V)(t), errty)
    return Adt(rty, IF(ok, I(0), I(1)), {0: (v,), 1: (e,)})


@model('core::str::<impl str>::is_empty', 'std::string::String::is_empty')
def m_str_is_empty(ex, c, st):
    return Sc(strterm(ex, c.args[0], st) == ex.lit(''), c.destty)


@model('core::str::<impl str>::len', 'std::string::String::len')
def m_str_len(ex, c, st):
    return Sc(ex.strlen(strterm(ex, c.args[0], st)), c.destty)


def boundary(ex, s, n):
    """Position n of the text s is not inside a character."""
    ln = ex.strlen(s)
    return AND(0 <= n, n <= ln, OR(n == 0, n == ln, ex.pfn('u.boundary', [V, INT], BOOL)(s, n)))


def substr(ex, s, lo, hi, ty):
    t = ex.pfn('u.substr', [V, INT, INT], V)(s, lo, hi)
    return ex.mk(IF(AND(lo == 0, hi == ex.strlen(s)), s, t), ty)


@model('core::str::<impl str>::split_at')
def m_str_split_at(ex, c, st):
    s = strterm(ex, c.args[0], st)
    if s is None:
        return NotImplemented
    n = c.args[1].e
    ex.oblige('no panic (text cut inside a character or out of bounds) in %s line %s' % (c.site and c.site['fn'], c.site and c.site['line']), boundary(ex, s, n), loc=None)
    a, b = [f[1] for f in ex.T.fields(c.destty)]
    return Adt(c.destty, 0, {0: (substr(ex, s, I(0), n, a), substr(ex, s, n, ex.strlen(s), b))})


@model('core::str::<impl str>::get')
def m_str_get(ex, c, st):
    s = strterm(ex, c.args[0], st)
    r = s is not None and range_of(ex, c.args[1], ex.strlen(s))
    if not r:
        return NotImplemented
    return mkopt(ex, c.destty, AND(r[0] <= r[1], boundary(ex, s, r[0]), boundary(ex, s, r[1])), substr(ex, s, r[0], r[1], ex.T[c.destty]['args'][0]))


def uninterpreted(ex, c, st, name):
    ts = [term_of(ex, a, st) for a in c.args]
    rty = c.destty
    s = ex.T.sort(rty)
    f = ex.pfn('u.%s' % name, [V] * len(ts), s)
    e = f(*ts)
    return Sc(e, rty) if ex.T.is_scalar(rty) else ex.mk(e, rty)


def texts(*names):
    return model(*['%s::<impl str>::%s' % (p, n) for p in ('core::str', 'alloc::str', 'std::str') for n in names])


@texts('starts_with', 'ends_with', 'contains', 'trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches',
       'is_char_boundary', 'eq_ignore_ascii_case', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'replace',
       'replacen', 'repeat', 'is_ascii')
def m_str_fn(ex, c, st):
    r = uninterpreted(ex, c, st, c.d.rsplit('::', 1)[1])
    if c.d.endswith('eq_ignore_ascii_case'):
        a, b = strterm(ex, c.args[0], st), strterm(ex, c.args[1], st)
        return Sc(OR(EQ(a, b), r.e), c.destty)
    return r


def text_key(ex, c, st):
    """What a text function depends on: the text, and the pattern."""
    return [term_of(ex, a, st) for a in c.args]


@texts('find', 'rfind')
def m_str_find(ex, c, st):
    ts = text_key(ex, c, st)
    n = c.d.rsplit('::', 1)[1]
    h = ex.pfn('u.has.' + n, [V] * len(ts), BOOL)(*ts)
    at = ex.pfn('u.at.' + n, [V] * len(ts), INT)(*ts)
    t = strterm(ex, c.args[0], st)
    ex.fact(forall(list(ex.binders), IMP(h, boundary(ex, t, at))))
    return mkopt(ex, c.destty, h, Sc(at, ex.T[c.destty]['args'][0]))


@texts('strip_prefix', 'strip_suffix', 'split_once', 'rsplit_once')
def m_str_strip(ex, c, st):
    ts = text_key(ex, c, st)
    n = c.d.rsplit('::', 1)[1]
    h = ex.pfn('u.has.' + n, [V] * len(ts), BOOL)(*ts)
    v = ex.pfn('u.' + n, [V] * len(ts), V)(*ts)
    return mkopt(ex, c.destty, h, ex.mk(v, ex.T[c.destty]['args'][0]))


def pieces(ex, c, st, elem, least):
    """The pieces of a text: some number of them, each a function of the text, the pattern and its position."""
    ts = text_key(ex, c, st)
    n = c.d.rsplit('::', 1)[1]
    ln = ex.pfn('u.count.' + n, [V] * len(ts), INT)(*ts)
    t = strterm(ex, c.args[0], st)
    ex.fact(forall(list(ex.binders), AND(ln >= least, EQ(ln == 0, ex.strlen(t) == 0) if elem in ('char', 'u8') else T, ln <= ex.strlen(t) + 1)))
    ty = next((i for i, t in enumerate(ex.T.t) if (t['k'] == 'ref' and ex.T[t['ty']]['k'] == 'str' if elem == 'str' else t.get('s') == elem)), None)
    if ty is None:
        raise Unsupported('pieces of a text')
    i = ex.bind('i')
    v = ex.pfn('u.piece.' + n, [V] * len(ts) + [INT], ex.T.sort(ty))(*(ts + [i]))
    return SeqV((Seg(((i, ln),), T, Sc(v, ty) if ex.T.is_scalar(ty) else ex.mk(v, ty)),))


@texts('chars')
def m_chars(ex, c, st):
    return iterv(pieces(ex, c, st, 'char', 0))


@texts('bytes')
def m_bytes(ex, c, st):
    return iterv(pieces(ex, c, st, 'u8', 0))


@model('std::string::String::as_bytes', 'std::string::String::into_bytes')
def m_as_bytes(ex, c, st):
    s = pieces(ex, c, st, 'u8', 0)
    return RefV(s) if c.d.endswith('as_bytes') else s


@texts('split', 'rsplit', 'split_terminator', 'splitn', 'rsplitn', 'split_inclusive')
def m_str_split(ex, c, st):
    return iterv(pieces(ex, c, st, 'str', 0 if c.d.rsplit('::', 1)[1] in ('split_terminator', 'splitn', 'rsplitn', 'split_inclusive') else 1))


@texts('split_whitespace', 'split_ascii_whitespace', 'lines')
def m_str_words(ex, c, st):
    return iterv(pieces(ex, c, st, 'str', 0))


@model('std::string::String::push', 'std::string::String::push_str')
def m_string_push(ex, c, st):
    r = c.args[0]
    v = ex.full_deref(r, st)
    a, b = term_of(ex, v, st), term_of(ex, c.args[1], st)
    t = strterm(ex, c.args[1], st)
    e = ex.pfn('u.append', [V, V], V)(a, b)
    if t is not None:
        e = IF(ex.strlen(t) == 0, a, IF(ex.strlen(a) == 0, t, e))
    ex.write_ref(r, ex.mk(e, ex.adt_ty(v)), st)
    return unit(ex, c.destty)


@model('std::ops::Add::add')
def m_string_add(ex, c, st):
    a, b = strterm(ex, c.args[0], st), strterm(ex, c.args[1], st)
    if a is None or b is None:
        return NotImplemented
    e = IF(ex.strlen(b) == 0, a, IF(ex.strlen(a) == 0, b, ex.pfn('u.append', [V, V], V)(a, b)))
    return ex.mk(e, c.destty)


@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def m_eq(ex, c, st):
    neg = c.d.endswith('ne')
    a, b = strterm(ex, c.args[0], st), strterm(ex, c.args[1], st)
    if a is not None and b is not None:
        e = EQ(a, b)
        return Sc(NOT(e) if neg else e, c.destty)
    x, y = ex.full_deref(c.args[0], st), ex.full_deref(c.args[1], st)
    if isinstance(x, Sc) and isinstance(y, Sc):
        e = value_eq(ex, x, y, st)
        return Sc(NOT(e) if neg else e, c.destty)
    t = ex.adt_ty(x)
    if t is not None and ex.T[t]['k'] == 'adt' and ex.T[t]['name'] in OPAQUE and isinstance(x, Sym) and isinstance(y, Sym):
        e = EQ(x.t, y.t)
        return Sc(NOT(e) if neg else e, c.destty)
    if ex.seqlike(x) and ex.seqlike(y):
        return seq_eq(ex, ex.as_seq(x), ex.as_seq(y), neg, c, st)
    return NotImplemented


def seq_eq(ex, x, y, neg, c, st):
    (a, n), (b, m) = total(ex, nomut(x)), total(ex, nomut(y))
    i = ex.bind('i')
    e = ex.under(Seg(((i, n),), EQ(n, m), UNDEF), lambda: value_eq(ex, ex.index(a, i), ex.index(b, i), st))
    e = AND(EQ(n, m), NOT(ex.exists(((i, n),), AND(EQ(n, m), NOT(e)))))
    return Sc(NOT(e) if neg else e, c.destty)


@model('std::iter::Iterator::eq', 'std::iter::Iterator::ne')
def m_iter_eq(ex, c, st):
    return seq_eq(ex, get_seq(ex, c.args[0], st), get_seq(ex, c.args[1], st), c.d.endswith('ne'), c, st)


OPAQUE = {'oxilangtag::LanguageTag', 'time::OffsetDateTime', 'serde_json::Value', 'serde_json::value::Value', 'serde_json::Number'}


@model('std::clone::Clone::clone')
def m_clone(ex, c, st):
    return ex.deref(c.args[0], st)


@model('std::clone::Clone::clone_from')
def m_clone_from(ex, c, st):
    ex.write_ref(c.args[0], ex.deref(c.args[1], st), st)
    return unit(ex, c.destty)


# ------------------------------------------------------------------------------ memory
@model('std::mem::take')
def m_take(ex, c, st):
    r = c.args[0]
    v = ex.deref(r, st)
    ty = c.destty
    d = container_default(ex, ty) if ty is not None else None
    if d is None:
        raise Unsupported('mem::take of %s' % ex.tname(ty))
    ex.write_ref(r, d, st)
    return v


@model('std::mem::replace')
def m_replace(ex, c, st):
    v = ex.deref(c.args[0], st)
    ex.write_ref(c.args[0], c.args[1], st)
    return v


@model('std::mem::swap')
def m_swap(ex, c, st):
    a = ex.deref(c.args[0], st)
    b = ex.deref(c.args[1], st)
    ex.write_ref(c.args[0], b, st)
    ex.write_ref(c.args[1], a, st)
    return unit(ex, c.destty)


@model('std::mem::drop', 'std::ops::Drop::drop', 'std::mem::forget', 'std::ptr::drop_in_place')
def m_drop(ex, c, st):
    return unit(ex, c.destty if c.destty is not None else -1)


@model('std::boxed::Box::<T>::new', 'std::boxed::Box::<T>::pin')
def m_box_new(ex, c, st):
    return BoxV(c.args[0])


@model('std::boxed::Box::<T>::new_uninit')
def m_box_uninit(ex, c, st):
    # the lowering of vec![..]: a box whose content is written through its pointer
    return ex.tmp(st, UNDEF)


@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_box_into_vec(ex, c, st):
    v = ex.deref(c.args[0], st)
    while isinstance(v, Adt):
        v = ex.proj(v, next(iter(v.f)), max(i for i, x in enumerate(v.f[next(iter(v.f))]) if x is not UNDEF))
    if not ex.seqlike(v):
        raise Unsupported('content of a box turned into a vector')
    return v


@model('std::default::Default::default')
def m_default(ex, c, st):
    ty = c.destty
    if ty is None:
        return NotImplemented
    d = container_default(ex, ty)
    return d if d is not None else NotImplemented


# ------------------------------------------------------------------------------ intrinsics, fmt
@model('intrinsic:discriminant_value')
def m_discr(ex, c, st):
    v = ex.deref(c.args[0], st)
    return Sc(ex.discr_value(v, c.destty), c.destty)


@model('intrinsic:cold_path', 'intrinsic:assert_inhabited', 'intrinsic:assume')
def m_cold(ex, c, st):
    return unit(ex, c.destty)


@model('intrinsic:integer_max', 'intrinsic:integer_min')
def m_integer_max(ex, c, st):
    a, b = c.args[0].e, c.args[1].e
    return Sc(IF(a >= b, a, b) if c.inst['intr'] == 'integer_max' else IF(a <= b, a, b), c.destty)


@model('intrinsic:saturating_sub', 'intrinsic:saturating_add')
def m_saturating(ex, c, st):
    t = ex.T[c.destty]
    if t['k'] != 'uint':
        raise Unsupported('saturating arithmetic')
    a, b = c.args[0].e, c.args[1].e
    if c.inst['intr'] == 'saturating_sub':
        return Sc(IF(a >= b, a - b, I(0)), c.destty)
    r = ex.fresh('sat', INT)
    ex.fact(forall(list(ex.binders), AND(r <= a + b, OR(r == a + b, r >= 255), r >= a, r >= b)))
    return Sc(r, c.destty)


@model('intrinsic:likely', 'intrinsic:unlikely', 'intrinsic:black_box')
def m_likely(ex, c, st):
    return c.args[0]


@model('intrinsic:ptr_metadata')
def m_ptrmeta(ex, c, st):
    raise Unsupported('ptr_metadata')


@model('std::fmt::format', 'alloc::fmt::format')
def m_format(ex, c, st):
    return ex.freshv('formatted', c.destty)


@model('std::ops::ControlFlow::<B, C>::is_break_never')
def m_never(ex, c, st):
    return NotImplemented


def m_fmt(ex, c, st):
    return ex.freshv('fmt', c.destty)


def m_panic(ex, c, st):
    raise Unsupported('panic machinery')


def m_f64(ex, c, st):
    n = c.d.rsplit('::', 1)[1]
    x = c.args[0].e
    if n == 'is_nan':
        return Sc(z3.fpIsNaN(x), c.destty)
    if n == 'is_infinite':
        return Sc(z3.fpIsInf(x), c.destty)
    if n == 'is_finite':
        return Sc(z3.And(z3.Not(z3.fpIsInf(x)), z3.Not(z3.fpIsNaN(x))), c.destty)
    if n == 'abs':
        return Sc(z3.fpAbs(x), c.destty)
    if n == 'is_sign_negative':
        return Sc(z3.fpIsNegative(x), c.destty)
    if n == 'is_sign_positive':
        return Sc(z3.fpIsPositive(x), c.destty)
    return NotImplemented


PREFIX = [
    ('core::fmt::', m_fmt), ('std::fmt::Arguments', m_fmt), ('core::f64::<impl f64>::', m_f64), ('std::f64::<impl f64>::', m_f64),
]

# serde_json::Map is a thin wrapper over a map
for _k in [k for k in DEF if k.startswith('std::collections::BTreeMap::<K, V')]:
    _n = _k.rsplit('::', 1)[1]
    for _p in ('serde_json::map::Map', 'serde_json::Map'):
        DEF.setdefault('%s::<std::string::String, serde_json::value::Value>::%s' % (_p, _n), DEF[_k])
        DEF.setdefault('%s::<std::string::String, serde_json::Value>::%s' % (_p, _n), DEF[_k])
DEF.setdefault('serde_json::map::Map::<std::string::String, serde_json::value::Value>::with_capacity', DEF['std::collections::BTreeMap::<K, V>::new'])
DEF.setdefault('serde_json::Map::<std::string::String, serde_json::Value>::with_capacity', DEF['std::collections::BTreeMap::<K, V>::new'])
