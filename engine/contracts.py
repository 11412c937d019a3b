"""Contracts of the recursive and work-list functions on data schemas, and their verification.

A contract is attached by signature: every monomorphic function of the compiled program whose
argument and result types match is under the contract.  Callers use the contract only; each body is
verified against it with the contract assumed for the calls it makes (partial correctness)."""
import z3
from core import *
from exec import Ex, St, forall
from spec import W, Lost, same, rel_seq, nonempty_form

KINDS = ('range', 'nan', 'multiple', )
ERR = {'range': 'InvalidMinMax', 'nan': 'NanMinMax', 'multiple': 'InvalidMultipleOf'}


class Theory:
    """Spec functions over unchecked data schemas (the input side) and data schemas (the output)."""

    def __init__(self, ex):
        self.ex = ex
        T = ex.T
        self.UDS = self.one('UncheckedDataSchema')
        self.US = self.one('UncheckedDataSchemaSubtype')
        self.DS = self.one('DataSchema', opt=True)
        self.ERRTY = self.one('Error', 'wot_td::builder::Error')
        self.bad_ds = {k: z3.Function('bad_ds.' + k, V, BOOL) for k in KINDS}
        self.bad_sub = {k: z3.Function('bad_sub.' + k, V, BOOL) for k in KINDS}
        self.convok = z3.Function('convok', V, BOOL)
        self.conv = z3.Function('conv', V, V)
        self.errtag = z3.Function('errtag', V, V)
        self.rel = z3.Function('rel_schema', V, V, BOOL)

    def one(self, last, full=None, opt=False):
        T = self.ex.T
        for i, t in enumerate(T.t):
            if t['k'] == 'adt' and (t['name'] == full if full else t['name'].split('::')[-1] == last and t['name'].startswith('wot_td')):
                return self.ex.canon[i]
        if opt:
            return None
        raise Lost('no type %s' % last)

    def is_ty(self, ty, which):
        return ty is not None and ty >= 0 and which is not None and self.ex.canon.get(ty) == which

    # -------------------------------------------------------- limits
    def range_empty(self, mn, mx):
        """mn, mx: W of Option<Minimum>, Option<Maximum>: both given, nothing between them."""
        a, b = mn.inner, mx.inner
        ai, bi = a.as_('Inclusive').e, b.as_('Inclusive').e
        ae, be = a.as_('Exclusive').e, b.as_('Exclusive').e
        x = IF(a.is_('Inclusive'), ai, ae)
        y = IF(b.is_('Inclusive'), bi, be)
        if x.sort() == INT:
            le, lt = x <= y, x < y
        else:
            le, lt = z3.fpLEQ(x, y), z3.fpLT(x, y)
        incl = AND(a.is_('Inclusive'), b.is_('Inclusive'))
        return AND(mn.some, mx.some, NOT(IF(incl, le, lt)))

    def limit_nan(self, o):
        i = o.inner
        x = IF(i.is_('Inclusive'), i.as_('Inclusive').e, i.as_('Exclusive').e)
        return AND(o.some, z3.fpIsNaN(x))

    def local_bad(self, k, s):
        """s: W of the subtype; the limits of this very schema."""
        out = []
        if k == 'range':
            arr = s.as_('Array')
            mn, mx = arr.f('min_items'), arr.f('max_items')
            out.append(AND(s.is_('Array'), mn.some, mx.some, mn.inner.e > mx.inner.e))
            for v in ('Number', 'Integer'):
                n = s.as_(v)
                out.append(AND(s.is_(v), self.range_empty(n.f('minimum'), n.f('maximum'))))
        elif k == 'nan':
            n = s.as_('Number')
            out.append(AND(s.is_('Number'), OR(self.limit_nan(n.f('minimum')), self.limit_nan(n.f('maximum')))))
        elif k == 'multiple':
            m = s.as_('Number').f('multiple_of')
            x = m.inner.e
            out.append(AND(s.is_('Number'), m.some, NOT(z3.fpGT(x, z3.FPVal(0.0, x.sort())))))
        return OR(*out)

    def sub_bad(self, k, s):
        """Unfolded: this subtype or any schema nested below it has a limit of kind k broken."""
        items = s.as_('Array').f('items')
        props = s.as_('Object').f('properties')
        return OR(self.local_bad(k, s),
                  AND(s.is_('Array'), items.some, items.inner.is_('Elem'), self.bad(k, items.inner.as_('Elem'))),
                  AND(s.is_('Array'), items.some, items.inner.is_('Vec'), items.inner.as_('Vec').any(lambda x: self.bad(k, x))),
                  AND(s.is_('Object'), props.some, props.inner.any(lambda p: self.bad(k, p.f(1)))))

    def ds_bad(self, k, d):
        return OR(self.opt_bad(k, d.f('subtype')), self.oneof_bad(k, d.f('one_of')))

    def oneof_bad(self, k, o):
        return AND(o.some, o.inner.any(lambda x: self.bad(k, x)))

    def opt_bad(self, k, o):
        i = o.inner
        b = self.bad_sub[k](i.v.t) if isinstance(i.v, Sym) else self.sub_bad(k, i)
        return AND(o.some, b)

    def bad(self, k, d):
        """d: W of a schema."""
        if isinstance(d.v, Sym):
            return self.bad_ds[k](d.v.t)
        if isinstance(d.v, Ite):
            return IF(d.v.c, self.bad(k, d.w(d.v.a)), self.bad(k, d.w(d.v.b)))
        return self.ds_bad(k, d)

    def anybad(self, d):
        return OR(*[self.bad(k, d) for k in KINDS])

    def unfold_ds(self, t):
        w = W(self.ex, Sym(t, self.UDS))
        return [self.bad_ds[k](t) == self.ds_bad(k, w) for k in KINDS]

    def unfold_sub(self, t):
        w = W(self.ex, Sym(t, self.US))
        return [self.bad_sub[k](t) == self.sub_bad(k, w) for k in KINDS]

    def bad_axioms(self):
        """Unfoldings, restricted to the terms the code itself has looked into."""
        ex = self.ex
        x = z3.Const('x!bad', V)
        out = []
        i = [n for n, _ in ex.T.fields(self.UDS)].index('subtype')
        fn, _ = ex.proj_fn(self.UDS, 0, i)
        n = len(ex.facts)
        a = self.unfold_ds(x)
        b = self.unfold_sub(x)
        assert len(ex.facts) == n
        d = ex.disc_fn(self.US)
        for k, f in zip(KINDS, a):
            out.append(z3.ForAll([x], f, patterns=[z3.MultiPattern(self.bad_ds[k](x), fn(x))]))
        for k, f in zip(KINDS, b):
            out.append(z3.ForAll([x], f, patterns=[z3.MultiPattern(self.bad_sub[k](x), d(x))]))
        return out

    # -------------------------------------------------------- conversion
    def tag_ok(self, k):
        ex = self.ex
        return ex.pfn('parse_ok.%d' % ex.tkey(self.TAG()), [V], BOOL)(k)

    def tag(self, k):
        ex = self.ex
        return ex.pfn('parse.%d' % ex.tkey(self.TAG()), [V], V)(k)

    def TAG(self):
        for i, t in enumerate(self.ex.T.t):
            if t['k'] == 'adt' and t['name'] == 'oxilangtag::LanguageTag':
                return i
        raise Lost('language tag type')

    def ml_ok(self, o):
        """Option<MultiLanguageBuilder>: every key is a well-formed language tag."""
        return imp(o.some, lambda: o.inner.f('values').all(lambda p: self.tag_ok(p.f(0).t)))

    def ml_rel(self, out, inn):
        ex = self.ex

        def pair(x, y):
            X, Y = W(ex, x), W(ex, y)
            return AND(EQ(X.f(0).t, self.tag(Y.f(0).t)), same(ex, X.f(1).v, Y.f(1).v))
        return AND(EQ(bit(out.some), bit(inn.some)), on(inn.some, out.some, lambda: rel_seq(ex, out.inner.seq, inn.inner.f('values').seq, pair)))

    def conv_ok(self, d):
        """Unfolded: all language tags below schema d are well formed."""
        ok = self.ok
        return AND(self.ml_ok(d.f('titles')), self.ml_ok(d.f('descriptions')), self.oneof_ok(d.f('one_of')), self.opt_ok(d.f('subtype')))

    def oneof_ok(self, o):
        return imp(o.some, lambda: o.inner.all(self.ok))

    def opt_ok(self, sub):
        def items(o):
            return imp(o.some, lambda: AND(imp(o.inner.is_('Elem'), lambda: self.ok(o.inner.as_('Elem'))),
                                           imp(o.inner.is_('Vec'), lambda: o.inner.as_('Vec').all(self.ok))))

        def props(o):
            return imp(o.some, lambda: o.inner.all(lambda p: self.ok(p.f(1))))

        def inner(s):
            return AND(imp(s.is_('Array'), lambda: items(s.as_('Array').f('items'))), imp(s.is_('Object'), lambda: props(s.as_('Object').f('properties'))))
        return imp(sub.some, lambda: inner(sub.inner))

    def ok(self, d):
        if isinstance(d.v, Sym):
            return self.convok(d.v.t)
        return self.conv_ok(d)

    def related(self, x, y):
        """Value x is the checked form of unchecked schema y."""
        ex = self.ex
        X, Y = W(ex, x), W(ex, y)
        if isinstance(X.v, Sym) and isinstance(Y.v, Sym):
            return self.rel(X.v.t, Y.v.t)
        return self.rel_ds(X, Y)

    def rel_ds(self, out, d):
        ex = self.ex
        cs = [('same ' + n, same(ex, out.f(n).v, d.f(n).v)) for n in
              ('attype', 'title', 'description', 'constant', 'default', 'unit', 'enumeration', 'read_only', 'write_only', 'format', 'other')]
        cs += [('titles', self.ml_rel(out.f('titles'), d.f('titles'))),
               ('descriptions', self.ml_rel(out.f('descriptions'), d.f('descriptions'))),
               ('one_of', self.rel_opt_vec(out.f('one_of'), d.f('one_of'))),
               ('subtype', self.rel_sub(out.f('subtype'), d.f('subtype')))]
        return AND(*[c for _, c in cs])

    def rel_opt_vec(self, o, i):
        return AND(EQ(bit(o.some), bit(i.some)), on(i.some, o.some, lambda: rel_seq(self.ex, o.inner.seq, i.inner.seq, self.related)))

    def rel_map(self, o, i):
        ex = self.ex
        return rel_seq(ex, o.seq, i.seq, lambda x, y: AND(same(ex, W(ex, x).f(0).v, W(ex, y).f(0).v), self.related(W(ex, x).f(1).v, W(ex, y).f(1).v)))

    def rel_sub(self, o, i):
        ex = self.ex
        def sub(a, b):
            out = [EQ(a.is_(v), b.is_(v)) for v in ('Array', 'Boolean', 'Number', 'Integer', 'Object', 'String', 'Null')]
            out += [on(b.is_(v), a.is_(v), lambda: same(ex, a.as_(v).v, b.as_(v).v)) for v in ('Number', 'Integer', 'String')]
            out.append(on(b.is_('Array'), a.is_('Array'), lambda: array(a.as_('Array'), b.as_('Array'))))
            out.append(on(b.is_('Object'), a.is_('Object'), lambda: obj(a.as_('Object'), b.as_('Object'))))
            return AND(*out)

        def array(x, y):
            return AND(*[same(ex, x.f(n).v, y.f(n).v) for n in ('min_items', 'max_items', 'other')],
                       EQ(bit(x.f('items').some), bit(y.f('items').some)), on(y.f('items').some, x.f('items').some, lambda: items(x.f('items').inner, y.f('items').inner)))

        def items(x, y):
            return AND(EQ(x.is_('Elem'), y.is_('Elem')), on(y.is_('Elem'), x.is_('Elem'), lambda: self.related(x.as_('Elem').v, y.as_('Elem').v)),
                       on(y.is_('Vec'), x.is_('Vec'), lambda: rel_seq(ex, x.as_('Vec').seq, y.as_('Vec').seq, self.related)))

        def obj(x, y):
            p, q = x.f('properties'), y.f('properties')
            return AND(*[same(ex, x.f(n).v, y.f(n).v) for n in ('required', 'other')], EQ(bit(p.some), bit(q.some)), on(q.some, p.some, lambda: self.rel_map(p.inner, q.inner)))
        return AND(EQ(bit(o.some), bit(i.some)), on(i.some, o.some, lambda: sub(o.inner, i.inner)))

    def conv_axioms(self):
        x = z3.Const('x!conv', V)
        return [z3.ForAll([x], z3.Implies(self.convok(x), self.rel(self.conv(x), x)), patterns=[self.conv(x)]),
                z3.ForAll([x], z3.Implies(z3.Not(self.convok(x)), z3.Not(self.tag_ok(self.errtag(x)))), patterns=[self.errtag(x)])]


def imp(g, f):
    return T if is_false(g) else IMP(g, f())


def on(g, h, f):
    """Under g, h holds and so does f (evaluated only where both are possible)."""
    return T if is_false(g) else NOT(g) if is_false(h) else IMP(g, AND(h, f()))


def bit(b):
    return b


def strip(ex, ty):
    t = ex.T[ty]
    n = 0
    while t['k'] == 'ref':
        ty = t['ty']
        t = ex.T[ty]
        n += 1
    return ty, n


class Contract:
    label = ''

    def __init__(self, th):
        self.th = th
        self.ex = th.ex
        self.used = {}
        self.cache = {}
        self.off = set()

    def matches(self, ex, defname, inst):
        if not inst:
            return False
        k = inst['key']
        if k in self.off:
            return False
        r = self.cache.get(k)
        if r is None:
            b = ex.F.get(k)
            r = bool(b) and not b.get('closure') and self.sig(ex, b)
            self.cache[k] = r
        return r

    def result_of(self, ex, ty, okcheck):
        t = ex.T[ty]
        return t['k'] == 'adt' and t['name'] == 'std::result::Result' and ex.canon[t['args'][1]] == self.th.ERRTY and okcheck(t['args'][0])

    def is_unit(self, ty):
        t = self.ex.T[ty]
        return t['k'] == 'tuple' and not t['tys']


class Check(Contract):
    """fn(&Option<subtype>) / fn(&schema) -> Result<(), Error>:
    Ok iff no limit is broken in the schema or below; the error names a kind of limit that is."""

    def sig(self, ex, b):
        if b['argc'] != 1 or not self.result_of(ex, b['locals'][0], self.is_unit):
            return False
        return self.argkind(ex, b['locals'][1]) is not None

    def argkind(self, ex, ty):
        ty, n = strip(ex, ty)
        if n != 1:
            return None
        if self.th.is_ty(ty, self.th.UDS):
            return 'schema'
        t = ex.T[ty]
        if t['k'] == 'adt' and t['name'] == 'std::option::Option':
            u, m = strip(ex, t['args'][0])
            if m == 0 and self.th.is_ty(u, self.th.US):
                return 'subtype'
        return None

    def bad(self, ex, kind, v, st):
        w = W(ex, v, st)
        return {k: (self.th.bad(k, w) if kind == 'schema' else self.th.opt_bad(k, w)) for k in KINDS}

    def apply(self, ex, inst, args, st, site):
        b = ex.F[inst['key']]
        kind = self.argkind(ex, b['locals'][1])
        self.used[inst['key']] = b['defname']
        bad = self.bad(ex, kind, args[0], st)
        rty = b['locals'][0]
        e = ex.freshv('checkerr', self.th.ERRTY)
        ew = W(ex, e)
        anyb = OR(*bad.values())
        ex.fact(IMP(anyb, OR(*[AND(ew.is_(ERR[k]), bad[k]) for k in KINDS])))
        uty = ex.T[rty]['args'][0]
        return Adt(rty, IF(anyb, I(1), I(0)), {0: (Adt(uty, 0, {0: ()}),), 1: (e,)})

    def goals(self, ex, b, args, r, st):
        kind = self.argkind(ex, b['locals'][1])
        bad = self.bad(ex, kind, args[0], st)
        res = W(ex, r)
        err = res.as_('Err')
        out = [('accepted only without a broken limit', IMP(res.is_('Ok'), NOT(OR(*bad.values()))))]
        out.append(('an error names a kind of broken limit', IMP(res.is_('Err'), OR(*[AND(err.is_(ERR[k]), bad[k]) for k in KINDS]))))
        return out

    def axioms(self):
        return self.th.bad_axioms()

    def unfold(self, args):
        return []


class Convert(Contract):
    """fn(unchecked schema) -> Result<schema, Error>: Ok iff every language tag below is well formed, and
    then the result is the same schema; otherwise InvalidLanguageTag of a malformed tag."""

    def sig(self, ex, b):
        if b['argc'] != 1 or self.th.DS is None:
            return False
        if not self.th.is_ty(b['locals'][1], self.th.UDS):
            return False
        return self.result_of(ex, b['locals'][0], lambda t: self.th.is_ty(t, self.th.DS))

    def apply(self, ex, inst, args, st, site):
        b = ex.F[inst['key']]
        x = args[0]
        if isinstance(x, Ite):
            x = Ite(x.c, x.a, x.b)
            raise Unsupported('conversion of a conditional schema')
        if not isinstance(x, Sym):
            return ex.run_body(inst['key'], args, st)
        self.used[inst['key']] = b['defname']
        rty = b['locals'][0]
        th = self.th
        i = W(ex, Sym(z3.Const('err!proto', V), th.ERRTY)).vidx('InvalidLanguageTag')
        sty = ex.T.fields(th.ERRTY, i)[0][1]
        err = Adt(th.ERRTY, i, {i: (Sym(th.errtag(x.t), sty),)})
        return Adt(rty, IF(th.convok(x.t), I(0), I(1)), {0: (Sym(th.conv(x.t), ex.T[rty]['args'][0]),), 1: (err,)})

    def goals(self, ex, b, args, r, st):
        th = self.th
        x = W(ex, args[0])
        res = W(ex, r)
        ok = th.conv_ok(x)
        err = res.as_('Err')
        out = [('converted exactly when every language tag is well formed', res.is_('Ok') == ok),
               ('the error is an invalid language tag', IMP(res.is_('Err'), AND(err.is_('InvalidLanguageTag'), NOT(th.tag_ok(err.as_('InvalidLanguageTag').t)))))]
        v = res.as_('Ok')
        for n in ('attype', 'title', 'description', 'constant', 'default', 'unit', 'enumeration', 'read_only', 'write_only', 'format', 'other'):
            out.append(('%s is kept' % n, IMP(res.is_('Ok'), same(ex, v.f(n).v, x.f(n).v))))
        out.append(('titles are kept', IMP(res.is_('Ok'), th.ml_rel(v.f('titles'), x.f('titles')))))
        out.append(('descriptions are kept', IMP(res.is_('Ok'), th.ml_rel(v.f('descriptions'), x.f('descriptions')))))
        out.append(('one_of is kept', IMP(res.is_('Ok'), th.rel_opt_vec(v.f('one_of'), x.f('one_of')))))
        out.append(('the subtype is kept', IMP(res.is_('Ok'), th.rel_sub(v.f('subtype'), x.f('subtype')))))
        return out

    def axioms(self):
        return self.th.conv_axioms()

    def unfold(self, args):
        """The definitions of the spec functions at the argument of the body being verified."""
        th, ex = self.th, self.ex
        if not isinstance(args[0], Sym):
            return []
        t = args[0].t
        d = W(ex, args[0])
        return [th.convok(t) == th.conv_ok(d), z3.Implies(th.convok(t), th.rel_ds(W(ex, Sym(th.conv(t), th.DS)), d))]


# ------------------------------------------------------------------------------ work-list loops
def worklist(ex, th, key, fr, cfg, h, g, st):
    """Loop over an explicit stack of schemas: the invariant is that the schemas still to be examined
    have a broken limit of kind k (in themselves or below) exactly when the initial ones had."""
    body = cfg.body
    L = cfg.loops[h]
    touched = set()
    for b in L:
        bl = body['blocks'][b]
        for s in bl['s']:
            if s[0] in ('assign', 'setdiscr'):
                touched.add(s[1][0])
            if s[0] == 'assign' and (s[2][0] == 'ref' and s[2][1] or s[2][0] == 'addrof'):
                pl = s[2][2] if s[2][0] == 'ref' else s[2][1]
                touched.add(pl[0])
        t = bl['t']
        if t[0] == 'call':
            touched.add(t[3][0])
            for o in t[2]:
                if 'move' in o:
                    touched.add(o['move'][0])
    cells = {}
    hst = st.copy()
    for l in sorted(touched):
        c = (fr, l)
        if c not in st.m or st.m[c] is UNDEF:
            continue
        ty = body['locals'][l]
        k = cellkind(ex, th, ty)
        if k is None:
            t = ex.T[ty]
            if t['k'] == 'tuple' and not t['tys']:
                continue
            if isinstance(st.m[c], RefM):
                raise Unsupported('mutable reference carried by a loop')
            if ex.T.is_scalar(ty):
                hst.m[c] = Sc(ex.fresh('lv', ex.T.sort(ty)), ty)
            else:
                hst.m[c] = Opq('havoc', id=next(ex.cnt))
            continue
        cells[c] = k
        hst.m[c] = ex.mkany(ex.fresh('lv', V), ty)
    if not cells:
        raise Unsupported('loop in %s has no recognised shape' % body['defname'])

    def tot(s):
        return {k: OR(*[cellbad(ex, th, k, kind, s.m.get(c, UNDEF), s) for c, kind in cells.items()]) for k in KINDS}
    b0 = tot(st)
    b1 = tot(hst)
    for k in KINDS:
        ex.fact(b0[k] == b1[k])
    outs = ex.region(key, fr, cfg, L, h, (), hst, header=h)
    edges = []
    for tgt, lst in outs.items():
        for gg, ss in lst:
            if tgt == h:
                b2 = tot(ss)
                for k in KINDS:
                    ex.oblige('loop invariant in %s (%s)' % (body['defname'], k), b0[k] == b2[k], kind='inv', guard=gg)
            else:
                edges.append((tgt, tuple(g) + tuple(gg), ss))
    return edges


def cellkind(ex, th, ty):
    u, n = strip(ex, ty)
    t = ex.T[u]
    if th.is_ty(u, th.UDS) and n:
        return 'schema'
    if t['k'] == 'adt' and t['name'] == 'std::option::Option':
        w, m = strip(ex, t['args'][0])
        if th.is_ty(w, th.US):
            return 'subtype'
        if th.is_ty(w, th.UDS) and m:
            return 'optschema'
    if th.is_ty(u, th.US) and n:
        return 'sub'
    if t['k'] == 'adt' and t['name'] == 'std::vec::Vec' and n == 0:
        w, m = strip(ex, t['args'][0])
        if m and th.is_ty(w, th.UDS):
            return 'vec'
        if th.is_ty(w, th.US) and m:
            return 'subvec'
    return None


def cellbad(ex, th, k, kind, v, st):
    if v is UNDEF:
        return Fa
    if kind == 'vec':
        w = W(ex, v, st)
        return w.any(lambda x: th.bad(k, x))
    if kind == 'subvec':
        w = W(ex, v, st)
        return w.any(lambda x: subbad(th, k, x))
    w = W(ex, v, st)
    if kind == 'schema':
        return th.bad(k, w)
    if kind == 'subtype':
        return th.opt_bad(k, w)
    if kind == 'optschema':
        return AND(w.some, th.bad(k, w.inner))
    return subbad(th, k, w)


def subbad(th, k, w):
    return th.bad_sub[k](w.v.t) if isinstance(w.v, Sym) else th.sub_bad(k, w)


def make(dump):
    """Executor with the contracts in force."""
    ex = Ex(dump)
    th = Theory(ex)
    ex.contracts = [Check(th), Convert(th)]
    ex.th = th
    ex.generic_loop = lambda key, fr, cfg, h, g, st: worklist(ex, th, key, fr, cfg, h, g, st)
    return ex, th
