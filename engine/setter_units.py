"""Units for the builder methods: each root of roots_set executed from its MIR and compared with the
contract in setters.py."""
import time
import z3
from core import *
from exec import St, forall
from spec import W, Lost, same, rel_seq
from units import Gen, Item, UNDECIDED, args_of, hyps_of, why, plain, finish, fresh
import setters


def single(v):
    return Seg((), T, v)


def raw(w):
    return w.v


class Rules:
    def __init__(self, ex, args):
        self.ex = ex
        self.args = [W(ex, a) for a in args]

    def path(self, p):
        parts = p.split('.')
        w = self.args[int(parts[0])]
        for x in parts[1:]:
            w = w.f(int(x) if x.isdigit() else x)
        return w

    def fld(self, w, n):
        return w.f(int(n) if isinstance(n, str) and n.isdigit() else n)

    def names(self, w):
        t = w.tinfo()
        if t['k'] == 'tuple':
            return [str(i) for i in range(len(w.fieldnames()))]
        return [n for n in w.fieldnames()]

    def eqs(self, a, b):
        return same(self.ex, a, b)

    # -------------------------------------------------------- defaults
    def default(self, w, depth=0):
        ex = self.ex
        if depth > 12:
            raise Unsupported('default of a deep type')
        v = w.v
        if isinstance(v, Sc):
            return EQ(v.e, z3.BoolVal(False) if z3.is_bool(v.e) else (I(0) if v.e.sort() == z3.IntSort() else v.e))
        M = ex.models
        if M.maplike(ex, v) or ex.seqlike(v):
            return w.empty()
        ty = w.ty
        if ty is not None and ex.T.isstr(ty):
            return EQ(w.t, ex.lit(''))
        ti = w.tinfo()
        if ti['k'] == 'tuple':
            return AND(*[self.default(w.f(i), depth + 1) for i in range(len(w.fieldnames()))])
        nm = ti.get('name', '')
        if nm.endswith('PhantomData') or ex.T.nvariants(ty) == 0:
            return T
        if ex.T.nvariants(ty) > 1:
            vs = [x['name'] for x in ti['variants']]
            for d in ('None', 'Default'):
                if d in vs:
                    return w.is_(d)
            raise Unsupported('default of %s' % nm)
        return AND(*[self.default(w.f(n), depth + 1) for n in w.fieldnames()])

    # -------------------------------------------------------- one rule
    def rule(self, r, new, old):
        ex = self.ex
        if isinstance(r, dict):
            return self.struct(r, new)
        k = r[0]
        a = self.args
        if k == 'any':
            return T
        if k == 'eq':
            return self.eqs(new, a[r[1]])
        if k == 'val':
            return self.eqs(new, self.path(r[1]))
        if k == 'some':
            return AND(new.some, self.eqs(new.inner, a[r[1]]))
        if k == 'somep':
            return AND(new.some, self.rule(r[1], new.inner, None))
        if k == 'none':
            return new.is_('None')
        if k == 'true':
            return new.e
        if k == 'false':
            return NOT(new.e)
        if k == 'default':
            return self.default(new)
        if k == 'isvar':
            return new.is_(r[1])
        if k == 'var':
            return AND(new.is_(r[1]), self.eqs(new.as_(r[1]), a[r[2]]))
        if k == 'somevar':
            return AND(new.some, new.inner.is_(r[1]), self.eqs(new.inner.as_(r[1]), a[r[2]]))
        if k == 'somevarval':
            return AND(new.some, new.inner.is_(r[1]), self.eqs(new.inner.as_(r[1]), self.path(r[2])))
        if k == 'optvar':
            o = self.path(r[2])
            return AND(EQ(new.some, o.some), IMP(o.some, AND(new.inner.is_(r[1]), self.eqs(new.inner.as_(r[1]), o.inner))))
        if k == 'somepath':
            x = new.inner
            out = [new.some, x.is_(r[1])]
            if r[2] is not None:
                out.append(self.rule(r[2], x.as_(r[1]), None))
            return AND(*out)
        if k == 'stateless':
            ty = self.path(r[1])
            return AND(EQ(new.some, ty.some), IMP(ty.some, AND(*[IMP(ty.inner.is_(n), new.inner.is_(n)) for n in ('Boolean', 'Null')])))
        if k == 'variant':
            return AND(new.is_(r[1]), *[self.rule(x, new.as_(r[1]) if p == '' else self.fld(new.as_(r[1]), p), None) for p, x in r[2].items()])
        if k == 'path':
            out = []
            w = new
            for i, n in enumerate(r[1:]):
                out.append(w.is_(n))
                if i < len(r) - 2:
                    w = w.as_(n)
            return AND(*out)
        if k == 'str':
            return EQ(new.t, ex.lit(r[1]))
        if k == 'cow':
            return OR(*[AND(new.is_(n), EQ(new.as_(n).t, ex.lit(r[1]))) for n in ('Borrowed', 'Owned') if not is_false(new.is_(n))])
        if k == 'num':
            return EQ(new.f(new.fieldnames()[0]).e, I(r[1]))
        if k == 'both':
            return AND(self.eqs(new.f('old'), old), self.eqs(new.f('new'), a[r[1]]))
        if k == 'frame':
            return self.frame(new, self.path(r[1]), r[2])
        if k == 'push':
            return self.seqeq(new, list(old.seq.segs) + [single(raw(a[r[1]]))])
        if k == 'pushif':
            return self.seqeq(new, list(old.seq.segs) + [Seg((), a[r[1]].e, raw(a[r[2]]))])
        if k == 'concat':
            return self.seqeq(new, list(old.seq.segs) + list(a[r[1]].seq.segs))
        if k == 'pushp':
            return self.pushp(new, list(old.seq.segs), r[1])
        if k == 'only':
            return self.pushp(new, [], r[1])
        if k in ('pushopt', 'pushoptp'):
            pre = [Seg(s.b, AND(old.some, s.g), s.v) for s in old.inner.seq.segs]
            body = self.seqeq(new.inner, pre + [single(raw(a[r[1]]))]) if k == 'pushopt' else self.pushp(new.inner, pre, r[1])
            return AND(new.some, body)
        if k in ('ins', 'insp'):
            return self.insert(new, list(self.pairs(old)), r)
        if k in ('insopt', 'insoptp'):
            pre = [Seg(s.b, AND(old.some, s.g), s.v) for s in self.pairs(old.inner)]
            return AND(new.some, self.insert(new.inner, pre, r))
        if k in ('map1', 'map2'):
            kv = [single(Pair(raw(a[r[i]]), raw(a[r[i + 1]]))) for i in range(1, len(r), 2)]
            return self.pairseq(new, kv)
        if k == 'op':
            x = a[r[1]]
            c = new.as_('Custom')
            pre = [Seg(s.b, AND(old.is_('Custom'), s.g), s.v) for s in old.as_('Custom').seq.segs]
            return AND(new.is_('Custom'), self.seqeq(c, pre + [single(raw(x))]))
        if k == 'context':
            x = a[r[1]]
            own = EQ(x.t, ex.lit(setters.TD11))
            segs = list(new.seq.segs)
            # nothing is added for the context every description has; otherwise one plain context
            pre = list(old.seq.segs)
            if len(segs) == len(pre):
                return AND(own, self.segseq(segs, pre))
            last = ex.refresh(segs[-1])
            return AND(self.segseq(segs[:-1], pre), EQ(last.g, NOT(own)), IMP(last.g, ex.under(last, lambda: AND(new.w(last.v).is_('Simple'), EQ(new.w(last.v).as_('Simple').t, x.t)))))
        if k == 'secdef':
            s = a[1]
            name = self.schemename(s, r[1])
            sub = ('any',)

            def check(e):
                d = e.f(1)
                out = [EQ(e.f(0).t, name)]
                out += [self.eqs(d.f(f), s.f(f)) for f in ('attype', 'description', 'descriptions', 'proxy')]
                st = d.f('subtype')
                if r[2] is None:
                    out += [st.is_('Unknown'), self.eqs(st.as_('Unknown'), s.f('subtype'))]
                else:
                    kn = st.as_('Known')
                    out += [st.is_('Known'), kn.is_(r[2])]
                    if r[3] == 'p':
                        out.append(self.eqs(kn.as_(r[2]), s.f('subtype')))
                    elif r[3]:
                        c = kn.as_(r[2])
                        out += [c.is_(r[3]), self.eqs(c.as_(r[3]), s.f('subtype').f(1))]
                return AND(*out)
            return self.pushf(new, list(old.seq.segs), check)
        if k == 'secreq':
            s = a[1]
            name = self.schemename(s, r[1])
            segs = list(new.seq.segs)
            last = segs[-1]
            if last.b:
                raise Unsupported('form of the list of required schemes')
            return AND(self.segseq(segs[:-1], list(old.seq.segs)), EQ(last.g, s.f('required').e), IMP(last.g, EQ(new.w(last.v).t, name)))
        if k == 'nonempty':
            o = self.path(r[1])
            if o.ty is not None and o.tinfo().get('name', '').endswith('Option'):
                return self.eqs(new, o)
            e = o.empty()
            if self.ex.models.maplike(ex, new.inner.v) and not self.ex.models.maplike(ex, o.v):
                # collected: later entries win, which is what the sequence of insertions says
                body = self.pairseq(new.inner, list(o.seq.segs), o)
            else:
                body = self.eqs(new.inner, o)
            return AND(EQ(new.some, NOT(e)), IMP(NOT(e), body))
        raise Unsupported('rule %s' % k)

    def schemename(self, s, kind):
        """The name a scheme is stored under."""
        ex = self.ex
        d = s.f('subtype').f('scheme').t if kind == 'custom' else ex.lit(kind)
        n = s.f('name')
        return IF(n.some, n.inner.t, d)

    def insert(self, new, pre, r):
        k = self.args[r[1]]
        segs = self.pairs(new)
        if not segs or segs[-1].b or not is_true(segs[-1].g):
            raise Unsupported('form of the map')
        last = new.w(segs[-1].v)
        v = self.eqs(last.f(1), self.args[r[2]]) if r[0] in ('ins', 'insopt') else self.rule(r[2], last.f(1), None)
        return AND(self.pairsegs(segs[:-1], pre), self.eqs(last.f(0), k), v)

    def pairs(self, w):
        return list(self.ex.models.as_map(self.ex, w.v).pairs.segs)

    def pairsegs(self, a, b):
        ex = self.ex
        return rel_seq(ex, SeqV(tuple(a)), SeqV(tuple(b)), lambda x, y: AND(same(ex, ex.proj(x, 0, 0), ex.proj(y, 0, 0)), same(ex, ex.proj(x, 0, 1), ex.proj(y, 0, 1))))

    def pairseq(self, new, kv, old=None):
        return self.pairsegs(self.pairs(new), kv)

    def segseq(self, a, b):
        return rel_seq(self.ex, SeqV(tuple(a)), SeqV(tuple(b)), lambda x, y: same(self.ex, x, y))

    def seqeq(self, new, segs):
        return self.segseq(list(new.seq.segs), segs)

    def pushf(self, new, pre, f):
        segs = list(new.seq.segs)
        if not segs or segs[-1].b or not is_true(segs[-1].g):
            # not made by appending: by positions
            ex = self.ex
            s, n = ex.models.total(ex, SeqV(tuple(segs)))
            o, m = ex.models.total(ex, SeqV(tuple(pre)))
            return AND(EQ(n, m + 1), self.segseq(list(ex.models.part(ex, s, I(0), m).segs), list(o.segs)), f(new.w(ex.index(s, m))))
        return AND(self.segseq(segs[:-1], pre), f(new.w(segs[-1].v)))

    def pushp(self, new, pre, spec):
        return self.pushf(new, pre, lambda w: self.rule(spec, w, None))

    def struct(self, spec, w):
        """Every field listed obeys its rule, '*' gives the rule of the others."""
        out = []
        ns = self.names(w)
        for k in spec:
            if k != '*' and k not in ns:
                raise Lost('no field %s' % k)
        for n in ns:
            if n == '_marker':
                continue
            r = spec.get(n, spec.get('*'))
            if r is None:
                raise Lost('no rule for field %s' % n)
            out.append(self.rule(r, self.fld(w, n), None))
        return AND(*out)

    # -------------------------------------------------------- frames
    def frame_goals(self, new, old, rules, prefix=''):
        """[(path, formula)]"""
        out = []
        tree = {}
        for p, r in rules.items():
            h, _, t = p.partition('.')
            tree.setdefault(h, []).append((t, r))
        ns = self.names(new)
        for h in tree:
            if h not in ns:
                raise Lost('no field %s' % h)
        for n in ns:
            if n == '_marker':
                continue
            nw = self.fld(new, n)
            ow = self.fld(old, n) if old is not None and n in self.names(old) else None
            if n in tree:
                sub = {t: r for t, r in tree[n] if t}
                if sub:
                    out += self.frame_goals(nw, ow, sub, prefix + n + '.')
                else:
                    out.append((prefix + n, lambda nw=nw, ow=ow, r=tree[n][0][1]: self.rule(r, nw, ow)))
            elif old is None:
                out.append((prefix + n, lambda nw=nw: self.default(nw)))
            elif ow is None:
                raise Lost('field %s has no source' % n)
            else:
                out.append((prefix + n + ' is kept', lambda nw=nw, ow=ow: self.eqs(nw, ow)))
        return out

    def frame(self, new, old, rules):
        return AND(*[f() for _, f in self.frame_goals(new, old, rules)])


# ---------------------------------------------------------------- invariants of the builder types
PARTS = {'constant': 'opt', 'one_of': 'seq', 'enumeration': 'seq', 'read_only': 'bool', 'write_only': 'bool'}


def pristine(w, but=()):
    out = []
    for f, k in PARTS.items():
        if f in but:
            continue
        x = w.f(f)
        out.append(x.is_('None') if k == 'opt' else x.empty() if k == 'seq' else NOT(x.e))
    return AND(*out)


def adt(w):
    try:
        return w.tinfo().get('name', '').split('::')[-1].split('<')[0]
    except (Lost, KeyError, AttributeError):
        return ''


def core(w):
    """The part of a data schema builder that holds the members of the kinds."""
    n = adt(w)
    return w if n == 'PartialDataSchemaBuilder' else core(w.f('partial' if n == 'DataSchemaBuilder' else 'data_schema' if n == 'PropertyAffordanceBuilder' else 'inner'))


def typeinv(ex, w, but=()):
    """[(name, formula)]: what the methods of the crate guarantee about a value of this type."""
    n = adt(w)
    if n == 'PartialDataSchemaBuilder':
        return [('nothing of the kinds is set', pristine(w, but))]
    if n == 'DataSchemaBuilder':
        return typeinv(ex, w.f('partial'), but)
    if n == 'ReadOnly':
        return typeinv(ex, w.f('inner'), set(but) | {'read_only'})
    if n == 'WriteOnly':
        return typeinv(ex, w.f('inner'), set(but) | {'write_only'}) + [('the schema is marked write-only', core(w).f('write_only').e)]
    if n.endswith('DataSchemaBuilder') and n != 'PropertyAffordanceBuilder':
        own = {'EnumDataSchemaBuilder': {'enumeration'}, 'OneOfDataSchemaBuilder': {'one_of'}}.get(n, set())
        if n == 'StatelessDataSchemaBuilder':
            # a constant has no type, a boolean or null schema no constant
            i = w.f('inner')
            c = core(i).f('constant')
            return typeinv(ex, i, set(but) | {'constant'}) + [('a typed schema has no constant', IMP(w.f('ty').some, c.is_('None')))]
        return typeinv(ex, w.f('inner'), set(but) | own) + [('the alternatives are not empty', NOT(core(w.f('inner')).f(x).empty())) for x in own]
    if n == 'PropertyAffordanceBuilder':
        return typeinv(ex, w.f('data_schema'), but)
    if n == 'ThingBuilder':
        return thing_inv(ex, w)
    if n == 'FormBuilder':
        return [('%s is absent or not empty' % f, IMP(w.f(f).some, NOT(w.f(f).as_('Some').empty()))) for f in ('security', 'scopes')]
    return []


def first_is(ex, w, p):
    """The sequence is not empty and its first element satisfies p."""
    def go(segs):
        if not segs:
            return Fa
        s = segs[0]
        if not s.b:
            return IF(s.g, ex.under(s, lambda: p(w.w(s.v))), go(segs[1:]))
        if len(s.b) != 1 or not is_true(s.g):
            # the first element which passes the condition, if there is one
            s = ex.refresh(s)
            h, sub = ex.first(s.b, s.g)
            return IF(h, p(w.w(subst(s.v, sub))), go(segs[1:]))
        x, hi = s.b[0]
        v = subst(s.v, [(x, I(0))])
        return IF(hi > 0, p(w.w(v)), go(segs[1:]))
    return go(list(w.seq.segs))


def thing_inv(ex, b):
    defs = b.f('security_definitions')
    return [('the schemes required are defined', b.f('security').all(lambda n: defs.any(lambda d: EQ(d.f(0).t, n.t)))),
            ('the context starts with a plain one', first_is(ex, b.f('context'), lambda c: c.is_('Simple')))]


class SetterUnit:
    roots = 'roots_set'

    def __init__(self, entry):
        self.e = entry
        self.name = 'builder method %s' % entry.name

    def generate(self, dump, off, props):
        t = time.time()
        g = Gen(self.name)
        ex = plain(dump)
        e = self.e
        try:
            key = dump['roots']['root_' + e.name]
            b = ex.F[key]
            st = St()
            a = args_of(ex, b, st)
            hinv = []
            for x in a:
                hinv += [f for _, f in typeinv(ex, W(ex, x))]
            r = ex.run_body(key, a, st)
            rg = list(ex.retg)
            R = Rules(ex, a)
            new = W(ex, r)
            goals = []
            if 'P10' in props:
                old = R.args[e.base] if e.base is not None else None
                for n, f in R.frame_goals(new, old, e.frame):
                    goals.append(('%s: %s' % (e.name, n), f(), 'post'))
                if not goals and adt(new) != 'SecuritySchemeBuilder':
                    goals.append((e.name + ': result', T, 'post'))
            ti = typeinv(ex, new)
            if adt(new) == 'ThingBuilder' and {'P01', 'P12'} & props or 'P10' in props and adt(new) != 'ThingBuilder':
                for n, f in ti:
                    goals.append(('%s: %s' % (e.name, n), f, 'type invariant'))
            hy = hyps_of(ex) + hinv
            for n, f, k in goals:
                g.items.append(Item(n, k, hy + rg, f))
            for o in ex.obls:
                if o.kind != 'panic':
                    g.items.append(Item(o.name, 'loop invariant', hy + list(o.pc), o.goal))
                elif {'P12'} & props:
                    g.items.append(Item(e.name + ': ' + o.name, 'panic', hy + list(o.pc), o.goal))
            g.probes.append(Item('contradiction', 'probe', hy + rg, Fa))
        except UNDECIDED as x:
            g.undecided.append((self.name, why(x)))
        return finish(g, ex, t)


def maps_in(v):
    """Terms of the maps built inside a value."""
    out, todo = set(), [v]
    while todo:
        x = todo.pop()
        if isinstance(x, MapV):
            out.add(x.t.get_id())
        elif isinstance(x, Adt):
            todo += [y for fs in x.f.values() for y in fs] if isinstance(x.f, dict) else [y for fs in x.f for y in fs]
        elif isinstance(x, Ite):
            todo += [x.a, x.b]
        elif isinstance(x, (BoxV, RefV)):
            todo.append(x.v)
    return out


class DirectUnit:
    """A builder converted straight into a schema of a Thing: accepted, and the same schema, exactly as the contract of
    the conversion says of the schema the builder stands for (whose own contract is that of the other root)."""
    roots = 'roots_set'

    def __init__(self, name, ref):
        self.root, self.ref = name, ref
        self.name = 'direct conversion %s' % name

    def generate(self, dump, off, props):
        t = time.time()
        g = Gen(self.name)
        ex, th = fresh(dump, off)
        try:
            st = St()
            key = dump['roots']['root_' + self.root]
            a = args_of(ex, ex.F[key], st)
            inv = [f for _, f in typeinv(ex, W(ex, a[0]))]
            u = ex.run_body(dump['roots']['root_' + self.ref], a, st)
            rg = list(ex.retg)
            n = len(ex.obls)
            r = ex.run_body(key, a, st)
            rg += list(ex.retg)
            c = next(c for c in ex.contracts if type(c).__name__ == 'Convert')
            ex.survivors |= maps_in(u)      # a name given twice to an object schema: the later schema counts
            goals = c.goals(ex, ex.F[key], [u], r, St())
            hy = hyps_of(ex) + inv
            for o in ex.obls[n:]:
                if o.kind != 'panic' or 'P12' in props:
                    g.items.append(Item(o.name, o.kind, hy + list(o.pc), o.goal))
            for n, f in goals:
                tags = n.startswith(('converted exactly', 'the error'))
                if 'P09' in props or 'P07' in props and tags:
                    g.items.append(Item('%s: %s' % (self.root, n), 'post', hy + rg, f))
            g.probes.append(Item('contradiction', 'probe', hy + rg, Fa))
        except UNDECIDED as x:
            g.undecided.append((self.name, why(x)))
        return finish(g, ex, t)
