"""Contract of building a Thing: the postconditions of the whole `build` function, stated on the
builder handed in and the result handed out.  Every goal is (property, name, formula)."""
import z3
from core import *
from exec import St, forall
from spec import W, Lost, same, rel_seq
from contracts import KINDS, ERR

AFFS = ('properties', 'actions', 'events')
OPS = {
    'properties': ('ReadProperty', 'WriteProperty', 'ObserveProperty', 'UnobserveProperty'),
    'actions': ('InvokeAction', 'QueryAction', 'CancelAction'),
    'events': ('SubscribeEvent', 'UnsubscribeEvent'),
    'thing': ('ReadAllProperties', 'WriteAllProperties', 'ReadMultipleProperties', 'WriteMultipleProperties',
              'ObserveAllProperties', 'UnobserveAllProperties', 'SubscribeAllEvents', 'UnsubscribeAllEvents', 'QueryAllActions'),
}
CTX = {'properties': 'Property', 'actions': 'Action', 'events': 'Event'}


class BuildSpec:
    def __init__(self, ex, th, builder, result):
        self.ex = ex
        self.th = th
        self.b = W(ex, builder)
        self.r = W(ex, result)
        self.ok = self.r.is_('Ok')
        self.err = self.r.is_('Err')
        self.t = self.r.as_('Ok')
        self.e = self.r.as_('Err')
        self.goals = []

    def goal(self, prop, name, f):
        self.goals.append((prop, name, f))

    def okgoal(self, prop, name, f):
        self.goal(prop, name, IMP(self.ok, f))

    # ------------------------------------------------------------ views of the builder
    def pia(self, kind, a):
        """partial interaction of an affordance builder entry"""
        i = a.f('affordance').f('interaction')
        return i if kind == 'properties' else i.f('partial')

    def info(self, kind, a):
        return a.f('affordance').f('info') if kind == 'properties' else a.f('affordance').f('interaction').f('info')

    def b_affs(self, f):
        return AND(*[self.b.f(k).all(lambda a: f(k, a)) for k in AFFS])

    def b_affs_any(self, f):
        return OR(*[self.b.f(k).any(lambda a: f(k, a)) for k in AFFS])

    def opt_all(self, o, f):
        return IMP(o.some, o.inner.all(f))

    def schemas(self):
        """[(name, any: (pred) -> formula 'some schema of this position satisfies pred')]; pred gets a W
        of an unchecked schema or a pair (subtype option, one_of option) for property affordances."""
        b = self.b
        out = [('the schema definitions', lambda p: b.f('schema_definitions').any(lambda kv: p(kv.f(1)))),
               ('the URI variables of the Thing', lambda p: AND(b.f('uri_variables').some, b.f('uri_variables').inner.any(lambda kv: p(kv.f(1)))))]
        for k in AFFS:
            out.append(('the URI variables of %s' % k, lambda p, k=k: b.f(k).any(lambda a: self.pia(k, a).f('uri_variables').any(lambda kv: p(kv.f(1))))))
        for k, n in (('actions', 'input'), ('actions', 'output'), ('events', 'subscription'), ('events', 'data'), ('events', 'data_response'), ('events', 'cancellation')):
            out.append(('%s of %s' % (n, k), lambda p, k=k, n=n: b.f(k).any(lambda a: AND(a.f('affordance').f(n).some, p(a.f('affordance').f(n).inner)))))
        return out

    def bad_partial(self, k, d):
        """A property's data schema (partial: the human readable part is kept elsewhere)."""
        return OR(self.th.opt_bad(k, d.f('subtype')), self.th.oneof_bad(k, d.f('one_of')))

    # ------------------------------------------------------------ the invariant of the builder
    def invariant(self):
        b = self.b
        defs = b.f('security_definitions')
        return [('security names are defined', b.f('security').all(lambda n: defs.any(lambda d: EQ(d.f(0).t, n.t)))),
                ('the context is never empty and starts with a plain one',
                 AND(NOT(b.f('context').empty()), b.f('context').all_i(lambda i, c: IMP(EQ(i, I(0)), c.is_('Simple')))))]

    # ------------------------------------------------------------ properties
    def references(self):
        t, th = self.t, self.th
        defs = t.f('security_definitions')

        def form_ok(f):
            s = f.f('security')
            return IMP(s.some, s.inner.all(lambda n: defs.has(n.t)))
        for k in AFFS:
            o = t.f(k)
            self.okgoal('P01', 'security names of the forms of %s are defined' % k, self.opt_all(o, lambda kv: kv.f(1).f('interaction').f('forms').all(form_ok)))
        self.okgoal('P01', 'security names of Thing forms are defined', self.opt_all(t.f('forms'), form_ok))
        self.okgoal('P01', 'security names of the Thing are defined', t.f('security').all(lambda n: defs.has(n.t)))

        def combo_ok(kv):
            s = kv.f(1).f('subtype')
            known = s.as_('Known')
            c = known.as_('Combo')
            return AND(*[IMP(AND(s.is_('Known'), known.is_('Combo'), c.is_(v)), c.as_(v).all(lambda n: defs.has(n.t))) for v in ('OneOf', 'AllOf')])
        self.okgoal('P01', 'the schemes combined by a combo scheme are defined', defs.all(combo_ok))

        sd = t.f('schema_definitions')

        def resp_ok(f):
            a = f.f('additional_responses')
            return IMP(a.some, a.inner.all(lambda x: IMP(x.f('schema').some, AND(sd.some, sd.inner.has(x.f('schema').inner.t)))))
        for k in AFFS:
            self.okgoal('P03', 'schemas of additional responses in forms of %s are defined' % k, self.opt_all(t.f(k), lambda kv: kv.f(1).f('interaction').f('forms').all(resp_ok)))
        self.okgoal('P03', 'schemas of additional responses in Thing forms are defined', self.opt_all(t.f('forms'), resp_ok))

    def operations(self):
        t = self.t

        def ops_ok(names):
            return lambda f: IMP(f.f('op').is_('Custom'), f.f('op').as_('Custom').all(lambda o: o.isany(*names)))
        for k in AFFS:
            self.okgoal('P02', 'operations of forms of %s are allowed there' % k, self.opt_all(t.f(k), lambda kv: kv.f(1).f('interaction').f('forms').all(ops_ok(OPS[k]))))
        self.okgoal('P02', 'operations of Thing forms are allowed there', self.opt_all(t.f('forms'), lambda f: AND(f.f('op').is_('Custom'), ops_ok(OPS['thing'])(f))))

    def limits(self):
        for n, anyp in self.schemas():
            for k in KINDS:
                self.okgoal('P04', 'no broken limit (%s) in %s' % (k, n), NOT(anyp(lambda d: self.th.bad(k, d))))
        for k in KINDS:
            self.okgoal('P04', 'no broken limit (%s) in the schemas of properties' % k, self.b.f('properties').all(lambda a: NOT(self.bad_partial(k, a.f('affordance').f('data_schema')))))

    def is_container(self, d):
        s = d.f('subtype')
        return AND(s.some, s.inner.isany('Array', 'Object'))

    def uri_variables(self):
        b = self.b
        u = b.f('uri_variables')
        self.okgoal('P05', 'no container among the URI variables of the Thing', self.opt_all(u, lambda kv: NOT(self.is_container(kv.f(1)))))
        for k in AFFS:
            self.okgoal('P05', 'no container among the URI variables of %s' % k, b.f(k).all(lambda a: self.pia(k, a).f('uri_variables').all(lambda kv: NOT(self.is_container(kv.f(1))))))

    def names(self):
        b = self.b
        for k in AFFS:
            self.okgoal('P06', 'names of %s are pairwise different' % k, self.distinct(b.f(k), lambda a: a.f('name').t))
        self.okgoal('P06', 'names of security definitions are pairwise different', self.distinct(b.f('security_definitions'), lambda d: d.f(0).t))

    def distinct(self, s, key):
        return s.all_i(lambda i, x: s.all_i(lambda j, y: IMP(i < j, NOT(EQ(key(x), key(y))))))

    def duplicated(self, s, key, name=None):
        return NOT(s.all_i(lambda i, x: s.all_i(lambda j, y: NOT(AND(i < j, EQ(key(x), key(y)), T if name is None else EQ(key(x), name))))))

    def tag_owners(self):
        """[(name, formula: every tag is well formed)]"""
        b, th = self.b, self.th
        out = [('titles of the Thing', th.ml_ok(b.f('titles'))), ('descriptions of the Thing', th.ml_ok(b.f('descriptions')))]
        out.append(('descriptions of security definitions', b.f('security_definitions').all(lambda d: th.ml_ok(d.f(1).f('descriptions')))))
        l = b.f('links')
        out.append(('languages of links', self.opt_all(l, lambda x: x.f('hreflang').all(lambda s: th.tag_ok(s.t)))))
        for k in AFFS:
            for n in ('titles', 'descriptions'):
                out.append(('%s of %s' % (n, k), b.f(k).all(lambda a: th.ml_ok(self.info(k, a).f(n)))))
        for n, anyp in self.schemas():
            out.append((n, NOT(anyp(lambda d: NOT(th.ok(d))))))
        out.append(('schemas of properties', b.f('properties').all(lambda a: AND(th.opt_ok(a.f('affordance').f('data_schema').f('subtype')), th.oneof_ok(a.f('affordance').f('data_schema').f('one_of'))))))
        return out

    def tags(self):
        for n, f in self.tag_owners():
            self.okgoal('P07', 'language tags of %s are well formed' % n, f)

    def links(self):
        icon = self.ex.lit('icon')
        self.okgoal('P08', 'a link with sizes is an icon', self.opt_all(self.t.f('links'), lambda l: IMP(l.f('sizes').some, AND(l.f('rel').some, EQ(l.f('rel').inner.t, icon)))))

    # ------------------------------------------------------------ nothing lost, nothing invented
    def nonempty_opt(self, o, s, rel):
        """o: Option<container>, absent exactly when s is empty, otherwise related."""
        return AND(EQ(o.some, NOT(s.empty())), IMP(o.some, rel(o.inner, s)))

    def wrel(self, f):
        ex = self.ex
        return lambda x, y: f(W(ex, x), W(ex, y))

    def rel_form(self, o, i):
        ex = self.ex
        cs = [same(ex, o.f(n).v, i.f(n).v) for n in ('op', 'href', 'content_type', 'content_coding', 'subprotocol', 'security', 'scopes', 'response', 'other')]
        cs.append(self.nonempty_opt(o.f('additional_responses'), i.f('additional_responses'), lambda a, b: same(ex, a.v, b.v)))
        return AND(*cs)

    def rel_schema_map(self, o, i):
        """Maps keyed by name; the output one must have been filled without replacing anything."""
        self.need_distinct(o)
        return self.th.rel_map(o, i)

    def need_distinct(self, o):
        ex = self.ex
        if ex.models.maplike(ex, o.v) and not isinstance(o.v, Sym):
            for m in leaves(o.v):
                if isinstance(m, MapV) and not m.distinct:
                    raise Lost('a map is filled by overwriting insertions')

    def rel_interaction(self, o, info, pia):
        ex, th = self.ex, self.th
        cs = [('forms', rel_seq(ex, o.f('forms').seq, pia.f('forms').seq, self.wrel(self.rel_form))),
              ('uri_variables', self.nonempty_opt(o.f('uri_variables'), pia.f('uri_variables'), self.rel_schema_map)),
              ('other', same(ex, o.f('other').v, pia.f('other').v))]
        return cs + self.rel_info(o, info)

    def rel_info(self, o, info):
        ex, th = self.ex, self.th
        return [(n, same(ex, o.f(n).v, info.f(n).v)) for n in ('attype', 'title', 'description')] + \
            [(n, th.ml_rel(o.f(n), info.f(n))) for n in ('titles', 'descriptions')]

    def rel_partial(self, o, info, d):
        ex, th = self.ex, self.th
        cs = self.rel_info(o, info)
        cs += [(n, same(ex, o.f(n).v, d.f(n).v)) for n in ('constant', 'default', 'unit', 'enumeration', 'read_only', 'write_only', 'format', 'other')]
        cs += [('one_of', th.rel_opt_vec(o.f('one_of'), d.f('one_of'))), ('subtype', th.rel_sub(o.f('subtype'), d.f('subtype')))]
        return cs

    def rel_affordance(self, k, o, a):
        ex, th = self.ex, self.th
        A = a.f('affordance')
        cs = [('interaction ' + n, f) for n, f in self.rel_interaction(o.f('interaction'), self.info(k, a), self.pia(k, a))]

        def opt(n):
            return AND(EQ(o.f(n).some, A.f(n).some), IMP(A.f(n).some, th.related(o.f(n).inner.v, A.f(n).inner.v)))
        if k == 'properties':
            cs += [('data schema ' + n, f) for n, f in self.rel_partial(o.f('data_schema'), A.f('info'), A.f('data_schema'))]
            cs += [(n, same(ex, o.f(n).v, A.f(n).v)) for n in ('observable', 'other')]
        elif k == 'actions':
            cs += [(n, opt(n)) for n in ('input', 'output')]
            cs += [(n, same(ex, o.f(n).v, A.f(n).v)) for n in ('safe', 'idempotent', 'synchronous', 'other')]
        else:
            cs += [(n, opt(n)) for n in ('subscription', 'data', 'data_response', 'cancellation')]
            cs += [(n, same(ex, o.f(n).v, A.f(n).v)) for n in ('other',)]
        return cs

    def fidelity(self):
        b, t, ex, th = self.b, self.t, self.ex, self.th

        def g(n, thunk):
            self.okgoal('P09', '%s: nothing lost, changed or invented' % n, thunk())
        for n in ('id', 'attype', 'title', 'description', 'version', 'created', 'modified', 'support', 'base', 'security', 'other'):
            g(n, lambda: same(ex, t.f(n).v, b.f(n).v))
        for n in ('titles', 'descriptions'):
            g(n, lambda: th.ml_rel(t.f(n), b.f(n)))
        g('profile', lambda: self.nonempty_opt(t.f('profile'), b.f('profile'), lambda x, y: same(ex, x.v, y.v)))
        o = t.f('links')
        i = b.f('links')

        def link(x, y):
            cs = [same(ex, x.f(n).v, y.f(n).v) for n in ('href', 'ty', 'rel', 'anchor', 'sizes')]
            cs.append(self.nonempty_opt(x.f('hreflang'), y.f('hreflang'), lambda p, q: rel_seq(ex, p.seq, q.seq, self.wrel(lambda u, v: EQ(u.t, th.tag(v.t))))))
            return AND(*cs)
        g('links', lambda: AND(EQ(o.some, i.some), IMP(i.some, rel_seq(ex, o.inner.seq, i.inner.seq, self.wrel(link)))))
        fo, fi = t.f('forms'), b.f('forms')
        g('forms', lambda: AND(EQ(fo.some, fi.some), IMP(fi.some, rel_seq(ex, fo.inner.seq, fi.inner.seq, self.wrel(self.rel_form)))))
        uo, ui = t.f('uri_variables'), b.f('uri_variables')
        g('uri_variables', lambda: AND(EQ(uo.some, ui.some), IMP(ui.some, self.rel_schema_map(uo.inner, ui.inner))))
        g('schema_definitions', lambda: self.nonempty_opt(t.f('schema_definitions'), b.f('schema_definitions'), self.rel_schema_map))

        def scheme(x, y):
            X, Y = x.f(1), y.f(1)
            return AND(EQ(x.f(0).t, y.f(0).t), *([same(ex, X.f(n).v, Y.f(n).v) for n in ('attype', 'description', 'proxy', 'subtype')] + [th.ml_rel(X.f('descriptions'), Y.f('descriptions'))]))

        def secdefs():
            self.need_distinct(t.f('security_definitions'))
            return rel_seq(ex, t.f('security_definitions').seq, b.f('security_definitions').seq, self.wrel(scheme))
        g('security_definitions', secdefs)
        for k in AFFS:
            o, i = t.f(k), b.f(k)
            self.okgoal('P09', '%s present exactly when given' % k, EQ(o.some, NOT(i.empty())))
            self.need_distinct(o.inner)
            g('names and order of %s' % k, lambda: IMP(o.some, rel_seq(ex, o.inner.seq, i.seq, self.wrel(lambda x, y: EQ(x.f(0).t, y.f('name').t)))))
            parts = []
            rel_seq(ex, o.inner.seq, i.seq, self.wrel(lambda x, y: parts.extend(n for n, _ in self.rel_affordance(k, x.f(1), y)) or T))
            for n in dict.fromkeys(parts):
                g('%s of %s' % (n, k), lambda: IMP(o.some, rel_seq(ex, o.inner.seq, i.seq, self.wrel(lambda x, y: dict(self.rel_affordance(k, x.f(1), y))[n]))))
        self.context()

    def context(self):
        """A single context is written as a string, several as an array in the given order."""
        b, t, ex = self.b, self.t, self.ex
        c = t.f('context')
        ctx = b.f('context')
        n = ex.seq_len(ctx.seq)
        single = EQ(n, I(1))
        self.okgoal('P09', 'a single context is written as a string', IMP(single, AND(c.is_('String'), ctx.all_i(lambda i, x: IMP(EQ(i, I(0)), EQ(c.as_('String').t, x.as_('Simple').t))))))

        def one(x, y):
            cases = [IMP(y.is_('Simple'), AND(x.is_('String'), EQ(x.as_('String').t, y.as_('Simple').t))),
                     IMP(y.is_('Map'), AND(x.is_('Object'), self.ctxmap(x.as_('Object'), y.as_('Map'))))]
            return AND(*cases)
        self.okgoal('P09', 'several contexts are written as an array in order', IMP(NOT(single), AND(c.is_('Array'), rel_seq(ex, c.as_('Array').seq, ctx.seq, self.wrel(one)))))

    def ctxmap(self, o, i):
        ex = self.ex
        self.need_distinct(o)
        return rel_seq(ex, o.seq, i.seq, self.wrel(lambda x, y: AND(EQ(x.f(0).t, y.f(0).t), x.f(1).is_('String'), EQ(x.f(1).as_('String').t, y.f(1).t))))

    # ------------------------------------------------------------ every error names a real violation
    def all_forms_any(self, f):
        """some form (context, form) satisfies f"""
        b = self.b
        out = [b.f(k).any(lambda a: self.pia(k, a).f('forms').any(lambda x: f(k, x))) for k in AFFS]
        o = b.f('forms')
        out.append(AND(o.some, o.inner.any(lambda x: f('thing', x))))
        return OR(*out)

    def defined(self, name):
        return self.b.f('security_definitions').any(lambda d: EQ(d.f(0).t, name))

    def errors(self):
        b, e, ex, th = self.b, self.e, self.ex, self.th

        def g(tag, f):
            self.goal('P11', 'error %s reports a real violation' % tag, IMP(AND(self.err, e.is_(tag)), f))
        n = e.as_('DuplicatedSecurityDefinition').t
        g('DuplicatedSecurityDefinition', self.duplicated(b.f('security_definitions'), lambda d: d.f(0).t, n))
        fo = b.f('forms')
        g('MissingOpInForm', AND(fo.some, fo.inner.any(lambda f: f.f('op').is_('Default'))))
        op = e.as_('InvalidOpInForm', 'operation')
        cx = e.as_('InvalidOpInForm', 'context')

        def badop(k, f):
            c = f.f('op').as_('Custom')
            return AND(f.f('op').is_('Custom'), c.any(lambda o: AND(EQ(ex.disc(o.v), ex.disc(op.v)), NOT(o.isany(*OPS[k])))), cx.is_(CTX.get(k, 'Thing')))
        g('InvalidOpInForm', self.all_forms_any(badop))
        u = e.as_('UndefinedSecurity').t
        g('UndefinedSecurity', AND(NOT(self.defined(u)), self.all_forms_any(lambda k, f: AND(f.f('security').some, f.f('security').inner.any(lambda s: EQ(s.t, u))))))
        for k in KINDS:
            g(ERR[k], OR(*([anyp(lambda d: th.bad(k, d)) for _, anyp in self.schemas()] + [b.f('properties').any(lambda a: self.bad_partial(k, a.f('affordance').f('data_schema')))])))
        dn = e.as_('DuplicatedAffordance', 'name').t
        ty = e.as_('DuplicatedAffordance', 'ty')
        g('DuplicatedAffordance', OR(*[AND(ty.is_(CTX[k]), self.duplicated(b.f(k), lambda a: a.f('name').t, dn)) for k in AFFS]))
        m = e.as_('MissingSchemaDefinition').t
        sd = b.f('schema_definitions')

        def combo_any(d):
            s = d.f(1).f('subtype')
            known = s.as_('Known')
            c = known.as_('Combo')
            return AND(s.is_('Known'), known.is_('Combo'), OR(*[AND(c.is_(v), c.as_(v).any(lambda x: EQ(x.t, m))) for v in ('OneOf', 'AllOf')]))
        g('MissingSchemaDefinition', OR(
            AND(NOT(sd.has(m)), self.all_forms_any(lambda k, f: f.f('additional_responses').any(lambda a: AND(a.f('schema').some, EQ(a.f('schema').inner.t, m))))),
            AND(NOT(self.defined(m)), b.f('security_definitions').any(combo_any))))
        uv = b.f('uri_variables')
        g('InvalidUriVariables', OR(AND(uv.some, uv.inner.any(lambda kv: self.is_container(kv.f(1)))),
                                    self.b_affs_any(lambda k, a: self.pia(k, a).f('uri_variables').any(lambda kv: self.is_container(kv.f(1))))))
        g('InvalidLanguageTag', NOT(AND(*[f for _, f in self.tag_owners()])))
        l = b.f('links')
        icon = ex.lit('icon')
        g('SizesWithRelNotIcon', AND(l.some, l.inner.any(lambda x: AND(x.f('sizes').some, NOT(AND(x.f('rel').some, EQ(x.f('rel').inner.t, icon)))))))
        tags = [v['name'] for v in ex.T[th.ERRTY]['variants']]
        known = {'DuplicatedSecurityDefinition', 'MissingOpInForm', 'InvalidOpInForm', 'UndefinedSecurity', 'DuplicatedAffordance', 'MissingSchemaDefinition',
                 'InvalidUriVariables', 'InvalidLanguageTag', 'SizesWithRelNotIcon'} | set(ERR.values())
        for t in tags:
            if t not in known:
                raise Lost('unknown error %s' % t)


def leaves(v):
    if isinstance(v, Ite):
        return leaves(v.a) + leaves(v.b)
    return [v]
