"""Contracts of the readers: what reading each type of the crate gives, for every presence of its entries
(P16, P18, P17, P20, P21).

The real Deserialize implementation (derived or written by hand, adapters of serde_with and the
closures of serde included) is executed on an object whose entries are those the writer contracts
give (engine/ser_units.py), each present under a free guard.  Assumed: the data model of serde, that
is how its deserializers hand over a value (a tree) to the visitor they are given, and that std types
and extension types read what they have written.  Reading a nested value of another type of the
crate is a call of the contract of that type: it gives back the value written.
"""
import z3
from core import *
from exec import St, forall
from spec import W, Lost, same, rel_seg
from ser_units import WriterUnit, Trees, TABLE, INTER, ENUMS, SUBTYPES, SCHEMES, LIMITS, COMBO, PROTO
from value_units import ValueUnit
import values

DE = 'serde::Deserialize::deserialize'
INTS = ('U64', 'I64')
ALL = frozenset(('Null', 'Bool', 'U64', 'I64', 'F64', 'Str', 'Seq', 'Obj'))


class ReadTrees(Trees):
    """The tree of a value by name: ser.T(value), except for scalars and texts."""

    def of(self, v, st=None):
        ex = self.ex
        v = ex.full_deref(v, st or St())
        if isinstance(v, Sc):
            return Trees.of(self, v)
        s = ex.models.strterm(ex, v, St())
        if s is not None:
            return self.string(s)
        ty = ex.adt_ty(v)
        if ex.T[ty]['k'] == 'adt' and ex.T[ty]['name'].split('::')[-1] in ('Option', 'Cow'):
            return Trees.of(self, v)
        return self.opaque(v, ty)


class Missing(Exception):
    pass


class Reader:
    """The data model: hook for the executor."""

    def __init__(self, unit, ex, dump, trees):
        self.unit = unit
        self.ex = ex
        self.dump = dump
        self.trees = trees
        self.index = index(dump, ex)
        self.tagof = {}
        for n, k in dump['roots'].items():
            if n.startswith('root_ser_'):
                ty = ex.F[k]['locals'][1]
                while ex.T[ty]['k'] == 'ref':
                    ty = ex.T[ty]['ty']
                self.tagof[ex.canon[ty]] = n[9:]
        self.bykey = {}
        self.top = None
        self.first = True
        self.skip = False
        self.valued = {}

    # -------------------------------------------------------------- trees
    def tname(self, ty):
        t = self.ex.T[ty]
        return (t.get('name') or t['k']).split('::')[-1]

    def sername(self, tree):
        """(type key, term) of the tree ser.T(term)."""
        if isinstance(tree, Sym):
            d = tree.t.decl().name()
            if d.startswith('ser.') and d[4:].isdigit() and tree.t.num_args() == 1:
                return int(d[4:]), tree.t.arg(0)
        return None

    def kinds(self, tree):
        """The kinds this tree can have, syntactically."""
        ex = self.ex
        if isinstance(tree, Ite):
            return self.kinds(tree.a) | self.kinds(tree.b)
        if isinstance(tree, Adt) and z3.is_int_value(tree.disc):
            return frozenset((ex.T[tree.ty]['variants'][tree.disc.as_long()]['name'],))
        n = self.sername(tree)
        if n:
            ty = self.trees.types.get(n[0])
            if ty is not None:
                return self.written(ty)
        if isinstance(tree, Sym) and tree.t.decl().name() == 'ser.rfc3339':
            return frozenset(('Str',))
        return ALL

    def written(self, ty):
        """Kinds of what is written for values of a type."""
        n = self.tname(ty)
        tag = self.tagof.get(self.ex.canon[ty])
        if tag == 'coap_size':
            return frozenset(('U64',))
        if tag in ENUMS:
            return frozenset(('Str',))
        if tag == 'elems':
            return frozenset(('Seq', 'Obj'))
        if tag == 'ops':
            return frozenset(('Seq',))
        if tag:
            return frozenset(('Obj',))
        if n in ('Vec',):
            return frozenset(('Seq',))
        if n in ('HashMap', 'BTreeMap', 'Map'):
            return frozenset(('Obj',))
        if n in ('LanguageTag', 'String', 'str'):
            return frozenset(('Str',))
        if n.startswith('NonZero'):
            return frozenset(('U64',))
        return ALL

    def accepted(self, ty):
        n = self.tname(ty)
        tag = self.tagof.get(self.ex.canon[ty])
        if tag in ENUMS:
            return frozenset(('Str', 'Obj') + INTS)
        if tag == 'ds':
            return frozenset(('Obj',))       # proved: NotAListUnit
        if tag:
            return ALL
        if n == 'Vec':
            return frozenset(('Seq',))
        if n in ('HashMap', 'BTreeMap', 'Map'):
            return frozenset(('Obj',))
        if n in ('LanguageTag', 'String', 'str'):
            return frozenset(('Str',))
        if n.startswith('NonZero'):
            return frozenset(INTS)
        return ALL

    # -------------------------------------------------------------- results
    def ok(self, rty, v):
        return Adt(rty, 0, {0: (v,)})

    def err(self, rty):
        ex = self.ex
        ety = ex.T.fields(rty, 1)[0][1]
        return Adt(rty, 1, {1: (Sym(z3.Const('error.%d' % ex.tkey(ety), V), ety),)})

    def valty(self, rty):
        return self.ex.T.fields(rty, 0)[0][1]

    # -------------------------------------------------------------- sources
    def tree_of(self, v, st):
        ex = self.ex
        v = ex.full_deref(v, st) if isinstance(v, (RefV,)) else v
        if isinstance(v, Opq):
            if v.kind in ('de', 'content'):
                return v.d['tree']
            raise Unsupported('deserializer %s' % v.kind)
        if isinstance(v, Ite):
            return ex.merge(v.c, self.tree_of(v.a, st), self.tree_of(v.b, st))
        n = self.tname(ex.adt_ty(v))
        if n == 'TreeDe':
            return ex.proj(v, 0, 0)
        if n == 'NameDe':
            return self.trees.string(ex.models.strterm(ex, ex.proj(v, 0, 0), st))
        if n in ('ContentDeserializer', 'ContentRefDeserializer'):
            return self.content(W(ex, v).f('content').v, st)
        if n == 'FlatMapDeserializer':
            return self.trees.mk('Obj', self.flat(v, st))
        if n == 'MissingFieldDeserializer':
            return Opq('missing')
        if n == 'Value':
            return self.held(v, st)
        raise Unsupported('deserializer %s' % ex.tname(ex.adt_ty(v)))

    def held(self, v, st):
        """The tree a JSON value stands for, used as a source of data."""
        ex = self.ex
        v = ex.full_deref(v, st)
        if isinstance(v, Ite):
            return ex.merge(v.c, self.held(v.a, st), self.held(v.b, st))
        if isinstance(v, Adt) and z3.is_int_value(v.disc):
            k = ex.T[v.ty]['variants'][v.disc.as_long()]['name']
            x = W(ex, v).as_(k).v if k != 'Null' else None
            if k == 'Object':
                return self.trees.mk('Obj', ex.map_seq(ex.models.as_map(ex, x).pairs, lambda p: ex.models.tup(ex, ex.proj(p, 0, 0), self.held(ex.proj(p, 0, 1), st))))
            if k == 'String':
                return self.trees.string(ex.models.strterm(ex, x, st))
        if isinstance(v, Sym):
            t = self.valued.get(v.t.get_id())
            if t is not None:
                return t[1]
            if v.t.decl().name() == 'rd.%d' % ex.tkey(v.ty):
                return Sym(v.t.arg(0), self.trees.ty)
            return Sym(ex.pfn('ser.%d' % ex.tkey(v.ty), [V], V)(v.t), self.trees.ty)
        raise Unsupported('JSON value as a source')

    def content(self, v, st):
        ex = self.ex
        v = ex.full_deref(v, st)
        if isinstance(v, Opq):
            return v.d['tree']
        if isinstance(v, Ite):
            return ex.merge(v.c, self.content(v.a, st), self.content(v.b, st))
        w = W(ex, v)
        if isinstance(v, Adt) and z3.is_int_value(v.disc):
            k = ex.T[v.ty]['variants'][v.disc.as_long()]['name']
            x = w.as_(k).v
            if k in ('String', 'Str'):
                return self.trees.string(ex.models.strterm(ex, x, st))
            if k == 'Map':
                return self.trees.mk('Obj', ex.map_seq(ex.as_seq(x), lambda p: ex.models.tup(ex, self.keystr(ex.proj(p, 0, 0), st), self.content(ex.proj(p, 0, 1), st))))
        raise Unsupported('buffered content')

    def keystr(self, c, st):
        t = self.content(c, st)
        return W(self.ex, t).as_('Str').v

    def flat(self, v, st):
        """Entries left in the buffer of a flattening reader."""
        ex = self.ex
        seq = ex.deref(ex.proj(v, 0, 0), st)
        out = []
        for s in ex.as_seq(seq).segs:
            o = s.v
            g = AND(s.g, EQ(ex.disc(o), I(1)))
            if is_false(g):
                continue
            p = ex.proj(o, 1, 0)
            out.append(Seg(s.b, g, ex.models.tup(ex, self.keystr(ex.proj(p, 0, 0), st), self.content(ex.proj(p, 0, 1), st))))
        return SeqV(tuple(out))

    def key(self, pair):
        ex = self.ex
        return ex.models.strterm(ex, ex.proj(pair, 0, 0), St())

    def entries(self, tree):
        """The entries of an object tree."""
        w = W(self.ex, tree)
        return self.ex.as_seq(w.as_('Obj').v)

    def isobj(self, tree):
        return isinstance(tree, Adt) and z3.is_int_value(tree.disc) and self.kinds(tree) == frozenset(('Obj',))

    # -------------------------------------------------------------- calls
    def inst(self, d, ty):
        return self.index.get((d, self.ex.canon[ty]))

    def visit(self, method, vty, visitor, args, st):
        r = self.inst('serde::de::Visitor::' + method, vty)
        if r is None:
            raise Unsupported('%s of %s' % (method, self.ex.tname(vty)))
        return self.ex.call_inst(r, [visitor] + args, st, None)

    def split(self, tree, st, f):
        """Case distinction on a conditional tree."""
        ex = self.ex
        if isinstance(tree, Ite):
            out = []
            for c, x in ((tree.c, tree.a), (NOT(tree.c), tree.b)):
                ex.pcs.append(c)
                try:
                    out.append(self.split(x, st.copy(), f))
                finally:
                    ex.pcs.pop()
            return ex.merge(tree.c, out[0], out[1])
        return f(tree, st)

    def read(self, rty, tree, st, ty=None):
        """Result of reading a value from a tree."""
        ty = self.valty(rty) if ty is None else ty
        return self.split(tree, st, lambda t, s: self.read1(rty, ty, t, s))

    def read1(self, rty, ty, tree, st):
        ex = self.ex
        t = ex.T[ty]
        n = self.tname(ty)
        name = t.get('name') or ''
        if isinstance(tree, Opq) and tree.kind == 'missing':
            if n in ('Option', 'DeserializeAsWrap', 'Wrapper') or name.startswith('wot_td') and ex.canon[ty] not in self.tagof:
                return self.execute(ty, tree, st)
            return self.err(rty)
        if n == 'Content':
            return self.ok(rty, Opq('content', tree=tree))
        if n == 'IgnoredAny':
            return self.ok(rty, Adt(ty, 0, {0: ()}))
        k = self.kinds(tree)
        if ex.T.isstr(ty) or n == 'String':
            if k == {'Str'} and isinstance(tree, Adt):
                return self.ok(rty, Sym(ex.models.strterm(ex, W(ex, tree).as_('Str').v, st), ty))
            return self.guess(rty, ty, tree, k, ('Str',))
        if t['k'] == 'bool':
            if k == {'Bool'}:
                return self.ok(rty, W(ex, tree).as_('Bool').v)
            return self.guess(rty, ty, tree, k, ('Bool',))
        if t['k'] == 'float':
            if k == {'F64'} and isinstance(tree, Adt):
                return self.ok(rty, W(ex, tree).as_('F64').v)
            return self.guess(rty, ty, tree, k, ('F64',) + INTS)
        if t['k'] in ('uint', 'int'):
            if len(k) == 1 and isinstance(tree, Adt) and list(k)[0] in INTS:
                e = W(ex, tree).as_(list(k)[0]).e
                return ex.merge(ex.range_fact(e, ty), self.ok(rty, Sc(e, ty)), self.err(rty))
            return self.guess(rty, ty, tree, k, INTS)
        if n in ('Option', 'Box'):
            return self.execute(ty, tree, st)
        tag = self.tagof.get(ex.canon[ty])
        ext = self.ext(ty)
        if n == 'DeserializeAsWrap':
            a = t['args']
            if self.tname(a[0]) == 'Vec' and self.tname(a[1]) == 'Vec' and self.tname(ex.T[a[1]]['args'][0]) == 'Same':
                # the list adapter of serde_with with unchanged elements: a list like any other
                r = self.read(self.result_of(a[0]), tree, st, a[0])
                return self.mapok(rty, r, lambda v: self.wrap(ty, v))
        leaf = n in ('Vec', 'HashMap', 'BTreeMap', 'Map', 'LanguageTag', 'Value', 'OffsetDateTime') or n.startswith('NonZero') or ext or tag
        if not leaf:
            return self.execute(ty, tree, st)
        if self.isobj(tree):
            if ext:
                return self.extension(rty, ty, tree)
            if n == 'Value':
                return self.value(rty, ty, tree)
            if tag:
                return self.execute(ty, tree, st)
        if tag and (self.top == ex.canon[ty]) and isinstance(tree, Adt):
            return self.execute(ty, tree, st)
        s = self.sername(tree)
        if s and s[0] == ex.tkey(ty):
            return self.ok(rty, ex.mkany(s[1], ty))
        if s and tag == 'addresp' and self.trees.types[s[0]] in self.lists_of(ty):
            return self.err(rty)             # proved: NotAListUnit
        return self.guess(rty, ty, tree, k, self.accepted(ty))

    def lists_of(self, ty):
        ex = self.ex
        return [i for i in range(len(ex.T.t)) if ex.T[i]['k'] == 'adt' and self.tname(i) == 'Vec' and ex.canon[ex.T[i]['args'][0]] == ex.canon[ty]]

    def ext(self, ty):
        return (self.ex.T[ty].get('name') or '').startswith('roots_ser::') and self.ex.canon[ty] not in self.tagof

    def wrap(self, ty, v):
        ex = self.ex
        fs = []
        for n, t in ex.T.fields(ty, 0):
            fs.append(v if n == 'value' else Adt(t, 0, {0: ()}))
        return Adt(ty, 0, {0: tuple(fs)})

    def guess(self, rty, ty, tree, k, acc):
        """Unspecified result for a tree of a kind the type accepts."""
        ex = self.ex
        if not set(k) & set(acc):
            return self.err(rty)
        t = ex.models.term_of(ex, tree, St())
        n = ex.tkey(ty)
        okk = ex.pfn('rd.ok.%d' % n, [V], BOOL)(t)
        if not set(k) <= set(acc):
            d = ex.disc(tree)
            vs = [v['name'] for v in ex.T[self.trees.ty]['variants']]
            okk = AND(okk, OR(*[EQ(d, I(vs.index(a))) for a in acc]))
        return ex.merge(okk, self.ok(rty, ex.mkany(ex.pfn('rd.%d' % n, [V], V)(t), ty)), self.err(rty))

    def execute(self, ty, tree, st):
        r = self.inst(DE, ty)
        if r is None:
            raise Unsupported('reader of %s' % self.ex.tname(ty))
        self.skip = True
        return self.ex.call_inst(r, [Opq('de', tree=tree)], st, None)

    def extension(self, rty, ty, tree):
        """An extension type reads its own entry, whatever else is there."""
        ex = self.ex
        lit = ex.lit('*' + self.tname(ty))
        r = None
        for s in self.entries(tree).segs:
            if s.b:
                continue
            g = AND(s.g, EQ(self.key(s.v), lit))
            if is_false(g):
                continue
            c = self.sername(ex.proj(s.v, 0, 1))
            cty = ex.T.fields(ty, 0)[0][1]
            if not c or c[0] != ex.tkey(cty):
                raise Unsupported('content of an extension')
            v = self.ok(rty, Adt(ty, 0, {0: (ex.mkany(c[1], cty),)}))
            r = v if r is None and is_true(g) else ex.merge(g, v, r if r is not None else self.absent(rty, ty))
        return r if r is not None else self.absent(rty, ty)

    def absent(self, rty, ty):
        return self.err(rty)

    def value(self, rty, ty, tree):
        ex = self.ex
        k = [x['name'] for x in ex.T[ty]['variants']].index('Object')

        def back(p):
            t = ex.proj(p, 0, 1)
            s = self.sername(t)
            if not s or s[0] != ex.tkey(ty):
                x = ex.pfn('rd.%d' % ex.tkey(ty), [V], V)(ex.models.term_of(ex, t, St()))
                self.valued[x.get_id()] = x, t
                return ex.models.tup(ex, ex.proj(p, 0, 0), ex.mkany(x, ty))
            return ex.models.tup(ex, ex.proj(p, 0, 0), ex.mkany(s[1], ty))
        seq = ex.map_seq(self.entries(tree), back)
        return self.ok(rty, Adt(ty, k, {k: (MapV(seq, ex.fresh('map', V), True),)}))

    # -------------------------------------------------------------- the hook
    def __call__(self, ex, c, st, defname):
        d = c.d
        last = d.split('::')[-1]
        if d == DE:
            if self.skip:
                self.skip = False
                return NotImplemented
            if self.first:
                self.first = False
                return self.execute(self.valty(c.destty), self.tree_of(c.args[0], st), st)
            de = c.args[0]
            if isinstance(de, Adt) and self.tname(de.ty) == 'FlatMapDeserializer':
                n = self.tname(self.valty(c.destty))
                if n not in ('Content', 'Value') and not self.ext(self.valty(c.destty)):
                    return NotImplemented
            return self.read(c.destty, self.tree_of(de, st), st)
        if d.startswith('serde::Deserializer::'):
            if last == 'is_human_readable':
                return Sc(T, c.destty)
            if last.startswith('deserialize_'):
                return self.deserialize(c, last[12:], st)
            if last == '__deserialize_content_v1':
                return self.ok(c.destty, Opq('content', tree=self.tree_of(c.args[0], st)))
        if d.startswith('serde::de::MapAccess::'):
            return self.access(c, last, st)
        if d.startswith('serde::de::SeqAccess::'):
            return self.elements(c, last, st)
        if d.startswith('serde::de::EnumAccess::variant'):
            a = c.args[0]
            if not (isinstance(a, Opq) and a.kind == 'enum'):
                raise Unsupported('enum access')
            pty = self.valty(c.destty)
            tys = ex.T[pty]['tys']
            r = self.read(c.destty, self.trees.string(a.d['key']), st, tys[0])
            return self.mapok(c.destty, r, lambda v: ex.models.tup(ex, v, Opq('variant', tree=a.d['tree'])))
        if d.startswith('serde::de::VariantAccess::'):
            a = c.args[0]
            tree = a.d['tree']
            if last == 'unit_variant':
                return self.ok(c.destty, ex.models.unit(ex)) if tree is None else self.err(c.destty)
            if last.startswith('newtype_variant') and tree is not None:
                return self.read(c.destty, tree, st)
            return self.err(c.destty)
        if d.startswith('serde::de::Error::'):
            return Sym(z3.Const('error.%d' % ex.tkey(c.destty), V), c.destty)
        if defname.endswith('serde_with::utils::size_hint_cautious'):
            return Sc(I(1), c.destty)
        if defname == 'time::serde::rfc3339::option::deserialize':
            return self.time(c, st)
        if defname.startswith('serde_json') and last == 'is_empty':
            return Sc(ex.models.map_empty(ex, ex.full_deref(c.args[0], st)), c.destty)
        return NotImplemented

    def mapok(self, rty, r, f):
        """Result of another type with the same outcome."""
        ex = self.ex
        if isinstance(r, Ite):
            return ex.merge(r.c, self.mapok(rty, r.a, f), self.mapok(rty, r.b, f))
        e = EQ(ex.disc(r), I(0))
        if is_false(e):
            return self.err(rty)
        return ex.merge(e, self.ok(rty, f(ex.proj(r, 0, 0))), self.err(rty))

    def time(self, c, st):
        ex = self.ex
        rty = c.destty
        oty = self.valty(rty)

        def one(t, s):
            k = self.kinds(t)
            if k == {'Null'}:
                return self.ok(rty, Adt(oty, 0, {0: ()}))
            if isinstance(t, Sym) and t.t.decl().name() == 'ser.rfc3339':
                return self.ok(rty, Adt(oty, 1, {1: (ex.mkany(t.t.arg(0), ex.T.fields(oty, 1)[0][1]),)}))
            raise Unsupported('time')
        return self.split(self.tree_of(c.args[0], st), st, one)

    def deserialize(self, c, how, st):
        ex = self.ex
        de = c.args[0]
        visitor = c.args[-1]
        vty = c.targs[-1]
        n = self.tname(ex.adt_ty(de)) if isinstance(de, (Adt, Sym)) else ''
        if n == 'FlatMapDeserializer':
            if how == 'option':
                return self.visit('__private_visit_untagged_option', vty, visitor, [de], st)
            if how == 'enum':
                return self.flat_enum(c, de, visitor, vty, st)
            if how == 'struct':
                return self.flat_struct(c, de, visitor, vty, st)
            if how == 'newtype_struct':
                return self.visit('visit_newtype_struct', vty, visitor, [de], st)
            if how not in ('any', 'map', 'ignored_any'):
                raise Unsupported('flattened %s' % how)
        return self.split(self.tree_of(de, st), st, lambda t, s: self.hand(c.destty, how, vty, visitor, t, s))

    def hand(self, rty, how, vty, visitor, tree, st):
        """How a tree is handed over to a visitor."""
        ex = self.ex
        if isinstance(tree, Opq) and tree.kind == 'missing':
            if how == 'option':
                return self.visit('visit_none', vty, visitor, [], st)
            return self.err(rty)
        vn = self.tname(vty)
        k = self.kinds(tree)
        if how == 'option':
            if k == {'Null'}:
                return self.visit('visit_none', vty, visitor, [], st)
            some = lambda: self.visit('visit_some', vty, visitor, [Opq('de', tree=tree)], st)
            if 'Null' not in k:
                return some()
            null = EQ(ex.disc(tree), I([v['name'] for v in ex.T[self.trees.ty]['variants']].index('Null')))
            a = self.visit('visit_none', vty, visitor, [], st.copy())
            return ex.merge(null, a, some())
        if how == 'newtype_struct':
            return self.visit('visit_newtype_struct', vty, visitor, [Opq('de', tree=tree)], st)
        if vn == 'TaggedContentVisitor':
            return self.tagged(rty, vty, visitor, tree, st)
        if vn == 'InternallyTaggedUnitVisitor':
            return self.ok(rty, ex.models.unit(ex)) if k <= {'Obj', 'Seq'} else self.err(rty)
        if len(k) != 1:
            raise Unsupported('a value of unknown kind handed to %s' % ex.tname(vty))
        kind = list(k)[0]
        if how == 'enum':
            if kind == 'Str':
                return self.visit('visit_enum', vty, visitor, [Opq('enum', key=ex.models.strterm(ex, W(ex, tree).as_('Str').v, st), tree=None)], st)
            if kind != 'Obj':
                return self.err(rty)
            return self.variant(rty, vty, visitor, tree, st)
        want = {'map': ('Obj',), 'struct': ('Obj', 'Seq'), 'seq': ('Seq',), 'str': ('Str',), 'string': ('Str',), 'identifier': ('Str', 'U64'), 'bool': ('Bool',), 'unit': ('Null',)}.get(how)
        if want is None and how not in ('any', 'ignored_any'):
            want = INTS + ('F64',)
        if want is not None and kind not in want:
            return self.err(rty)
        if kind == 'Null':
            return self.visit('visit_unit', vty, visitor, [], st)
        if kind == 'Obj':
            return self.visit('visit_map', vty, visitor, [Opq('access', seq=self.entries(tree))], st)
        if kind == 'Seq':
            return self.visit('visit_seq', vty, visitor, [Opq('list', seq=ex.as_seq(W(ex, tree).as_('Seq').v), pos=0)], st)
        x = W(ex, tree).as_(kind).v
        if kind == 'Str':
            return self.visit('visit_str', vty, visitor, [RefV(Sym(ex.models.strterm(ex, x, st), self.str_ty()))], st)
        return self.visit('visit_' + kind.lower(), vty, visitor, [x], st)

    def variant(self, rty, vty, visitor, tree, st):
        """A variant with content: an object of one entry."""
        ex = self.ex
        segs = [s for s in self.entries(tree).segs if not is_false(s.g)]
        if any(s.b for s in segs):
            raise Unsupported('variant among computed names')
        out = self.err(rty)
        for i, s in enumerate(segs):
            g = AND(s.g, *[NOT(o.g) for o in segs[:i] + segs[i + 1:]])
            if is_false(g):
                continue
            ex.pcs.append(g)
            try:
                r = self.visit('visit_enum', vty, visitor, [Opq('enum', key=self.key(s.v), tree=ex.proj(s.v, 0, 1))], st.copy())
            finally:
                ex.pcs.pop()
            out = r if is_true(g) else ex.merge(g, r, out)
        return out

    def str_ty(self):
        return next(i for i in range(len(self.ex.T.t)) if self.ex.T[i]['k'] == 'str')

    def tagged(self, rty, vty, visitor, tree, st):
        """Buffering of an internally tagged value: its tag and the other entries."""
        ex = self.ex
        if not self.isobj(tree):
            if not self.kinds(tree) & {'Obj', 'Seq'}:
                return self.err(rty)
            raise Unsupported('tagged value of unknown shape')
        tag = ex.models.strterm(ex, W(ex, visitor).f('tag_name').v, st)
        pty = self.valty(rty)
        tys = ex.T[pty]['tys']
        rest, found = [], []
        for s in self.entries(tree).segs:
            e = EQ(self.key(s.v), tag)
            if not is_false(e):
                if s.b:
                    raise Unsupported('tag among computed names')
                found.append((AND(s.g, e), ex.proj(s.v, 0, 1)))
            g = AND(s.g, NOT(e))
            if not is_false(g):
                rest.append(Seg(s.b, g, s.v))
        content = Opq('content', tree=self.trees.mk('Obj', SeqV(tuple(rest))))
        out = self.err(rty)
        for g, t in reversed(found):
            r = self.mapok(rty, self.read(rty, t, st, tys[0]), lambda v: ex.models.tup(ex, v, content))
            out = ex.merge(g, r, out)
        return out

    def names(self, v, st):
        """The literal names in a table of names."""
        ex = self.ex
        seq = ex.as_seq(ex.full_deref(v, st))
        out = []
        for s in seq.segs:
            if s.b:
                raise Unsupported('table of names')
            out.append(ex.models.strterm(ex, s.v, st))
        return out

    def take(self, de, st, names):
        """Entries of the buffer with one of these names, which are removed from it."""
        ex = self.ex
        ref = ex.proj(de, 0, 0)
        hit, keep = [], []
        for s in ex.as_seq(ex.deref(ref, st)).segs:
            o = s.v
            p = ex.proj(o, 1, 0)
            k = self.keystr(ex.proj(p, 0, 0), st)
            k = ex.models.strterm(ex, k, st)
            e = OR(*[EQ(k, n) for n in names])
            g = AND(s.g, EQ(ex.disc(o), I(1)), e)
            if not is_false(g):
                hit.append(Seg(s.b, g, ex.models.tup(ex, self.keystr(ex.proj(p, 0, 0), st), self.content(ex.proj(p, 0, 1), st))))
            g = AND(s.g, NOT(e))
            if not is_false(g):
                keep.append(Seg(s.b, g, s.v))
        return hit, SeqV(tuple(keep)), ref

    def flat_struct(self, c, de, visitor, vty, st):
        hit, keep, ref = self.take(de, st, self.names(c.args[2], st))
        self.ex.write_ref(ref, keep, st)
        return self.visit('visit_map', vty, visitor, [Opq('access', seq=SeqV(tuple(hit)))], st)

    def flat_enum(self, c, de, visitor, vty, st):
        ex = self.ex
        hit, keep, ref = self.take(de, st, self.names(c.args[2], st))
        # only the first entry is taken; with exclusive names that is all of them
        for i, a in enumerate(hit):
            if a.b:
                raise Unsupported('variant among computed names')
            for b in hit[:i]:
                if not is_false(AND(a.g, b.g)):
                    self.unit.goals.append(('at most one entry names a variant', NOT(AND(a.g, b.g))))
        ex.write_ref(ref, keep, st)
        out = self.err(c.destty)
        for s in reversed(hit):
            ex.pcs.append(s.g)
            try:
                r = self.visit('visit_enum', vty, visitor, [Opq('enum', key=self.key(s.v), tree=ex.proj(s.v, 0, 1))], st.copy())
            finally:
                ex.pcs.pop()
            out = ex.merge(s.g, r, out)
        return out

    def access(self, c, last, st):
        ex = self.ex
        ref = c.args[0]
        cur = ex.deref(ref, st)
        if not isinstance(cur, Opq):
            raise Unsupported('map access')
        if last in ('size_hint',):
            oty = c.destty
            return Adt(oty, 0, {0: ()})
        if last.startswith('next_key'):
            oty = self.valty(c.destty)
            kty = ex.T.fields(oty, 1)[0][1]
            if cur.kind == 'cursor_end':
                return self.ok(c.destty, Adt(oty, 0, {0: ()}))
            if cur.kind != 'cursor':
                raise Unsupported('entries read outside a loop (%s)' % cur.kind)
            elem = cur.d['elem']
            ex.write_ref(ref, Opq('cursor_val', elem=elem), st)
            r = self.read(self.result_of(kty), self.trees.string(self.key(elem)), st, kty)
            return self.mapok(c.destty, r, lambda v: Adt(oty, 1, {1: (v,)}))
        if last.startswith('next_value'):
            if cur.kind != 'cursor_val':
                raise Unsupported('value read before its name')
            ex.write_ref(ref, Opq('cursor_used'), st)
            return self.read(c.destty, ex.proj(cur.d['elem'], 0, 1), st)
        raise Unsupported(c.d)

    def elements(self, c, last, st):
        ex = self.ex
        cur = ex.deref(c.args[0], st)
        if not (isinstance(cur, Opq) and cur.kind == 'list'):
            raise Unsupported('list access')
        if last == 'size_hint':
            return Adt(c.destty, 0, {0: ()})
        if not last.startswith('next_element'):
            raise Unsupported(c.d)
        oty = self.valty(c.destty)
        ety = ex.T.fields(oty, 1)[0][1]
        i = I(cur.d['pos'])
        more = (i < ex.seq_len(cur.d['seq']))
        ex.write_ref(c.args[0], Opq('list', seq=cur.d['seq'], pos=cur.d['pos'] + 1), st)
        ex.pcs.append(more)
        try:
            r = self.read(self.result_of(ety), ex.index(cur.d['seq'], i), st.copy(), ety)
        finally:
            ex.pcs.pop()
        r = self.mapok(c.destty, r, lambda v: Adt(oty, 1, {1: (v,)}))
        return ex.merge(more, r, self.ok(c.destty, Adt(oty, 0, {0: ()})))

    def result_of(self, ty):
        """A Result type with this value type."""
        ex = self.ex
        if not hasattr(self, 'results'):
            self.results = {}
            for i in range(len(ex.T.t)):
                t = ex.T[i]
                if t['k'] == 'adt' and t['name'].endswith('result::Result'):
                    self.results.setdefault(ex.canon[ex.T.fields(i, 0)[0][1]], i)
        r = self.results.get(ex.canon[ty])
        if r is None:
            raise Unsupported('result of %s' % ex.tname(ty))
        return r


_index = {}


def index(dump, ex):
    """(trait method, type) -> reference of one of its instances."""
    r = _index.get(id(dump))
    if r is None:
        r = {}
        for k, f in dump['fns'].items():
            for b in f['blocks']:
                t = b['t']
                if t[0] == 'call' and isinstance(t[1], dict) and t[1].get('inst') and t[1].get('def', '').startswith('serde::de') or t[0] == 'call' and isinstance(t[1], dict) and t[1].get('def', '') == DE and t[1].get('inst'):
                    c = t[1]
                    if c['args'] and c['inst']['key'] in dump['fns']:
                        r.setdefault((c['def'], ex.canon[c['args'][0]]), c)
        _index[id(dump)] = r
    return r


def agree(ex, a, b, depth=0):
    """Formula: the value read equals the expected one."""
    st = St()
    a, b = ex.full_deref(a, st), ex.full_deref(b, st)
    if a is b or ex.same(a, b):
        return T
    if isinstance(a, Ite):
        return AND(IMP(a.c, agree(ex, a.a, b, depth)), IMP(NOT(a.c), agree(ex, a.b, b, depth)))
    if isinstance(b, Ite):
        return AND(IMP(b.c, agree(ex, a, b.a, depth)), IMP(NOT(b.c), agree(ex, a, b.b, depth)))
    M = ex.models
    if isinstance(b, (Sym, Adt)) and ex.adt_ty(b) is not None and (ex.T[ex.adt_ty(b)].get('name') or '').endswith('Cow'):
        def texts(v):
            return [(EQ(ex.disc(v), I(i)), M.strterm(ex, ex.proj(v, i, 0), st)) for i in (0, 1) if not is_false(EQ(ex.disc(v), I(i)))]
        return AND(*[IMP(AND(p, q), EQ(u, w)) for p, u in texts(a) for q, w in texts(b)])
    if isinstance(a, SeqV) and not M.maplike(ex, b) and ex.seqlike(b):
        A = [s for s in a.segs if not is_false(s.g)]
        whole = [s for s in ex.as_seq(b).segs if not is_false(s.g)]
        if len(whole) == 1 and len(whole[0].b) == 1 and is_true(whole[0].g):
            # alternatives: exactly one of the parts is the list
            n = ex.seq_len(ex.as_seq(b))
            out = [NOT(AND(A[i].g, A[j].g)) for i in range(len(A)) for j in range(i)]
            for s in A:
                if not s.b:
                    out.append(IMP(s.g, AND(EQ(n, I(1)), agree(ex, s.v, ex.index(b, I(0)), depth + 1))))
                else:
                    out.append(IMP(s.g, rel_seg(ex, Seg(s.b, T, s.v), whole[0], lambda u, v: agree(ex, u, v, depth + 1))))
            out.append(IMP(NOT(OR(*[s.g for s in A])), EQ(n, I(0))))
            return AND(*out)
    if isinstance(a, Adt) and isinstance(b, (Adt, Sym)) and not M.maplike(ex, b) and not ex.seqlike(b):
        ty = ex.adt_ty(b)
        ty = ex.adt_ty(a) if ty is None else ty
        if ty is not None:
            out = [EQ(ex.disc(a), ex.disc(b))]
            for k in range(ex.T.nvariants(ty)):
                if k not in a.f or isinstance(b, Adt) and k not in b.f:
                    continue
                e = EQ(ex.disc(b), I(k))
                if is_false(e):
                    continue
                out.append(IMP(e, AND(*[agree(ex, ex.proj(a, k, i), ex.proj(b, k, i), depth + 1) for i in range(len(ex.T.fields(ty, k)))])))
            return AND(*out)
    try:
        return same(ex, a, b, depth)
    except Unsupported as e:
        raise Unsupported('%s: %s / %s' % (e, str(a)[:200], str(b)[:200]))


# what an omitted entry stands for
DEFAULTS = {
    'thing': {'context': ('Value', 'https://www.w3.org/2022/wot/td/v1.1')},
    'act': {'safe': False, 'idempotent': False},
    'ds': {'read_only': False, 'write_only': False},
    'addresp': {'success': False},
    'mqtt_form': {'retain': False},
    'form': {'op': 'Default'},
    'basic': {'location': 'Header'},
    'digest': {'location': 'Header', 'qop': 'Auth'},
    'apikey': {'location': 'Query'},
    'bearer': {'location': 'Header', 'alg': ('Cow', 'ES256'), 'format': ('Cow', 'jwt')},
}
# what a property shares between its parts
SHARED = ('attype', 'title', 'titles', 'description', 'descriptions')


class ReaderUnit(WriterUnit):
    """Reading of one type: of the entries the writer contract gives.

    mode P16: exactly the entries that are written; P18: each entry that may be omitted is present
    or not; P20: lists in their long form, whatever their length."""

    def __init__(self, tag, mode, variant=None):
        self.tag = tag
        self.variant = variant
        self.mode = mode
        self.name = 'reading of %s%s%s' % (tag, ' (%s)' % variant if variant else '', {'P18': ', entries omitted', 'P20': ', lists in the long form'}.get(mode, ''))

    def reader(self):
        ex = self.ex
        b = ex.F[self.dump['roots']['root_de_' + self.tag]]
        self.trees = ReadTrees(ex, b['locals'][1])
        self.trees.types = {}
        for i in range(len(ex.T.t)):
            self.trees.types.setdefault(ex.tkey(i), i)
        obj = self.trees.fty('Obj')
        self.trees.keyty = ex.T[ex.T[obj]['args'][0]]['tys'][0]
        self.rty = b['locals'][0]
        vty = ex.T.fields(self.rty, 0)[0][1]
        if self.mode == 'P20':
            self.trees.short = self.trees.of
        self.parts = {}
        self.present = {}
        APART.clear()
        rd = Reader(self, ex, self.dump, self.trees)
        rd.top = ex.canon[vty]
        return rd, vty

    def read(self, rd, tree):
        self.ex.hook = rd
        rd.first = True
        r = self.w(self.call('de_' + self.tag, [tree]))
        self.ex.hook = None
        return r

    def run(self):
        ex = self.ex
        rd, vty = self.reader()
        x = self.w(self.shape(vty))
        if self.tag in ENUMS:
            return self.enumeration(rd)
        if self.tag in ('elems', 'ops'):
            return self.choice(rd, x)
        tree = self.object_tree(self.written(x))
        r = self.read(rd, tree)
        x = self.w(self.expected(x))
        self.goals.append(('reading succeeds', r.is_('Ok')))
        for n, f in self.agreements(r.as_('Ok'), x):
            self.goals.append(('%s is read back' % n, f))

    # -------------------------------------------------------------- presence of entries
    def given(self, cond, tag, field, how, x):
        if self.mode != 'P18' or how[0] in '*+' or how[:2] == '?+':
            return cond
        if how in ('v', '1', 'members', 'part') and field not in DEFAULTS.get(tag, {}):
            return cond
        g = z3.Const('present.%s.%s' % (tag, field), BOOL)
        self.present[tag, field] = g
        return AND(cond, g)

    def explicit(self, tag, field):
        return self.mode == 'P18'

    def omitted(self, tag, field, ty):
        """What the value is when its entry is not there."""
        ex = self.ex
        d = DEFAULTS.get(tag, {}).get(field, 'None')
        if d is False:
            return Sc(Fa, ty)
        if isinstance(d, str):
            k = [v['name'] for v in ex.T[ty]['variants']].index(d) if ex.T[ty]['k'] == 'adt' and ex.T[ty]['kind'] == 'enum' else None
            if k is not None:
                return Adt(ty, k, {k: ()})
            return SeqV(())          # lists written only when not empty
        k = [v['name'] for v in ex.T[ty]['variants']].index('String' if d[0] == 'Value' else 'Owned')
        return Adt(ty, k, {k: (Sym(ex.lit(d[1]), ex.T.fields(ty, k)[0][1]),)})

    def expected(self, x):
        """The value with what was omitted replaced by the defaults."""
        if not self.present:
            return x.v
        return self.fill(self.tag, x.v)

    def fill(self, tag, v):
        ex = self.ex
        w = self.w(v)
        if tag in ('dsub', 'known', 'secsub'):
            if not isinstance(w.v, Adt):
                raise Unsupported('variant expected')
            name = ex.T[w.v.ty]['variants'][w.v.disc.as_long()]['name']
            sub = {'dsub': SUBTYPES, 'known': SCHEMES, 'secsub': {'Known': (0, 'known'), 'Unknown': (0, 'unknown')}}[tag][name][1]
            k = w.v.disc.as_long()
            return Adt(w.v.ty, k, {k: tuple(self.fill(sub, a) for a in w.v.f[k])}) if sub else w.v
        if tag not in TABLE:
            return w.v
        hows = {f: h for _, f, h in TABLE[tag]}
        fs = []
        for n, ty in ex.T.fields(w.ty, 0):
            y = w.f(n).v
            h = hows[n]
            if h[0] == '+':
                y = self.fill(h[1:], y)
            elif h[:2] == '?+':
                if isinstance(y, Adt) and is_true(EQ(y.disc, I(1))):
                    y = Adt(y.ty, 1, {1: (self.fill(h[2:], y.f[1][0]),)})
            elif n in ('interaction', 'data_schema') and tag == 'prop':
                y = self.fill({'interaction': 'inter', 'data_schema': 'ds'}[n], y)
            elif (tag, n) in self.present:
                y = Ite(self.present[tag, n], y, self.omitted(tag, n, ty))
            fs.append(y)
        return Adt(w.ty, 0, {0: tuple(fs)})

    # -------------------------------------------------------------- entries
    def written(self, x):
        if self.tag != 'prop':
            return self.entries(self.tag, x)
        out = {}
        for tag, field in (('inter', 'interaction'), ('ds', 'data_schema')):
            for e in self.entries(tag, x.f(field)):
                out[e[0]] = e
                if e[0] in [n for n, f, _ in INTER if f in SHARED] and self.mode == 'P18':
                    # present in the object or not: one entry for both parts
                    f = [f for n, f, _ in INTER if n == e[0]][0]
                    self.hyps.append(self.present['ds', f] == self.present['inter', f]) if ('ds', f) in self.present else None
        o = x.f('observable')
        out['observable'] = ('observable', self.given(o.some, 'prop', 'observable', '?', o), self.trees.of(o.inner.v), '')
        e = x.f('other')
        out['*XProp'] = ('*XProp', T, self.trees.of(e.f(0).v), '')
        return list(out.values())

    def choice(self, rd, x):
        """One or a list."""
        ex = self.ex
        self.variants(x, {'Elem': 0, 'Vec': 0} if self.tag == 'elems' else {'Default': 0, 'Custom': 0})
        l = x.as_('Vec' if self.tag == 'elems' else 'Custom')
        r = self.read(rd, self.trees.of(l.v))
        k = 'Vec' if self.tag == 'elems' else 'Custom'
        self.goals.append(('a list is read as that list', AND(r.is_('Ok'), r.as_('Ok').is_(k), agree(ex, r.as_('Ok').as_(k).v, l.v))))
        if self.tag == 'elems':
            e = x.as_('Elem')
            r = self.read(rd, self.trees.of(e.v))
            self.goals.append(('a schema is read as that schema', AND(r.is_('Ok'), r.as_('Ok').is_('Elem'), agree(ex, r.as_('Ok').as_('Elem').v, e.v))))
            return
        e = self.w(ex.index(l.v, I(0)))
        r = self.read(rd, self.trees.of(e.v))
        one = SeqV((Seg((), T, e.v),))
        self.goals.append(('an operation is read as a list of one', AND(r.is_('Ok'), r.as_('Ok').is_(k), agree(ex, r.as_('Ok').as_(k).v, one))))
        r = self.read(rd, self.trees.mk('Null'))
        self.goals.append(('nothing is read as the default operations', AND(r.is_('Ok'), r.as_('Ok').is_('Default'))))

    def enumeration(self, rd):
        """Exactly the names of the table are read, each as its value."""
        ex = self.ex
        table = ENUMS[self.tag]
        if self.tag == 'coap_size':
            n = Sc(z3.Const('n', INT), self.trees.fty('U64'))
            self.hyps.append(ex.range_fact(n.e, n.ty))
            tree = self.trees.mk('U64', n)
            is_ = lambda v: EQ(n.e, I(v))
        else:
            s = z3.Const('s', V)
            tree = self.trees.string(s)
            is_ = lambda v: EQ(s, ex.lit(v))
        r = self.read(rd, tree)
        self.variants(r.as_('Ok'), table)
        for k, v in table.items():
            self.goals.append(('%s is read as %s' % (v, k), IMP(is_(v), AND(r.is_('Ok'), r.as_('Ok').is_(k)))))
        self.goals.append(('no other %s is accepted' % ('number' if self.tag == 'coap_size' else 'name'), IMP(r.is_('Ok'), OR(*[is_(v) for v in table.values()]))))

    def agreements(self, r, x):
        ex = self.ex
        ty = x.ty
        if ex.T.nvariants(ty) == 1:
            return [(n, agree(ex, r.f(n).v, x.f(n).v)) for n in x.fieldnames()]
        return [('the value', agree(ex, r.v, x.v))]

    def shape(self, vty):
        """A value of any content, of one variant where the unit is about one."""
        ex = self.ex
        v = ex.mkany(z3.Const('x', V), vty)
        if not self.variant and self.tag != 'unknown':
            return v
        return self.narrow(v, self.variant.split('.') if self.variant else [])

    def narrow(self, v, path):
        ex = self.ex
        ty = ex.adt_ty(v)
        if (ex.T[ty].get('name') or '').endswith('UnknownSecuritySchemeSubtype'):
            f = self.apart('schemes', [n for n, _ in SCHEMES.values()])
            i = [n for n, _ in ex.T.fields(ty, 0)].index('scheme')
            fs = [ex.proj(v, 0, j) for j in range(len(ex.T.fields(ty, 0)))]
            fs[i] = Sym(f(ex.models.strterm(ex, fs[i], St())), ex.T.fields(ty, 0)[i][1])
            return Adt(ty, 0, {0: tuple(fs)})
        if not path:
            return v
        if ex.T.nvariants(ty) == 1:
            names = [n for n, _ in ex.T.fields(ty, 0)]
            if 'interaction' in names and 'data_schema' in names:
                # a property has one set of human-readable texts
                fs = [ex.proj(v, 0, j) for j in range(len(names))]
                d = self.narrow(fs[names.index('data_schema')], path)
                w = self.w(fs[names.index('interaction')])
                fs[names.index('data_schema')] = Adt(d.ty, 0, {0: tuple(w.f(n).v if n in SHARED else d.f[0][j] for j, (n, _) in enumerate(ex.T.fields(d.ty, 0)))})
                return Adt(ty, 0, {0: tuple(fs)})
            i = names.index('subtype')
            fs = [ex.proj(v, 0, j) for j in range(len(ex.T.fields(ty, 0)))]
            fs[i] = self.narrow(fs[i], path)
            return Adt(ty, 0, {0: tuple(fs)})
        k = [x['name'] for x in ex.T[ty]['variants']].index(path[0])
        return Adt(ty, k, {k: tuple(self.narrow(ex.proj(v, k, j), path[1:]) for j in range(len(ex.T.fields(ty, k))))})

    def object_tree(self, want):
        ex = self.ex
        segs = []
        for k, p, t, how in want:
            if k is None:
                segs += self.splice(p, t, [n for n, _, _, _ in want if n])
                continue
            segs.append(Seg((), p, ex.models.tup(ex, Sym(ex.lit(self.actual(k)), self.trees.keyty), t)))
        return self.trees.mk('Obj', SeqV(tuple(segs)))

    def apart(self, which, names):
        """A function to texts other than these."""
        ex = self.ex
        f = ex.pfn('apart.' + which, [V], V)
        APART[f.name()] = {ex.lit(n).get_id() for n in names}
        return f

    def splice(self, p, m, names):
        """The members of custom data: at least one, none with a name of the standard."""
        ex = self.ex
        f = self.apart('names', names)
        out = []
        pairs = ex.models.as_map(ex, m.v).pairs
        self.hyps.append(IMP(p, NOT(ex.models.map_empty(ex, m.v))))
        for s in pairs.segs:
            k = ex.models.strterm(ex, ex.proj(s.v, 0, 0), St())
            self.hyps.append(forall([x for x, _ in s.b], IMP(AND(ex.seg_range(s.b), s.g, p), f(k) == k)))
            out.append(Seg(s.b, AND(s.g, p), ex.models.tup(ex, Sym(f(k), self.trees.keyty), self.trees.of(ex.proj(s.v, 0, 1)))))
        return out


class NotAListUnit(ReaderUnit):
    """What tells a list from a single value: a list is not read as one."""

    def __init__(self, tag):
        ReaderUnit.__init__(self, tag, 'P16')
        self.name = 'a list is no %s' % tag

    def run(self):
        ex = self.ex
        rd, vty = self.reader()
        n, i = z3.Const('n', INT), z3.Const('i', INT)
        self.hyps.append(n >= 0)
        obj = self.trees.mk('Obj', ex.mkany(z3.Function('members', INT, V)(i), self.trees.fty('Obj')))
        r = self.read(rd, self.trees.mk('Seq', SeqV((Seg(((i, n),), T, obj),))))
        self.goals.append(('a list of objects is refused', r.is_('Err')))
        if self.tag == 'ds':
            for k, v in (('Null', ()), ('Bool', (Sc(z3.Const('b', BOOL), self.trees.fty('Bool')),)), ('Str', (Sym(z3.Const('s', V), self.trees.fty('Str')),)), ('U64', (Sc(z3.Const('u', INT), self.trees.fty('U64')),)),
                         ('I64', (Sc(z3.Const('j', INT), self.trees.fty('I64')),)), ('F64', (Sc(z3.Const('f', F64), self.trees.fty('F64')),))):
                r = self.read(rd, self.trees.mk(k, *v))
                self.goals.append(('%s is refused' % k, r.is_('Err')))


class VocabularyUnit(ReaderUnit):
    """A value outside the vocabulary is refused by the type it occurs in."""

    def __init__(self, tag):
        ReaderUnit.__init__(self, tag, 'P16')
        self.name = 'values outside the vocabulary in %s' % tag

    def run(self):
        ex = self.ex
        rd, vty = self.reader()
        segs, terms = [], []
        x = self.w(ex.mkany(z3.Const('x', V), vty))
        for name, field, how in TABLE[self.tag]:
            ty = x.f(field).inner.ty if how == '?' and isinstance(x.f(field).inner.v, (Sym, Adt)) else None
            tag = rd.tagof.get(ex.canon[ty]) if ty is not None else None
            if tag not in ENUMS:
                continue
            g = z3.Const('present.' + field, BOOL)
            if tag == 'coap_size':
                t = Sc(z3.Const('n.' + field, INT), self.trees.fty('U64'))
                self.hyps.append(ex.range_fact(t.e, t.ty))
                t = self.trees.mk('U64', t)
            else:
                t = self.trees.string(z3.Const('s.' + field, V))
            segs.append(Seg((), g, ex.models.tup(ex, Sym(ex.lit(name), self.trees.keyty), t)))
            terms.append((name, g, ex.pfn('rd.ok.%d' % ex.tkey(ty), [V], BOOL)(ex.models.term_of(ex, t, St()))))
        r = self.read(rd, self.trees.mk('Obj', SeqV(tuple(segs))))
        for n, g, ok in terms:
            self.goals.append(('%s outside the vocabulary is refused' % n, IMP(AND(g, NOT(ok)), r.is_('Err'))))


SCHEME = ['Known.' + k for k in SCHEMES] + ['Unknown']
VARIANTS = {
    'ds': ['None'] + ['Some.' + k for k in SUBTYPES],
    'dsub': list(SUBTYPES),
    'known': list(SCHEMES),
    'secsub': SCHEME,
    'sec': SCHEME,
    'prop': ['None'] + ['Some.' + k for k in SUBTYPES],
}


def units(prop):
    tags = [t for t, _, _ in values.TYPES]
    one = lambda t, mode: [ReaderUnit(t, mode, v) for v in VARIANTS.get(t, [None])]
    short = lambda t: any(h.endswith('1') for _, _, h in TABLE.get(t, ())) or t == 'combo'
    if prop == 'P16':
        return [u for t in tags for u in one(t, 'P16')] + [NotAListUnit('ds'), NotAListUnit('addresp')]
    if prop == 'P18':
        return [u for t in tags if t not in ENUMS and t not in ('elems', 'combo') for u in one(t, 'P18')]
    if prop == 'P20':
        return [u for t in tags if short(t) for u in one(t, 'P20') + one(t, 'P16')] + [ReaderUnit('elems', 'P16'), ReaderUnit('ops', 'P16'), ReaderUnit('known', 'P20', 'OAuth2'), ReaderUnit('known', 'P20', 'Combo'), NotAListUnit('ds'), NotAListUnit('addresp')]
    if prop == 'P17':
        return [ReaderUnit('op', 'P16'), ReaderUnit('ops', 'P16')]
    if prop == 'P21':
        return [ReaderUnit(t, m) for t in tags if t.startswith(PROTO) for m in ('P16', 'P18') if m == 'P16' or t not in ENUMS] + [ReaderUnit('mqtt_form', 'P20')] + [VocabularyUnit(t) for t in ('coap_form', 'coap_block', 'http_form', 'mqtt_form')]
    return []
