"""Values, types and z3 plumbing for the MIR contract verifier.

Every Rust value is a tree of the classes below; leaves are z3 terms.  Symbolic values of
aggregate type are a term of the uninterpreted sort V from which fields are projected lazily by
uninterpreted functions, so nothing about sizes or depths of the inputs is bounded.
"""
import z3, json, itertools

V = z3.DeclareSort('V')
F64 = z3.Float64()
F32 = z3.Float32()
INT = z3.IntSort()
BOOL = z3.BoolSort()
T = z3.BoolVal(True)
Fa = z3.BoolVal(False)


class Unsupported(Exception):
    pass


def is_true(e):
    return z3.is_true(e)


def is_false(e):
    return z3.is_false(e)


def eq(a, b):
    return a.eq(b)


def NOT(a):
    if is_true(a):
        return Fa
    if is_false(a):
        return T
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def _collect(xs, unit, zero, nested, mk):
    """Conjunction or disjunction without duplicates; zero when a term and its negation occur."""
    out = []
    seen = set()      # ids of the terms in out (equal terms share an id while they are alive)
    neg = set()       # ids of the terms whose negation is in out
    for x in xs:
        if is_true(x) if unit is T else is_false(x):
            continue
        if is_false(x) if unit is T else is_true(x):
            return zero
        for y in (x.children() if nested(x) else (x,)):
            i = y.get_id()
            if i in seen:
                continue
            if i in neg:
                return zero
            if z3.is_not(y):
                j = y.arg(0).get_id()
                if j in seen:
                    return zero
                neg.add(j)
            seen.add(i)
            out.append(y)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return mk(*out)


def AND(*xs):
    if any(isinstance(x, (list, tuple)) for x in xs):
        xs = [AND(*x) if isinstance(x, (list, tuple)) else x for x in xs]
    return _collect(xs, T, Fa, z3.is_and, z3.And)


def OR(*xs):
    return _collect(xs, Fa, T, z3.is_or, z3.Or)


def IMP(a, b):
    if is_true(a):
        return b
    if is_false(a) or is_true(b):
        return T
    return z3.Implies(a, b)


def IF(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        if is_true(a) and is_false(b):
            return c
        if is_false(a) and is_true(b):
            return NOT(c)
        if is_true(a):
            return OR(c, b)
        if is_false(a):
            return AND(NOT(c), b)
        if is_true(b):
            return OR(NOT(c), a)
        if is_false(b):
            return AND(c, a)
    return z3.If(c, a, b)


LITERALS = {}      # id -> term of a text literal; different literals are different texts
APART = {}         # name of a function on texts -> ids of the literals it never gives


def EQ(a, b):
    if a.eq(b):
        return T
    if LITERALS and a.get_id() in LITERALS and b.get_id() in LITERALS:
        return Fa
    if APART:
        for x, y in ((a, b), (b, a)):
            if z3.is_app(x) and y.get_id() in APART.get(x.decl().name(), ()):
                return Fa
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.BoolVal(a.as_long() == b.as_long())
    # push an equality with a literal through an if-then-else (keeps discriminant tests small)
    for x, y in ((a, b), (b, a)):
        if z3.is_int_value(y) and z3.is_app_of(x, z3.Z3_OP_ITE):
            return IF(x.arg(0), EQ(x.arg(1), y), EQ(x.arg(2), y))
    if z3.is_bool(a):
        if is_true(a):
            return b
        if is_true(b):
            return a
        if is_false(a):
            return NOT(b)
        if is_false(b):
            return NOT(a)
    return a == b


def I(n):
    return z3.IntVal(n)


# ------------------------------------------------------------------------------- values
class Val:
    __slots__ = ()


class Sc(Val):
    """Scalar (bool, int, char, float)."""
    __slots__ = ('e', 'ty')

    def __init__(self, e, ty):
        self.e = e
        self.ty = ty

    def __repr__(self):
        return 'Sc(%s)' % self.e


class Adt(Val):
    """struct / tuple / enum / closure / array-free aggregate; disc is a z3 Int (variant index)."""
    __slots__ = ('ty', 'disc', 'f')

    def __init__(self, ty, disc, f):
        self.ty = ty
        self.disc = disc if not isinstance(disc, int) else I(disc)
        self.f = f  # variant -> tuple of Val

    def __repr__(self):
        return 'Adt(%d,%s,%s)' % (self.ty, self.disc, self.f)


class Sym(Val):
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty):
        self.t = t
        self.ty = ty

    def __repr__(self):
        return 'Sym(%s)' % self.t


class RefV(Val):
    """Shared reference (or raw const pointer / read-only view): the borrowed value itself."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'RefV(%r)' % (self.v,)


class BoxV(Val):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'BoxV(%r)' % (self.v,)


class RefM(Val):
    """Mutable reference: guarded alternatives of (cell id, path)."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'RefM(%s)' % (self.alts,)


class Seg:
    """{ val | binders in range, guard }, ordered lexicographically by the binders.
    binders: tuple of (z3 int const, z3 int upper bound)."""
    __slots__ = ('b', 'g', 'v')

    def __init__(self, b, g, v):
        self.b = b
        self.g = g
        self.v = v

    def __repr__(self):
        return 'Seg(%s,%s,%r)' % (self.b, self.g, self.v)


class SeqV(Val):
    """Concatenation of segments."""
    __slots__ = ('segs', 'meta')

    def __init__(self, segs, meta=None):
        self.segs = tuple(segs)
        self.meta = meta

    def __repr__(self):
        return 'SeqV(%s)' % (self.segs,)


class MapV(Val):
    """A map built by the code: pairs is a SeqV of (key,value) tuples (python pairs inside Pair),
    t is a V term carrying has()/get() axioms."""
    __slots__ = ('pairs', 't', 'distinct')

    def __init__(self, pairs, t, distinct):
        self.pairs = pairs
        self.t = t
        self.distinct = distinct

    def __repr__(self):
        return 'MapV(%s,%s)' % (self.pairs, self.t)


class Pair(Val):
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a = a
        self.b = b

    def __repr__(self):
        return 'Pair(%r,%r)' % (self.a, self.b)


class IterV(Val):
    """A lazy iterator: a base sequence, position, and adapter stages."""
    __slots__ = ('seq', 'pos', 'stages')

    def __init__(self, seq, pos, stages):
        self.seq = seq
        self.pos = pos
        self.stages = tuple(stages)

    def __repr__(self):
        return 'IterV(%r,%s,%s)' % (self.seq, self.pos, self.stages)


class FnV(Val):
    """Function item / pointer value."""
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref

    def __repr__(self):
        return 'FnV(%s)' % self.ref.get('name', self.ref.get('def'))


class Ite(Val):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __repr__(self):
        return 'Ite(%s,%r,%r)' % (self.c, self.a, self.b)


class Opq(Val):
    """Engine-internal value (map entries, accumulator markers...)."""
    __slots__ = ('kind', 'd')

    def __init__(self, kind, **d):
        self.kind = kind
        self.d = d

    def __repr__(self):
        return 'Opq(%s,%s)' % (self.kind, self.d)


class UndefV(Val):
    __slots__ = ()

    def __repr__(self):
        return 'Undef'


UNDEF = UndefV()


def subst_e(e, sub):
    return z3.substitute(e, *sub)


def subst(v, sub):
    """Substitute z3 constants in a value tree."""
    if not sub:
        return v
    memo = {}

    def e(x):
        return z3.substitute(x, *sub)

    def go(v):
        k = id(v)
        r = memo.get(k)
        if r is not None:
            return r[1]
        r = go1(v)
        memo[k] = (v, r)
        return r

    def go1(v):
        if isinstance(v, Sc):
            return Sc(e(v.e), v.ty)
        if isinstance(v, Sym):
            return Sym(e(v.t), v.ty)
        if isinstance(v, Adt):
            return Adt(v.ty, e(v.disc), {k: tuple(go(x) for x in fs) for k, fs in v.f.items()})
        if isinstance(v, RefV):
            return RefV(go(v.v))
        if isinstance(v, BoxV):
            return BoxV(go(v.v))
        if isinstance(v, Ite):
            return Ite(e(v.c), go(v.a), go(v.b))
        if isinstance(v, SeqV):
            return SeqV([Seg(tuple((x, e(h)) for x, h in s.b), e(s.g), go(s.v)) for s in v.segs], v.meta)
        if isinstance(v, MapV):
            return MapV(go(v.pairs), e(v.t), v.distinct)
        if isinstance(v, Pair):
            return Pair(go(v.a), go(v.b))
        if isinstance(v, IterV):
            return IterV(go(v.seq), e(v.pos), [(s[0],) + tuple(go(x) if isinstance(x, Val) else (e(x) if isinstance(x, z3.ExprRef) else x) for x in s[1:]) for s in v.stages])
        if isinstance(v, RefM):
            return RefM([(e(g), c, tuple(subst_path(p, e) for p in path)) for g, c, path in v.alts])
        if isinstance(v, Opq):
            return Opq(v.kind, **{k: (go(x) if isinstance(x, Val) else (e(x) if isinstance(x, z3.ExprRef) else x)) for k, x in v.d.items()})
        return v

    return go(v)


def subst_path(p, e):
    if p[0] == 'ix':
        return ('ix', e(p[1])) + tuple(p[2:])
    return p


# ------------------------------------------------------------------------------- types
class Types:
    def __init__(self, tys):
        self.t = tys
        self.by_s = {}
        for i, t in enumerate(tys):
            self.by_s.setdefault(t['s'], i)

    def __getitem__(self, i):
        return self.t[i]

    def kind(self, i):
        return self.t[i]['k']

    def sort(self, i):
        t = self.t[i]
        k = t['k']
        if k == 'bool':
            return BOOL
        if k in ('int', 'uint', 'char'):
            return INT
        if k == 'float':
            return F64 if t['f'] == 'F64' else F32
        return V

    def is_scalar(self, i):
        return self.t[i]['k'] in ('bool', 'int', 'uint', 'char', 'float')

    def name(self, i):
        return self.t[i].get('name', '')

    def is_adt(self, i, name):
        t = self.t[i]
        return t['k'] == 'adt' and t['name'] == name

    def isvec(self, i):
        return self.is_adt(i, 'std::vec::Vec')

    def ismap(self, i):
        return self.t[i]['k'] == 'adt' and self.t[i]['name'] in (
            'std::collections::HashMap', 'std::collections::BTreeMap', 'serde_json::map::Map',
            'std::collections::BTreeSet', 'std::collections::HashSet', 'serde_json::Map')

    def isset(self, i):
        return self.t[i]['k'] == 'adt' and self.t[i]['name'] in (
            'std::collections::BTreeSet', 'std::collections::HashSet')

    def isstr(self, i):
        return self.t[i]['k'] == 'str' or self.is_adt(i, 'std::string::String')

    def isbox(self, i):
        return self.t[i]['k'] == 'adt' and self.t[i].get('box')

    def fields(self, i, variant=0):
        t = self.t[i]
        k = t['k']
        if k == 'adt':
            return [(n, ty) for n, ty in t['variants'][variant]['fields']]
        if k == 'tuple':
            return [(str(n), ty) for n, ty in enumerate(t['tys'])]
        if k == 'closure':
            u = t['upvars']
            return [(str(n), ty) for n, ty in enumerate(self.t[u]['tys'])] if u is not None else []
        return []

    def nvariants(self, i):
        t = self.t[i]
        if t['k'] == 'adt':
            return len(t['variants'])
        return 1

    def is_agg(self, i):
        return self.t[i]['k'] in ('adt', 'tuple', 'closure')


def resimp(e, memo=None):
    """Rebuild boolean structure and if-then-else with the simplifying constructors."""
    memo = {} if memo is None else memo
    k = e.get_id()
    if k in memo:
        return memo[k]
    if z3.is_quantifier(e) or not z3.is_app(e) or e.num_args() == 0:
        r = e
    else:
        ch = [resimp(c, memo) for c in e.children()]
        if z3.is_and(e):
            r = AND(*ch)
        elif z3.is_or(e):
            r = OR(*ch)
        elif z3.is_not(e):
            r = NOT(ch[0])
        elif z3.is_app_of(e, z3.Z3_OP_ITE):
            r = IF(*ch)
        elif z3.is_implies(e):
            r = IMP(*ch)
        elif all(a.eq(b) for a, b in zip(ch, e.children())):
            r = e
        else:
            r = e.decl()(*ch)
    memo[k] = r
    return r


def restrict(v, cond):
    """v under the assumption cond (a conjunction of literals)."""
    lits = cond.children() if z3.is_and(cond) else [cond]
    sub = []
    for l in lits:
        if z3.is_not(l):
            sub.append((l.arg(0), Fa))
        elif not is_true(l) and not is_false(l):
            sub.append((l, T))
    if not sub:
        return v

    def e(x):
        y = z3.substitute(x, *sub)
        return x if y.eq(x) else resimp(y)

    def go(v):
        if isinstance(v, Sc):
            return Sc(e(v.e), v.ty)
        if isinstance(v, Sym):
            y = e(v.t)
            return v if y.eq(v.t) else Sym(y, v.ty)
        if isinstance(v, Adt):
            return Adt(v.ty, e(v.disc), {k: tuple(go(x) for x in fs) for k, fs in v.f.items()})
        if isinstance(v, RefV):
            return RefV(go(v.v))
        if isinstance(v, BoxV):
            return BoxV(go(v.v))
        if isinstance(v, Ite):
            c = e(v.c)
            if is_true(c):
                return go(v.a)
            if is_false(c):
                return go(v.b)
            return Ite(c, go(v.a), go(v.b))
        return v
    return go(v)
