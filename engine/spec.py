"""Specification language: views on program values by field and variant name, and relations."""
import z3
from core import *
from exec import forall, St


class Lost(Exception):
    """A name the specification refers to does not exist in the code any more."""


class W:
    """View of a value.  References and boxes are transparent."""
    __slots__ = ('ex', 'v', 'st')

    def __init__(self, ex, v, st=None):
        self.ex = ex
        self.st = st or St()
        self.v = ex.full_deref(v, self.st)

    def w(self, v):
        return W(self.ex, v, self.st)

    @property
    def ty(self):
        return self.ex.adt_ty(self.v)

    def tinfo(self):
        t = self.ty
        if t is None:
            raise Lost('type of %s' % type(self.v).__name__)
        return self.ex.T[t]

    def fieldnames(self, variant=0):
        return [n for n, _ in self.ex.T.fields(self.ty, variant)]

    def f(self, name, variant=0):
        if isinstance(name, int):
            return self.w(self.ex.proj(self.v, variant, name))
        for i, (n, _) in enumerate(self.ex.T.fields(self.ty, variant)):
            if n == name:
                return self.w(self.ex.proj(self.v, variant, i))
        raise Lost('%s has no field %s' % (self.ex.tname(self.ty), name))

    def path(self, p):
        w = self
        for x in p.split('.'):
            w = w.f(x)
        return w

    def vidx(self, name):
        for i, x in enumerate(self.tinfo()['variants']):
            if x['name'] == name:
                return i
        raise Lost('%s has no variant %s' % (self.ex.tname(self.ty), name))

    def is_(self, name):
        return EQ(self.ex.disc(self.v), I(self.vidx(name)))

    def isany(self, *names):
        return OR(*[self.is_(n) for n in names])

    def as_(self, name, idx=0):
        vi = self.vidx(name)
        if isinstance(idx, str):
            return self.f(idx, vi)
        return self.w(self.ex.proj(self.v, vi, idx))

    @property
    def some(self):
        return self.is_('Some')

    @property
    def inner(self):
        return self.as_('Some')

    @property
    def t(self):
        return self.ex.models.term_of(self.ex, self.v, self.st)

    @property
    def e(self):
        if not isinstance(self.v, Sc):
            raise Lost('scalar expected, %s found' % type(self.v).__name__)
        return self.v.e

    @property
    def seq(self):
        ex = self.ex
        if ex.models.maplike(ex, self.v):
            m = ex.models.as_map(ex, self.v)
            return ex.models.dedup(ex, m) if m.t.get_id() in ex.survivors else m.pairs
        return ex.as_seq(self.v)

    def all(self, f):
        """For every element of this sequence (pairs for maps): f(W)."""
        out = []
        for seg in self.seq.segs:
            seg = self.ex.refresh(seg)
            body = self.ex.under(seg, lambda: f(self.w(seg.v)))
            out.append(forall([x for x, _ in seg.b], IMP(AND(self.ex.seg_range(seg.b), seg.g), body)))
        return AND(*out)

    def all_i(self, f):
        """For every element of a plain sequence and its index: f(index, W)."""
        segs = self.seq.segs
        if len(segs) != 1 or len(segs[0].b) != 1 or not is_true(segs[0].g):
            raise Lost('positions of a composed sequence')
        seg = self.ex.refresh(segs[0])
        x = seg.b[0][0]
        body = self.ex.under(seg, lambda: f(x, self.w(seg.v)))
        return forall([x], IMP(self.ex.seg_range(seg.b), body))

    def any(self, f):
        return NOT(self.all(lambda w: NOT(f(w))))

    def values_all(self, f):
        return self.all(lambda p: f(p.f(1)))

    def has(self, kt):
        return self.ex.models.map_has(self.ex, self.v, kt)

    def empty(self):
        ex = self.ex
        if ex.models.maplike(ex, self.v):
            return ex.models.map_empty(ex, self.v)
        return ex.models.empty_of(ex, self.v)


def nonempty_form(ex, seq):
    out = []
    for seg in seq.segs:
        xs = [x for x, _ in seg.b]
        b = AND(ex.seg_range(seg.b), seg.g)
        out.append(z3.Exists(xs, b) if xs else b)
    return OR(*out)


def same(ex, a, b, depth=0):
    """Formula: values a and b are equal (structurally)."""
    st = St()
    a = ex.full_deref(a, st) if not isinstance(a, W) else a.v
    b = ex.full_deref(b, st) if not isinstance(b, W) else b.v
    if depth > 25:
        raise Unsupported('comparison depth')
    if a is UNDEF or b is UNDEF:
        return T if a is b else Fa
    if a is b or ex.same(a, b):
        return T
    if isinstance(a, Ite):
        return AND(IMP(a.c, same(ex, a.a, b, depth + 1)), IMP(NOT(a.c), same(ex, a.b, b, depth + 1)))
    if isinstance(b, Ite):
        return AND(IMP(b.c, same(ex, a, b.a, depth + 1)), IMP(NOT(b.c), same(ex, a, b.b, depth + 1)))
    if isinstance(a, Sc) and isinstance(b, Sc):
        return EQ(a.e, b.e)
    if isinstance(a, Sym) and isinstance(b, Sym):
        return EQ(a.t, b.t)
    M = ex.models
    if M.maplike(ex, a) and M.maplike(ex, b):
        return rel_seq(ex, M.as_map(ex, a).pairs, M.as_map(ex, b).pairs, lambda x, y: AND(same(ex, ex.proj(x, 0, 0), ex.proj(y, 0, 0), depth + 1), same(ex, ex.proj(x, 0, 1), ex.proj(y, 0, 1), depth + 1)))
    if ex.seqlike(a) and ex.seqlike(b):
        return rel_seq(ex, ex.as_seq(a), ex.as_seq(b), lambda x, y: same(ex, x, y, depth + 1))
    if isinstance(a, (Adt, Sym)) and isinstance(b, (Adt, Sym)):
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Fa
        ty = ex.adt_ty(a)
        ty = ex.adt_ty(b) if ty is None else ty
        if ty is None:
            ks = list(a.f)
            return AND(*[same(ex, x, y, depth + 1) for k in ks for x, y in zip(a.f[k], b.f[k])])
        out = [EQ(ex.disc(a), ex.disc(b))]
        for k in range(ex.T.nvariants(ty)):
            n = len(ex.T.fields(ty, k))
            for side in (a, b):
                if isinstance(side, Adt) and k not in side.f:
                    break
            else:
                fs = AND(*[same(ex, ex.proj(a, k, i), ex.proj(b, k, i), depth + 1) for i in range(n)])
                out.append(IMP(EQ(ex.disc(a), I(k)), fs))
        return AND(*out)
    if isinstance(a, Opq) or isinstance(b, Opq):
        return Fa
    raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))


def rel_seq(ex, a, b, rel):
    """Sequences related element by element, in order."""
    A = [s for s in a.segs if not is_false(s.g)]
    B = [s for s in b.segs if not is_false(s.g)]
    if len(A) != len(B) or any(len(x.b) != len(y.b) for x, y in zip(A, B)):
        if len(A) + len(B) > 9:
            raise Unsupported('comparison of sequences of different forms')
        return rel_any(ex, A, B, rel)
    return AND(*[rel_seg(ex, x, y, rel) for x, y in zip(A, B)])


def rel_seg(ex, x, y, rel):
    """Two parts of the same shape related position by position."""
    x = ex.refresh(x)
    sub = [(p, q) for (p, _), (q, _) in zip(y.b, x.b)]
    g2 = z3.substitute(y.g, *sub) if sub else y.g
    v2 = subst(y.v, sub)
    his = [AND(EQ(p[1], z3.substitute(q[1], *sub) if sub else q[1])) for p, q in zip(x.b, y.b)]
    bs = [p for p, _ in x.b]
    body = AND(*(his + [EQ(x.g, g2), IMP(x.g, ex.under(x, lambda: rel(x.v, v2)))]))
    # ranges: equal bounds are demanded outright for the outermost binder
    outer = his[:1] if his else []
    return AND(*(outer + [forall(bs, IMP(ex.seg_range(x.b), body))]))


def seg_empty(ex, s):
    return forall([x for x, _ in s.b], NOT(AND(ex.seg_range(s.b), s.g)))


def rel_any(ex, A, B, rel):
    """The same for lists of parts that do not line up: by cases over which parts contribute."""
    memo = {}

    def go(i, j):
        if (i, j) in memo:
            return memo[i, j]
        if i == len(A) or j == len(B):
            r = AND(*[seg_empty(ex, s) for s in A[i:] + B[j:]])
        else:
            a, b = A[i], B[j]
            if not a.b and not b.b:
                r = IF(a.g, IF(b.g, AND(rel(a.v, b.v), go(i + 1, j + 1)) if not is_false(AND(a.g, b.g)) else Fa, go(i, j + 1)), go(i + 1, j))
            else:
                cases = [AND(seg_empty(ex, a), go(i + 1, j)), AND(seg_empty(ex, b), go(i, j + 1))]
                if len(a.b) == len(b.b):
                    cases.append(AND(rel_seg(ex, a, b, rel), go(i + 1, j + 1)))
                r = OR(*cases)
        memo[i, j] = r
        return r
    return go(0, 0)
