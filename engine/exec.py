"""Symbolic executor for monomorphic MIR: control flow, memory, loops, values.

A function body is executed once, for all inputs: control flow is followed in topological order and
states are merged where paths join; loops over sequences are summarised by a first-exit skolem and
comprehension accumulators (no unrolling, no bound); recursion and work-list loops need a contract.
Everything the code may do wrong (a panic) and every property is collected as an obligation."""
import itertools
import sys
import z3
from core import *
import core

sys.setrecursionlimit(20000)


class St:
    """Memory: cell -> value."""
    __slots__ = ('m',)

    def __init__(self, m=None):
        self.m = m if m is not None else {}

    def copy(self):
        return St(dict(self.m))


class Outcome:
    __slots__ = ('kind', 'g', 'st', 'val')

    def __init__(self, kind, g, st, val=None):
        self.kind = kind
        self.g = g
        self.st = st
        self.val = val


class Obl:
    __slots__ = ('name', 'pc', 'goal', 'kind', 'loc', 'nfacts', 'imprecise')

    def __init__(self, name, pc, goal, kind, loc):
        self.name = name
        self.pc = pc
        self.goal = goal
        self.kind = kind
        self.loc = loc


def strip_generics(n):
    out = []
    d = 0
    for i, c in enumerate(n):
        if c == '<':
            d += 1
        elif c == '>' and not (i and n[i - 1] == '-'):
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out).replace('::::', '::')


def canonical(dump):
    """Representative of each type: types that are printed alike, are the same definition and consist of
    such types (they differ in lifetimes at most)."""
    if 'canon' in dump:
        return dump['canon']
    ts = dump['types']

    def children(x, out, key=None):
        if isinstance(x, dict):
            for k, v in x.items():
                if k not in ('bits', 'len', 'fn', 'box', 'name', 'discr'):
                    children(v, out, k)
        elif isinstance(x, list):
            for v in x:
                children(v, out, key)
        elif isinstance(x, int) and not isinstance(x, bool):
            out.append(x)
        return out
    kids = [[c for c in children(t, []) if c < len(ts)] if t['k'] != 'fndef' else [] for t in ts]
    cls = {}
    cur = [cls.setdefault((t['k'], t['s'], t.get('did'), len(kids[i])), i) for i, t in enumerate(ts)]
    while True:
        cls = {}
        new = [cls.setdefault((cur[i], tuple(cur[c] for c in kids[i])), i) for i in range(len(ts))]
        if new == cur:
            break
        cur = new
    dump['canon'] = {i: (c if ts[i]['k'] != 'fndef' else i) for i, c in enumerate(cur)}
    return dump['canon']


class Ex:
    def __init__(self, dump, contracts=None):
        self.hook = None
        self.D = dump
        self.T = Types(dump['types'])
        self.F = dump['fns']
        self.facts = []            # closed z3 formulas
        self.binders = []          # open binders [(const, ...)]
        self.pcs = []              # path condition stack (list of Bool)
        self.obls = []
        self.cnt = itertools.count()
        self.frame_no = itertools.count(1)
        self.stack = []            # bodies being executed
        self.contracts = contracts or []
        self.used_contracts = set()
        self.imprecise = []
        self.strs = {}
        self.projs = {}
        self.axioms = []           # axioms for projections, etc.
        self.executed = set()      # fn keys executed in line
        self.models_used = set()
        self.closures = {}
        self.quiet = 0
        self.tup_by = {}
        self.retg = ()
        self.loopinv = {}
        self.seqcache = {}
        self.accs = {}              # lists built by loops: what they contain so far, the type asked for
        self.mapcache = {}
        self.survivors = set()
        self.built = []
        for i, t in enumerate(dump['types']):
            if t['k'] == 'tuple':
                self.tup_by.setdefault(tuple(t['tys']), i)
        for k, b in self.F.items():
            if b.get('closure'):
                t = b['locals'][1]
                while self.T[t]['k'] == 'ref':
                    t = self.T[t]['ty']
                self.closures.setdefault(t, k)
        for i, t in enumerate(dump['types']):
            if t['k'] == 'fndef':
                t['fn']['sig'] = t['s']
        self.canon = canonical(dump)
        import models
        self.models = models
        self.cfgs = {}
        # strings
        self.strlen = z3.Function('strlen', V, INT)
        x = z3.Const('x!s', V)
        self.axioms.append(z3.ForAll([x], self.strlen(x) >= 0, patterns=[self.strlen(x)]))

    # ------------------------------------------------------------------ facts / obligations
    def note(self, *what):
        if not self.quiet:
            self.imprecise.append(' '.join(str(w) for w in what))

    def fact(self, f):
        """Assume f for all values of the open binders."""
        if is_true(f):
            return
        bs = [b for b in self.binders if occurs(b, f)]
        if bs:
            f = forall(bs, f)
        self.facts.append(f)

    def fresh(self, name, sort):
        n = '%s!%d' % (name, next(self.cnt))
        if self.binders:
            fn = z3.Function(n, *([b.sort() for b in self.binders] + [sort]))
            return fn(*self.binders)
        return z3.Const(n, sort)

    def freshv(self, name, ty):
        t = self.T[ty]
        if self.T.is_scalar(ty):
            e = self.fresh(name, self.T.sort(ty))
            self.fact(self.range_fact(e, ty))
            return Sc(e, ty)
        return self.mk(self.fresh(name, V), ty)

    def pc(self):
        return list(self.pcs)

    def oblige(self, name, goal, kind='panic', guard=(), loc=None):
        if is_true(goal) or self.quiet:
            return
        self.obls.append(Obl(name, self.pc() + list(guard), goal, kind, loc))

    # ------------------------------------------------------------------ types & projections
    def range_fact(self, e, ty):
        t = self.T[ty]
        k = t['k']
        if k == 'uint':
            return z3.And(e >= 0, e < 2 ** t['bits'])
        if k == 'int':
            return z3.And(e >= -2 ** (t['bits'] - 1), e < 2 ** (t['bits'] - 1))
        if k == 'char':
            return z3.And(e >= 0, e < 0x110000)
        return T

    def tname(self, ty):
        s = self.T[ty]['s']
        return s

    def pfn(self, key, sorts, res, axiom=None):
        """Uninterpreted function by key, with a one-off axiom."""
        f = self.projs.get(key)
        if f is None:
            f = z3.Function('%s' % (key,), *(list(sorts) + [res]))
            self.projs[key] = f
            if axiom:
                xs = [z3.Const('x!%d' % i, s) for i, s in enumerate(sorts)]
                a = axiom(f(*xs))
                if not is_true(a):
                    self.axioms.append(z3.ForAll(xs, a, patterns=[f(*xs)]))
        return f

    def tkey(self, ty):
        return self.canon[ty]

    def mk(self, t, ty):
        """Value of type ty denoted by the V term t (non scalar)."""
        tt = self.T[ty]
        k = tt['k']
        if k == 'ref' or k == 'ptr':
            if self.T[tt['ty']]['k'] == 'dyn':
                return Sym(t, ty)
            return RefV(self.mkany(t, tt['ty']))
        if self.T.isbox(ty):
            return BoxV(self.mkany(t, tt['args'][0]))
        if k == 'fndef':
            return FnV(tt['fn'])
        if k == 'tuple' and not tt['tys']:
            return Adt(ty, 0, {0: ()})
        if k == 'adt' and tt['kind'] == 'struct' and not tt['variants'][0]['fields']:
            return Adt(ty, 0, {0: ()})
        if k == 'closure' and not self.T.fields(ty):
            return Adt(ty, 0, {0: ()})
        if k == 'adt' and tt['kind'] == 'enum' and len(tt['variants']) == 1 and not tt['variants'][0]['fields']:
            return Adt(ty, 0, {0: ()})
        return Sym(t, ty)

    def mkany(self, t, ty):
        """t is a V term standing for a value of type ty, scalar or not."""
        if self.T.is_scalar(ty):
            s = self.T.sort(ty)
            f = self.pfn('unbox.%s' % self.tkey(ty), [V], s, lambda e: self.range_fact(e, ty))
            return Sc(f(t), ty)
        return self.mk(t, ty)

    def proj_fn(self, ty, variant, idx):
        fname, fty = self.T.fields(ty, variant)[idx]
        s = self.T.sort(fty)
        key = 'p.%d.%d.%s' % (self.tkey(ty), variant, fname)
        return self.pfn(key, [V], s, (lambda e: self.range_fact(e, fty)) if s == INT else None), fty

    def disc_fn(self, ty):
        n = self.T.nvariants(ty)
        return self.pfn('disc.%d' % self.tkey(ty), [V], INT, lambda e: z3.And(e >= 0, e < n))

    def elem_fn(self, ety):
        s = self.T.sort(ety)
        return self.pfn('elem.%d' % self.tkey(ety), [V, INT], s, (lambda e: self.range_fact(e, ety)) if s == INT else None)

    def len_fn(self):
        return self.pfn('len', [V], INT, lambda e: e >= 0)

    def key_fn(self, kty):
        return self.pfn('keyat.%d' % self.tkey(kty), [V, INT], self.T.sort(kty))

    def val_fn(self, vty):
        return self.pfn('valat.%d' % self.tkey(vty), [V, INT], self.T.sort(vty))

    def has_fn(self):
        return self.pfn('has', [V, V], BOOL)

    def kidx_fn(self):
        if 'kidx' not in self.projs:
            f = self.pfn('kidx', [V, V], INT)
        return self.projs['kidx']

    def map_axioms(self, kty):
        """Axioms of input maps: has(m,k) iff some index holds k; indices of keys are unique."""
        key = 'mapax.%d' % self.tkey(kty)
        if key in self.projs:
            return
        self.projs[key] = True
        if self.T.sort(kty) != V:
            return
        m, k = z3.Consts('m!m k!m', V)
        i = z3.Int('i!m')
        has, kidx, keyat, ln = self.has_fn(), self.kidx_fn(), self.key_fn(kty), self.len_fn()
        self.axioms.append(z3.ForAll([m, i], z3.Implies(z3.And(0 <= i, i < ln(m)), z3.And(has(m, keyat(m, i)), kidx(m, keyat(m, i)) == i)), patterns=[keyat(m, i)]))
        self.axioms.append(z3.ForAll([m, k], z3.Implies(has(m, k), z3.And(0 <= kidx(m, k), kidx(m, k) < ln(m), keyat(m, kidx(m, k)) == k)), patterns=[has(m, k)]))

    def lit(self, s):
        c = self.strs.get(s)
        if c is None:
            c = z3.Const('str"%s"' % s, V)
            self.strs[s] = c
            LITERALS[c.get_id()] = c
        return c

    def str_axioms(self):
        out = []
        cs = list(self.strs.values())
        if len(cs) > 1:
            out.append(z3.Distinct(*cs))
        for s, c in self.strs.items():
            out.append(self.strlen(c) == len(s.encode()))
        e = self.lit('')
        x = z3.Const('x!e', V)
        out.append(z3.ForAll([x], z3.Implies(self.strlen(x) == 0, x == e), patterns=[self.strlen(x)]))
        return out

    def tuple_ty(self, tys):
        return self.tup_by.get(tuple(tys), -1)

    # ------------------------------------------------------------------ value access
    def disc(self, v):
        if isinstance(v, Adt):
            return v.disc
        if isinstance(v, Sym):
            if self.T.nvariants(v.ty) == 1:
                return I(0)
            return self.disc_fn(v.ty)(v.t)
        if isinstance(v, Ite):
            return IF(v.c, self.disc(v.a), self.disc(v.b))
        if v is UNDEF:
            return I(0)
        raise Unsupported('disc of %r' % type(v).__name__)

    def proj(self, v, variant, idx):
        if isinstance(v, Adt):
            f = v.f.get(variant)
            return f[idx] if f is not None else UNDEF
        if isinstance(v, Sym):
            fs = self.T.fields(v.ty, variant)
            if idx >= len(fs):
                raise Unsupported('projection of %s' % self.tname(v.ty))
            fn, fty = self.proj_fn(v.ty, variant, idx)
            e = fn(v.t)
            return Sc(e, fty) if self.T.is_scalar(fty) else self.mk(e, fty)
        if isinstance(v, Ite):
            return self.merge(v.c, self.proj(v.a, variant, idx), self.proj(v.b, variant, idx))
        if v is UNDEF:
            return UNDEF
        if isinstance(v, BoxV):
            return Opq('boxptr', v=v.v)
        if isinstance(v, RefM) and idx == 0:
            return v        # the pointer of a box under construction
        if isinstance(v, Opq) and v.kind == 'boxptr':
            return v
        if isinstance(v, Pair):
            return v.a if idx == 0 else v.b
        raise Unsupported('projection of %r' % type(v).__name__)

    def expand(self, v):
        """Sym -> Adt (one level)."""
        if isinstance(v, Sym):
            if self.T[v.ty]['k'] not in ('adt', 'tuple', 'closure') or self.T.isvec(v.ty) or self.T.ismap(v.ty) or self.T.isstr(v.ty):
                raise Unsupported('expand %s' % self.tname(v.ty))
            return Adt(v.ty, self.disc(v), {k: tuple(self.proj(v, k, i) for i in range(len(self.T.fields(v.ty, k)))) for k in range(self.T.nvariants(v.ty))})
        if isinstance(v, Ite):
            return self.merge(v.c, self.expand(v.a), self.expand(v.b))
        return v

    def deref(self, v, st):
        if isinstance(v, (RefV, BoxV)):
            return v.v
        if isinstance(v, RefM):
            return self.read_refm(v, st)
        if isinstance(v, Ite):
            return self.merge(v.c, self.deref(v.a, st), self.deref(v.b, st))
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Opq) and v.kind == 'boxptr':
            return v.d['v']
        raise Unsupported('deref of %r' % (type(v).__name__,))

    def full_deref(self, v, st):
        while isinstance(v, (RefV, BoxV, RefM)) or (isinstance(v, Ite) and isinstance(v.a, (RefV, BoxV, RefM, Ite)) and self.isref(v)):
            v = self.deref(v, st)
        return v

    def isref(self, v):
        if isinstance(v, Ite):
            return self.isref(v.a) or self.isref(v.b)
        return isinstance(v, (RefV, BoxV, RefM))

    def read_refm(self, r, st):
        out = None
        for g, c, path in reversed(r.alts):
            v = self.read_path(st.m.get(c, UNDEF), path, st)
            out = v if out is None else self.merge(g, v, out)
        return out if out is not None else UNDEF

    def read_path(self, v, path, st):
        for p in path:
            if p[0] == 'f':
                v = self.proj(v, p[1], p[2])
            elif p[0] == 'box':
                v = self.deref(v, st)
            elif p[0] == 'ix':
                v = self.index(v, p[1])
            else:
                raise Unsupported('path %s' % p[0])
        return v

    def write_path(self, v, path, new, st):
        if not path:
            return new
        p = path[0]
        if p[0] == 'box':
            if isinstance(v, BoxV):
                return BoxV(self.write_path(v.v, path[1:], new, st))
            if isinstance(v, Ite):
                return self.merge(v.c, self.write_path(v.a, path, new, st), self.write_path(v.b, path, new, st))
            raise Unsupported('write through box')
        if p[0] == 'f':
            if isinstance(v, Sym):
                v = self.expand(v)
            if isinstance(v, Ite):
                return self.merge(v.c, self.write_path(v.a, path, new, st), self.write_path(v.b, path, new, st))
            if v is UNDEF:
                v = Adt(p[3] if len(p) > 3 else -1, p[1], {})
            if not isinstance(v, Adt):
                raise Unsupported('field write into %s' % type(v).__name__)
            fs = v.f.get(p[1])
            n = max(len(fs) if fs else 0, p[2] + 1)
            fs = list(fs or ()) + [UNDEF] * (n - len(fs or ()))
            fs[p[2]] = self.write_path(fs[p[2]], path[1:], new, st)
            f = dict(v.f)
            f[p[1]] = tuple(fs)
            return Adt(v.ty, v.disc, f)
        if p[0] == 'ix':
            # an element replaced in place: the others keep their positions
            s = self.as_seq(v)
            if any(isinstance(x.v, Opq) or len(x.b) > 1 or x.b and occurs(x.b[0][0], x.g) for x in s.segs):
                raise Unsupported('write into a filtered sequence')
            x = self.write_path(self.index(s, p[1]), path[1:], new, st)
            off, out = I(0), []
            for seg in s.segs:
                seg = self.refresh(seg)
                at = off + seg.b[0][0] if seg.b else off
                out.append(Seg(seg.b, seg.g, self.merge(EQ(at, p[1]), x, seg.v)))
                off = z3.simplify(off + IF(seg.g, seg.b[0][1] if seg.b else I(1), I(0)))
            return SeqV(tuple(out))
        raise Unsupported('write path %s' % p[0])

    def write_ref(self, r, new, st):
        if isinstance(r, Ite):
            raise Unsupported('write through conditional reference')
        if not isinstance(r, RefM):
            raise Unsupported('write through %s' % type(r).__name__)
        for g, c, path in r.alts:
            old = st.m.get(c, UNDEF)
            nv = self.write_path(old, path, new, st)
            st.m[c] = self.merge(g, nv, old)

    def tmp(self, st, v):
        c = ('t', next(self.cnt))
        st.m[c] = v
        return RefM(((T, c, ()),))

    # ------------------------------------------------------------------ merging
    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, Sc):
            return a.e.eq(b.e)
        if isinstance(a, Sym):
            return a.t.eq(b.t)
        if isinstance(a, (RefV, BoxV)):
            return self.same(a.v, b.v)
        if isinstance(a, Adt):
            return self.canon.get(a.ty, a.ty) == self.canon.get(b.ty, b.ty) and a.disc.eq(b.disc) and a.f.keys() == b.f.keys() and all(len(a.f[k]) == len(b.f[k]) and all(self.same(x, y) for x, y in zip(a.f[k], b.f[k])) for k in a.f)
        if isinstance(a, Ite):
            return a.c.eq(b.c) and self.same(a.a, b.a) and self.same(a.b, b.b)
        if isinstance(a, RefM):
            return len(a.alts) == len(b.alts) and all(x[0].eq(y[0]) and x[1] == y[1] and x[2] == y[2] for x, y in zip(a.alts, b.alts))
        if isinstance(a, SeqV):
            return len(a.segs) == len(b.segs) and all(self.same_seg(x, y) for x, y in zip(a.segs, b.segs))
        if isinstance(a, MapV):
            return a.t.eq(b.t) and self.same(a.pairs, b.pairs)
        if isinstance(a, FnV):
            return a.ref is b.ref or fnkey(a.ref) == fnkey(b.ref)
        if isinstance(a, IterV):
            return self.same(a.seq, b.seq) and a.pos.eq(b.pos) and a.stages == b.stages
        if isinstance(a, Pair):
            return self.same(a.a, b.a) and self.same(a.b, b.b)
        if isinstance(a, Opq):
            if a.kind != b.kind or a.d.keys() != b.d.keys():
                return False
            for k in a.d:
                x, y = a.d[k], b.d[k]
                if x is y:
                    continue
                if isinstance(x, Val):
                    if not isinstance(y, Val) or not self.same(x, y):
                        return False
                elif isinstance(x, z3.ExprRef):
                    if not isinstance(y, z3.ExprRef) or not x.eq(y):
                        return False
                elif x != y:
                    return False
            return True
        return False

    def same_seg(self, x, y):
        return x is y or (len(x.b) == len(y.b) and all(p[0].eq(q[0]) and p[1].eq(q[1]) for p, q in zip(x.b, y.b)) and x.g.eq(y.g) and self.same(x.v, y.v))

    def merge(self, c, a, b):
        if is_true(c) or a is b:
            return a
        if is_false(c):
            return b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Sc) and isinstance(b, Sc) and a.e.sort() == b.e.sort():
            return Sc(IF(c, a.e, b.e), a.ty)
        if self.same(a, b):
            return a
        if isinstance(a, Adt) and isinstance(b, Adt) and (a.ty == b.ty or self.canon.get(a.ty, a.ty) == self.canon.get(b.ty, b.ty) or -1 in (a.ty, b.ty)):
            f = {}
            for k in list(a.f) + [k for k in b.f if k not in a.f]:
                x, y = a.f.get(k), b.f.get(k)
                if x is None:
                    f[k] = y
                elif y is None:
                    f[k] = x
                elif len(x) == len(y):
                    f[k] = tuple(self.merge(c, p, q) for p, q in zip(x, y))
                else:
                    n = max(len(x), len(y))
                    x = list(x) + [UNDEF] * (n - len(x))
                    y = list(y) + [UNDEF] * (n - len(y))
                    f[k] = tuple(self.merge(c, p, q) for p, q in zip(x, y))
            return Adt(a.ty if a.ty != -1 else b.ty, IF(c, a.disc, b.disc), f)
        if isinstance(a, RefV) and isinstance(b, RefV):
            return RefV(self.merge(c, a.v, b.v))
        if isinstance(a, BoxV) and isinstance(b, BoxV):
            return BoxV(self.merge(c, a.v, b.v))
        if isinstance(a, RefM) and isinstance(b, RefM):
            return RefM(tuple([(AND(c, g), k, p) for g, k, p in a.alts] + [(AND(NOT(c), g), k, p) for g, k, p in b.alts]))
        if isinstance(a, Sym) and isinstance(b, Sym) and self.T.isstr(a.ty):
            return Sym(IF(c, a.t, b.t), a.ty)
        if isinstance(a, SeqV) or isinstance(b, SeqV):
            if self.seqlike(a) and self.seqlike(b):
                return self.merge_seq(c, self.as_seq(a), self.as_seq(b))
        if isinstance(a, MapV) and isinstance(b, MapV):
            return MapV(self.merge_seq(c, a.pairs, b.pairs), IF(c, a.t, b.t), a.distinct and b.distinct)
        if isinstance(a, IterV) and isinstance(b, IterV) and a.pos.eq(b.pos) and a.stages == b.stages:
            return IterV(self.merge_seq(c, a.seq, b.seq), a.pos, a.stages)
        if isinstance(a, Ite) and a.c.eq(c):
            return self.merge(c, a.a, b)
        if isinstance(b, Ite) and b.c.eq(c):
            return self.merge(c, a, b.b)
        return Ite(c, a, b)

    def merge_seq(self, c, a, b):
        n = 0
        while n < len(a.segs) and n < len(b.segs) and self.same_seg(a.segs[n], b.segs[n]):
            n += 1
        x, y = a.segs[n:], b.segs[n:]
        if len(x) == 1 and len(y) == 1 and not x[0].b and not y[0].b and is_true(x[0].g) and is_true(y[0].g):
            return SeqV(a.segs[:n] + (Seg((), T, self.merge(c, x[0].v, y[0].v)),))
        out = []
        i = j = 0
        while i < len(x) and j < len(y):
            # the same elements under other conditions are kept once
            if self.same_elem(x[i], y[j]):
                out.append(Seg(x[i].b, IF(c, x[i].g, y[j].g), x[i].v))
                i += 1
                j += 1
                continue
            k = next((k for k in range(j + 1, len(y)) if self.same_elem(x[i], y[k])), None)
            if k is not None:
                out += [Seg(s.b, AND(NOT(c), s.g), s.v) for s in y[j:k]]
                j = k
            else:
                out.append(Seg(x[i].b, AND(c, x[i].g), x[i].v))
                i += 1
        out += [Seg(s.b, AND(c, s.g), s.v) for s in x[i:]] + [Seg(s.b, AND(NOT(c), s.g), s.v) for s in y[j:]]
        return SeqV(a.segs[:n] + tuple(out))

    def same_elem(self, x, y):
        return len(x.b) == len(y.b) and all(p[0].eq(q[0]) and p[1].eq(q[1]) for p, q in zip(x.b, y.b)) and self.same(x.v, y.v)

    def seqlike(self, v):
        if isinstance(v, SeqV):
            return True
        if isinstance(v, Sym):
            return self.T.isvec(v.ty) or self.T[v.ty]['k'] in ('slice', 'array')
        if isinstance(v, Ite):
            return self.seqlike(v.a) and self.seqlike(v.b)
        return False

    # ------------------------------------------------------------------ sequences
    def elem_ty(self, ty):
        t = self.T[ty]
        if t['k'] in ('slice', 'array'):
            return t['ty']
        if t['k'] == 'adt' and t['args']:
            return t['args'][0]
        raise Unsupported('element type of %s' % t['s'])

    def bind(self, name='i'):
        return z3.Int('%s!%d' % (name, next(self.cnt)))

    def elem(self, v, i):
        """i-th element of a symbolic vec/slice."""
        ety = self.elem_ty(v.ty)
        e = self.elem_fn(ety)(v.t, i)
        return Sc(e, ety) if self.T.is_scalar(ety) else self.mk(e, ety)

    def as_seq(self, v):
        if isinstance(v, SeqV):
            return v
        if isinstance(v, Sym) and self.seqlike(v):
            k = (v.t.get_id(), v.ty)
            r = self.seqcache.get(k)
            if r is None:
                i = self.bind()
                r = SeqV((Seg(((i, self.len_fn()(v.t)),), T, self.elem(v, i)),), meta=v)
                self.seqcache[k] = r
            return r
        if isinstance(v, Ite):
            return self.merge_seq(v.c, self.as_seq(v.a), self.as_seq(v.b))
        if isinstance(v, IterV):
            return v.seq
        if isinstance(v, (RefV, BoxV)):
            return self.as_seq(v.v)
        if v is UNDEF:
            return SeqV(())
        raise Unsupported('sequence view of %s' % (type(v).__name__ + (' ' + self.tname(v.ty) if isinstance(v, Sym) else '')))

    def refresh(self, seg):
        """Fresh binders for a segment (so that one sequence can be traversed twice at once)."""
        sub = []
        nb = []
        for x, hi in seg.b:
            y = self.bind('i')
            nb.append((y, z3.substitute(hi, *sub) if sub else hi))
            sub.append((x, y))
        return Seg(tuple(nb), z3.substitute(seg.g, *sub) if sub else seg.g, subst(seg.v, sub))

    def seg_range(self, b):
        return AND(*[AND(0 <= x, x < hi) for x, hi in b])

    def seq_len_is_empty(self, s):
        """Bool: sequence has no element."""
        conds = []
        for seg in s.segs:
            conds.append(NOT(self.exists(seg.b, seg.g)))
        return AND(*conds)

    def exists(self, b, cond):
        """Bool constant equivalent to: some binders in range satisfy cond."""
        if is_false(cond):
            return Fa
        if not b:
            return cond
        if is_true(cond) and len(b) == 1:
            return z3.simplify(b[0][1] > 0) if z3.is_int_value(b[0][1]) else b[0][1] > 0
        h = self.fresh('ex', BOOL)
        sub = [(x, self.fresh('w', INT)) for x, _ in b]
        body = AND(self.seg_range(b), cond)
        self.fact(IMP(h, z3.substitute(body, *sub)))
        xs = [x for x, _ in b]
        self.fact(forall(xs, IMP(body, h)))
        return h

    def first(self, b, cond, last=False):
        """(h, sub): h iff some binders satisfy cond; sub maps binders to the lexicographically first (last)."""
        if is_false(cond):
            return Fa, None
        if not b:
            return cond, []
        if len(b) == 1 and is_true(cond):
            return b[0][1] > 0, [(b[0][0], b[0][1] - 1 if last else I(0))]
        h = self.fresh('hit', BOOL)
        sub = [(x, self.fresh('w', INT)) for x, _ in b]
        body = AND(self.seg_range(b), cond)
        self.fact(IMP(h, z3.substitute(body, *sub)))
        xs = [x for x, _ in b]
        ys = [y for _, y in sub]
        self.fact(forall(xs, IMP(body, AND(h, NOT(lexlt(ys, xs) if last else lexlt(xs, ys))))))
        return h, sub

    def seq_len(self, s):
        tot = None
        for seg in s.segs:
            if isinstance(seg.v, Opq) and seg.v.kind == 'acc':
                raise Unsupported('length of an accumulator')
            if not seg.b:
                e = IF(seg.g, I(1), I(0))
            elif len(seg.b) == 1 and is_true(seg.g):
                e = seg.b[0][1]
            elif len(seg.b) == 1 and not occurs(seg.b[0][0], seg.g):
                e = IF(seg.g, seg.b[0][1], I(0))
            else:
                e = self.fresh('cnt', INT)
                ex = self.exists(seg.b, seg.g)
                self.fact(AND(e >= 0, (e > 0) == ex, T if len(seg.b) > 1 else OR(e == 0, e <= seg.b[0][1])))
                if len(seg.b) == 1:
                    self.fact(e <= IF(seg.b[0][1] > 0, seg.b[0][1], I(0)))
            tot = e if tot is None else tot + e
        return tot if tot is not None else I(0)

    def single(self, v):
        return Seg((), T, v)

    def map_seq(self, s, f):
        """Apply f(value) under the binders of each segment."""
        out = []
        for seg in s.segs:
            if isinstance(seg.v, Opq) and seg.v.kind == 'acc':
                raise Unsupported('mapping an accumulator')
            seg = self.refresh(seg)
            v = self.under(seg, lambda: f(seg.v))
            out.append(Seg(seg.b, seg.g, v))
        return SeqV(tuple(out))

    def under(self, seg, f):
        nb = len(seg.b)
        self.binders.extend(x for x, _ in seg.b)
        n = len(self.pcs)
        self.pcs.extend([self.seg_range(seg.b), seg.g])
        try:
            return f()
        finally:
            del self.pcs[n:]
            if nb:
                del self.binders[-nb:]

    # ------------------------------------------------------------------ calling closures / functions
    def call_pure(self, f, args, st):
        """Call a function value; its effects on pre-existing memory must be nil."""
        st2 = st.copy()
        before = dict(st2.m)
        r = self.call_value(f, args, st2)
        for c, v in before.items():
            w = st2.m.get(c)
            if w is not v and not self.same(v, w):
                raise Unsupported('closure with effects')
        return r

    def call_value(self, f, args, st):
        if isinstance(f, (RefV,)):
            return self.call_value(f.v, args, st)
        if isinstance(f, RefM):
            v = self.deref(f, st)
            if isinstance(v, Adt) and self.T.kind(v.ty) == 'closure':
                return self.call_closure(f, v, args, st)
            return self.call_value(v, args, st)
        if isinstance(f, FnV):
            return self.call_inst(f.ref, args, st, None)
        if isinstance(f, Adt) and self.T.kind(f.ty) == 'closure':
            return self.call_closure(f, f, args, st)
        if isinstance(f, BoxV):
            return self.call_value(f.v, args, st)
        raise Unsupported('call of %s' % type(f).__name__)

    def call_closure(self, selfarg, clo, args, st):
        key = self.closures.get(clo.ty)
        if key is None:
            raise Unsupported('closure body of %s' % self.tname(clo.ty))
        body = self.F[key]
        t = self.T[body['locals'][1]]
        if t['k'] == 'ref':
            if t['mut']:
                a0 = selfarg if isinstance(selfarg, RefM) else self.tmp(st, clo)
            else:
                a0 = RefV(clo)
        else:
            a0 = clo
        return self.run_body(key, [a0] + list(args), st)

    def call_inst(self, ref, args, st, site):
        """Call a resolved function reference with already evaluated arguments."""
        inst = ref.get('inst')
        d = ref.get('def', '')
        name = inst['name'] if inst else d
        defname = inst['defname'] if inst else d
        # contracts on functions of the crate under verification
        self.retg = ()
        c = self.find_contract(defname, inst)
        if c is not None:
            r = c.apply(self, inst, args, st, site)
            self.retg = ()
            return r
        if self.hook is not None:
            r = self.hook(self, Call(self, ref, args, site), st, defname)
            self.retg = ()
            if r is not NotImplemented:
                return r
        m = self.models.lookup(self, ref, args)
        if m is not None:
            r = m(self, Call(self, ref, args, site), st)
            self.retg = ()
            if r is not NotImplemented:
                self.models_used.add(d or name)
                return r
        if inst is None:
            raise Unsupported('unresolved call %s' % d)
        key = inst['key']
        b = self.F.get(key)
        if b is None:
            r = self.constructor(ref, defname, args, site)
            if r is not None:
                return r
            raise Unsupported('no body for %s' % name)
        if b.get('closure'):
            # direct call of a closure body: (self, (args...))
            a = list(args)
            if b.get('spread', -1) < 0 and len(a) == 2:
                tup = a[1]
                n = b['argc'] - 1
                a = [a[0]] + [self.proj(tup, 0, i) for i in range(n)]
            t = self.T[b['locals'][1]]
            a0 = a[0]
            if t['k'] == 'ref' and not t['mut'] and isinstance(a0, RefM):
                a0 = RefV(self.deref(a0, st))
            if t['k'] != 'ref' and isinstance(a0, (RefV, RefM)):
                a0 = self.deref(a0, st)
            if t['k'] == 'ref' and not isinstance(a0, (RefV, RefM)):
                a0 = self.tmp(st, a0) if t['mut'] else RefV(a0)
            return self.run_body(key, [a0] + a[1:], st)
        return self.run_body(key, args, st)

    def constructor(self, ref, defname, args, site):
        """A tuple constructor used as a function value (its type tells what it builds)."""
        sig = ref.get('sig')
        ty = None
        d = 0
        if site:
            ty = site['destty']
            head = ''
        elif not sig:
            return None
        else:
            head = sig[:sig.rindex(' {')]
        for i in range(len(head) - 1, 0, -1):
            c = head[i]
            if c == '>' and head[i - 1] != '-':
                d += 1
            elif c == '<':
                d -= 1
            elif c == '>' and d == 0:
                ty = self.T.by_s.get(head[i + 1:].strip())
                break
        if ty is None or self.T[ty]['k'] != 'adt':
            return None
        last = defname.split('::')[-1]
        for i, v in enumerate(self.T[ty]['variants']):
            if v['name'] == last and len(v['fields']) == len(args):
                return Adt(ty, i, {i: tuple(args)})
        return None

    def find_contract(self, defname, inst):
        for c in self.contracts:
            if c.matches(self, defname, inst):
                return c
        return None

    # ------------------------------------------------------------------ function bodies
    def cfg(self, key):
        c = self.cfgs.get(key)
        if c is None:
            c = Cfg(self.F[key])
            self.cfgs[key] = c
        return c

    def run_body(self, key, args, st):
        if key in [k for k, _ in self.stack]:
            raise Unsupported('recursion without contract: %s' % self.F[key]['defname'])
        if len(self.stack) > 120:
            raise Unsupported('call depth')
        body = self.F[key]
        fr = next(self.frame_no)
        self.executed.add(key)
        m = st.m
        if body['argc'] != len(args):
            if False:
                pass
            else:
                raise Unsupported('argument count of %s: %d vs %d' % (body['name'], body['argc'], len(args)))
        for i, a in enumerate(args):
            m[(fr, i + 1)] = a
        self.stack.append((key, fr))
        npc = len(self.pcs)
        try:
            cfg = self.cfg(key)
            outs = self.region(key, fr, cfg, None, 0, (), st)
            rets = outs.get('ret')
            if not rets:
                # never returns
                raise Diverges(body['name'])
            g, st2 = self.merge_states(rets)
            # returning only under g: the rest panics (obligations already recorded) or is cut off
            # by a loop summary
            self.retg = tuple(g)
            st.m = st2.m
            r = st.m.get((fr, 0), UNDEF)
            t0 = self.T[body['locals'][0]]
            if r is UNDEF and t0['k'] == 'tuple' and not t0['tys']:
                r = Adt(body['locals'][0], 0, {0: ()})
            for k in [k for k in st.m if k[0] == fr and not self.referenced(k, r)]:
                del st.m[k]
            return r
        except Unsupported as e:
            if not hasattr(e, 'where'):
                e.where = [self.F[k]['name'][:140] for k, _ in self.stack]
            raise
        finally:
            self.stack.pop()
            del self.pcs[npc:]

    def referenced(self, cell, r):
        # a returned &mut can only point to caller memory; frame cells are dead after return
        return False

    def merge_states(self, lst):
        """[(guard tuple, St)] -> (guard tuple, St)"""
        if len(lst) == 1:
            return lst[0]
        n = 0
        g0 = lst[0][0]
        while all(len(g) > n for g, _ in lst) and all(g[n].eq(g0[n]) for g, _ in lst[1:]):
            n += 1
        rests = [AND(*g[n:]) for g, _ in lst]
        tot = OR(*rests)
        if not is_true(tot):
            # Not(Or(x, y)) together with x and y is exhaustive
            for r in rests:
                if z3.is_not(r) and z3.is_or(r.arg(0)):
                    others = [q for q in rests if q is not r]
                    flat = []
                    for q in others:
                        flat.extend(q.children() if z3.is_or(q) else [q])
                    if all(any(ch.eq(q) for q in flat) for ch in r.arg(0).children()):
                        tot = T
        g = g0[:n] + (() if is_true(tot) else (tot,))
        states = [s for _, s in lst]
        cells = set()
        first = states[0].m
        for s in states:
            cells.update(s.m.keys())
        m = {}
        for c in cells:
            vs = [s.m.get(c, UNDEF) for s in states]
            v = vs[-1]
            if all(x is v for x in vs):
                m[c] = v
                continue
            for r, x in zip(reversed(rests[:-1]), reversed(vs[:-1])):
                v = self.merge(r, x, v)
            m[c] = v
        return g, St(m)

    def region(self, key, fr, cfg, blocks, entry, g0, st0, header=None):
        """Execute blocks (None = all) from entry; returns {target|'ret': [(guard, st)]}."""
        pending = {entry: [(g0, st0)]}
        outs = {}
        body = cfg.body
        order = cfg.order
        startpos = cfg.pos[entry]
        for b in order[startpos:]:
            if b not in pending:
                continue
            g, st = self.merge_states(pending.pop(b))
            if any(is_false(x) for x in g):
                continue
            if b in cfg.loops and b != header:
                edges = self.loop(key, fr, cfg, b, g, st)
            else:
                edges = self.block(key, fr, body, b, g, st)
            for tgt, eg, est in edges:
                if any(is_false(x) for x in eg):
                    continue
                if tgt == 'ret' or (blocks is not None and tgt not in blocks) or tgt == header:
                    outs.setdefault(tgt, []).append((eg, est))
                else:
                    if cfg.pos[tgt] <= cfg.pos[b]:
                        raise Unsupported('irreducible control flow')
                    pending.setdefault(tgt, []).append((eg, est))
        return outs

    def block(self, key, fr, body, b, g, st):
        st = st.copy()
        bl = body['blocks'][b]
        npc = len(self.pcs)
        self.pcs.extend(g)
        try:
            for s in bl['s']:
                self.stmt(fr, body, s, st)
            return self.term(key, fr, body, b, bl['t'], bl.get('l'), g, st)
        except Diverges:
            self.oblige('reachable divergence in %s line %s' % (body['defname'], bl.get('l')), Fa, loc=(body['file'], bl.get('l')))
            return []
        finally:
            del self.pcs[npc:]

    # ------------------------------------------------------------------ places and operands
    def place_path(self, fr, pl, st, for_write=False):
        """Resolve a place into ('cell', cell, path) or ('val', value) (read only)."""
        local, projs = pl
        cell = (fr, local)
        path = []
        variant = 0
        mode = 'cell'
        cur = None
        alts = None
        for p in projs:
            k = p[0]
            if k == 'downcast':
                variant = p[1]
                continue
            if k == 'field':
                if mode == 'cell':
                    path.append(('f', variant, p[1]))
                elif mode == 'alts':
                    alts = [(g, c, pp + (('f', variant, p[1]),)) for g, c, pp in alts]
                else:
                    cur = self.proj(cur, variant, p[1])
                variant = 0
                continue
            if k == 'deref':
                if mode == 'cell':
                    v = self.read_path(st.m.get(cell, UNDEF), path, st)
                elif mode == 'alts':
                    v = self.read_refm(RefM(tuple(alts)), st)
                else:
                    v = cur
                if isinstance(v, RefM):
                    mode, alts = 'alts', [(g, c, tuple(pp)) for g, c, pp in v.alts]
                elif isinstance(v, BoxV) and mode in ('cell', 'alts'):
                    if mode == 'cell':
                        path.append(('box',))
                    else:
                        alts = [(g, c, pp + (('box',),)) for g, c, pp in alts]
                elif isinstance(v, Ite) and self.all_refm(v):
                    mode, alts = 'alts', self.flat_refm(v)
                else:
                    mode, cur = 'val', self.deref(v, st)
                continue
            if for_write and mode in ('cell', 'alts') and k in ('index', 'cindex'):
                at = ('ix', self.position(fr, p, lambda: self.read_path(st.m.get(cell, UNDEF), path, st) if mode == 'cell' else self.read_refm(RefM(tuple(alts)), st), st))
                if mode == 'cell':
                    path.append(at)
                else:
                    alts = [(g, c, pp + (at,)) for g, c, pp in alts]
                continue
            # index etc.: value mode
            if mode == 'cell':
                cur = self.read_path(st.m.get(cell, UNDEF), path, st)
            elif mode == 'alts':
                cur = self.read_refm(RefM(tuple(alts)), st)
            mode = 'val'
            if k in ('index', 'cindex'):
                cur = self.index(cur, self.position(fr, p, lambda: cur, st))
            elif k == 'subslice':
                cur = self.subslice(cur, p[1], p[2], p[3])
            else:
                raise Unsupported('projection %s' % k)
        if mode == 'cell':
            return ('cell', cell, tuple(path), variant)
        if mode == 'alts':
            return ('alts', alts, None, variant)
        return ('val', cur, None, variant)

    def position(self, fr, p, seq, st):
        if p[0] == 'index':
            return st.m[(fr, p[1])].e
        return self.seq_len(self.as_seq(seq())) - I(p[1]) if p[3] else I(p[1])

    def all_refm(self, v):
        return isinstance(v, RefM) or isinstance(v, Ite) and self.all_refm(v.a) and self.all_refm(v.b)

    def flat_refm(self, v):
        if isinstance(v, RefM):
            return [(g, c, tuple(p)) for g, c, p in v.alts]
        return [(AND(v.c, g), c, p) for g, c, p in self.flat_refm(v.a)] + [(AND(NOT(v.c), g), c, p) for g, c, p in self.flat_refm(v.b)]

    def index(self, v, i):
        if isinstance(v, Sym):
            return self.elem(v, i)
        if isinstance(v, Ite):
            return self.merge(v.c, self.index(v.a, i), self.index(v.b, i))
        if isinstance(v, SeqV):
            if len(v.segs) == 1 and len(v.segs[0].b) == 1 and is_true(v.segs[0].g):
                seg = v.segs[0]
                return subst(seg.v, [(seg.b[0][0], i)])
            if z3.is_int_value(i) and all(not s.b and is_true(s.g) for s in v.segs[:i.as_long() + 1]) and i.as_long() < len(v.segs):
                return v.segs[i.as_long()].v
            if all(not s.b and is_true(s.g) for s in v.segs) and v.segs:
                out = v.segs[-1].v
                for k in range(len(v.segs) - 2, -1, -1):
                    out = self.merge(EQ(i, I(k)), v.segs[k].v, out)
                return out
            if v.segs and all(len(s.b) < 2 and not (s.b and occurs(s.b[0][0], s.g)) for s in v.segs):
                off, out, parts = I(0), None, []
                for s in v.segs:
                    n = IF(s.g, s.b[0][1] if s.b else I(1), I(0))
                    parts.append((off + n, subst(s.v, [(s.b[0][0], i - off)]) if s.b else s.v))
                    off = off + n
                for end, x in reversed(parts):
                    out = x if out is None else self.merge(i < end, x, out)
                return out
        raise Unsupported('indexing')

    def subslice(self, v, frm, to, from_end):
        s = self.as_seq(v)
        if all(not x.b and is_true(x.g) for x in s.segs):
            n = len(s.segs)
            return SeqV(s.segs[frm:(n - to) if from_end else to])
        if frm == 0 and to == 0 and from_end:
            return v
        s, ln = self.models.total(self, s)
        return self.models.part(self, s, I(frm), ln - I(to) if from_end else I(to))

    def read_place(self, fr, pl, st):
        k, a, path, variant = self.place_path(fr, pl, st)
        if k == 'cell':
            return self.read_path(st.m.get(a, UNDEF), path, st)
        if k == 'alts':
            return self.read_refm(RefM(tuple(a)), st)
        return a

    def write_place(self, fr, pl, v, st):
        k, a, path, variant = self.place_path(fr, pl, st, True)
        if k == 'cell':
            st.m[a] = self.write_path(st.m.get(a, UNDEF), path, v, st) if path else v
        elif k == 'alts':
            self.write_ref(RefM(tuple(a)), v, st)
        else:
            raise Unsupported('write to a read-only place')

    def literals(self):
        """The path condition as literals: those that hold, those that do not, and negated conjunctions."""
        pos, neg, clauses = set(), set(), []

        def lit(l):
            if z3.is_and(l):
                for x in l.children():
                    lit(x)
            elif z3.is_not(l):
                x = l.arg(0)
                neg.add(x.get_id())
                if z3.is_or(x):
                    for y in x.children():
                        lit(NOT(y))
                elif z3.is_and(x):
                    clauses.append(x)
            else:
                pos.add(l.get_id())
        for c in self.pcs:
            lit(c)
        return pos, neg, clauses

    def excluded(self, c):
        """The path condition says, literally, that c is false."""
        pos, neg, _ = self.literals()
        return self.holds(NOT(c), pos, neg)

    def prune(self, v, depth=4):
        """Drop alternatives of a value that the current path excludes."""
        if isinstance(v, Adt):
            if depth == 0:
                return v
            ch = False
            f = {}
            for k, fs in v.f.items():
                n = tuple(self.prune(x, depth - 1) for x in fs)
                ch = ch or any(a is not b for a, b in zip(n, fs))
                f[k] = n
            return Adt(v.ty, v.disc, f) if ch else v
        if not isinstance(v, Ite):
            return v
        pos, neg, clauses = self.literals()

        def false(c, pos, neg):
            if self.holds(NOT(c), pos, neg):
                return True
            for cl in clauses:
                if all(x.eq(c) or self.holds(x, pos, neg) for x in cl.children()):
                    return True
            return False

        def go(v, pos, neg):
            if isinstance(v, Ite):
                if self.holds(v.c, pos, neg):
                    return go(v.a, pos, neg)
                if false(v.c, pos, neg):
                    return go(v.b, pos, neg)
                i = v.c.get_id()
                if z3.is_not(v.c):
                    j = v.c.arg(0).get_id()
                    a, b = go(v.a, pos, neg | {j}), go(v.b, pos | {j}, neg)
                else:
                    a, b = go(v.a, pos | {i}, neg), go(v.b, pos, neg | {i})
                return v if a is v.a and b is v.b else self.merge(v.c, a, b)
            return v
        return go(v, pos, neg)

    def holds(self, c, pos, neg):
        if c.get_id() in pos:
            return True
        if z3.is_not(c):
            return c.arg(0).get_id() in neg
        if z3.is_and(c):
            return all(self.holds(x, pos, neg) for x in c.children())
        if z3.is_or(c):
            return any(self.holds(x, pos, neg) for x in c.children())
        return False

    def operand(self, fr, o, st):
        if 'copy' in o:
            return self.read_place(fr, o['copy'], st)
        if 'move' in o:
            return self.read_place(fr, o['move'], st)
        if 'const' in o:
            return self.const(o['const'], o['ty'])
        if 'rtcheck' in o:
            return Sc(Fa, None)
        raise Unsupported('operand')

    def const(self, c, ty):
        t = self.T[ty]
        if 'bool' in c:
            return Sc(z3.BoolVal(c['bool']), ty)
        if 'int' in c:
            n = int(c['int'])
            return Sc(I(n), ty)
        if 'float' in c:
            bits = int(c['float'])
            s = self.T.sort(ty)
            return Sc(z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, c['bits']), s)), ty)
        if 'zst' in c:
            if t['k'] == 'fndef':
                return FnV(t['fn'])
            return Adt(ty, 0, {0: tuple(self.const({'zst': 1}, f) for _, f in self.T.fields(ty))} if self.T.is_agg(ty) else {0: ()})
        if 'str' in c:
            sty = t['ty'] if t['k'] in ('ref', 'ptr') else ty
            return RefV(Sym(self.lit(c['str']), sty))
        if 'adt' in c:
            fs = self.T.fields(ty, c['adt'])
            if self.T.isstr(ty):
                return Sym(self.lit(''), ty)
            if self.T.isvec(ty):
                return SeqV(())
            return Adt(ty, c['adt'], {c['adt']: tuple(self.const(x, f) for x, (_, f) in zip(c['fields'], fs))})
        if 'tuple' in c:
            return Adt(ty, 0, {0: tuple(self.const(x, f) for x, (_, f) in zip(c['tuple'], self.T.fields(ty)))})
        if 'array' in c:
            e = self.elem_ty(ty)
            return SeqV(tuple(self.single(self.const(x, e)) for x in c['array']))
        if 'ref' in c:
            it = t['ty'] if t['k'] in ('ref', 'ptr') else ty
            return RefV(self.const(c['ref'], it))
        if 'fnptr' in c:
            return FnV({'def': c['fnptr'].get('defname', ''), 'args': [], 'inst': c['fnptr']})
        if t['k'] in ('ref', 'ptr') or 'static' in c or 'raw' in c or 'addr' in c:
            # an opaque constant (statics, addresses): a fixed unknown value
            key = str(sorted(c.items()))
            return self.mkconst('const:%s:%d' % (key, ty), ty)
        raise Unsupported('constant %s of %s' % (c, t['s']))

    def mkconst(self, name, ty):
        if self.T.is_scalar(ty):
            e = z3.Const(name, self.T.sort(ty))
            self.facts.append(self.range_fact(e, ty))
            return Sc(e, ty)
        return self.mk(z3.Const(name, V), ty)

    # ------------------------------------------------------------------ statements
    def stmt(self, fr, body, s, st):
        k = s[0]
        if k == 'assign':
            v = self.rvalue(fr, body, s[2], st, s[1])
            self.write_place(fr, s[1], v, st)
        elif k in ('live', 'dead'):
            st.m.pop((fr, s[1]), None)
        elif k == 'setdiscr':
            kk, a, path, var = self.place_path(fr, s[1], st)
            cur = self.read_place(fr, s[1], st)
            if isinstance(cur, Adt):
                self.write_place(fr, s[1], Adt(cur.ty, s[2], cur.f), st)
            else:
                raise Unsupported('setdiscr')
        elif k == 'assume':
            pass
        else:
            raise Unsupported('statement %s' % k)

    def rvalue(self, fr, body, r, st, dest):
        k = r[0]
        if k == 'use':
            return self.operand(fr, r[1], st)
        if k in ('ref', 'addrof'):
            if k == 'ref':
                mut, pl = r[1], r[2]
            else:
                pl = r[1]
                mut = None
            kind, a, path, var = self.place_path(fr, pl, st, mut is True)
            if kind == 'val':
                return RefV(a)
            if mut is False:
                if kind == 'cell':
                    return RefV(self.read_path(st.m.get(a, UNDEF), path, st))
                return RefV(self.read_refm(RefM(tuple(a)), st))
            if kind == 'cell':
                return RefM(((T, a, tuple(path)),))
            return RefM(tuple(a))
        if k == 'agg':
            ty, kind, ops = r[1], r[2], r[3]
            vs = tuple(self.prune(self.operand(fr, o, st)) for o in ops)
            kk = kind[0] if isinstance(kind, list) else kind
            if kk == 'adt':
                variant = kind[1]
                return Adt(ty, variant, {variant: vs})
            if kk in ('tuple', 'closure'):
                return Adt(ty, 0, {0: vs})
            if kk == 'array':
                return SeqV(tuple(self.single(v) for v in vs))
            if kk == 'rawptr':
                return vs[0]
            raise Unsupported('aggregate %s' % kk)
        if k == 'bin':
            return self.binop(r[1], self.operand(fr, r[2], st), self.operand(fr, r[3], st), r[4], st)
        if k == 'cbin':
            a = self.operand(fr, r[2], st)
            b = self.operand(fr, r[3], st)
            e = self.arith(r[1], a.e, b.e)
            ty = r[4]
            opty = ty
            # r[4] is the operand type
            ov = NOT(self.range_fact(e, opty))
            return Adt(-1, 0, {0: (Sc(e, opty), Sc(z3.simplify(ov), None))})
        if k == 'un':
            v = self.operand(fr, r[2], st)
            if r[1] == 'Not':
                if z3.is_bool(v.e):
                    return Sc(NOT(v.e), v.ty)
                raise Unsupported('bitwise not')
            if r[1] == 'Neg':
                if v.e.sort() in (F64, F32):
                    return Sc(z3.fpNeg(v.e), v.ty)
                return Sc(-v.e, v.ty)
            if r[1] == 'PtrMetadata':
                x = self.deref(v, st)
                if isinstance(x, Sym) and self.T.isstr(x.ty):
                    return Sc(self.strlen(x.t), r[3])
                return Sc(self.seq_len(self.as_seq(x)), r[3])
            raise Unsupported('unary %s' % r[1])
        if k == 'cast':
            v = self.operand(fr, r[2], st)
            kind = r[1]
            if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'FnPtrToPtr') or kind.startswith('Subtype'):
                if kind.startswith('PointerCoercion') and isinstance(v, (RefV, RefM, BoxV)):
                    return v
                return v
            if kind == 'IntToInt':
                return self.int_cast(v, r[3], r[4])
            if kind in ('Transmute', 'BoxDerefTransmute'):
                if isinstance(v, (RefV, RefM, BoxV)):
                    return v
                if isinstance(v, Opq) and v.kind == 'boxptr':
                    return RefV(v.d['v'])
                raise Unsupported('transmute')
            raise Unsupported('cast %s' % kind)
        if k == 'closureptr':
            return FnV({'def': r[1].get('defname', ''), 'args': [], 'inst': r[1]})
        if k == 'discr':
            v = self.read_place(fr, r[1], st)
            dty = body['locals'][dest[0]] if dest and not dest[1] else None
            return Sc(self.discr_value(v, dty), dty)
        if k == 'len':
            v = self.read_place(fr, r[1], st)
            return Sc(self.seq_len(self.as_seq(v)), None)
        if k == 'repeat':
            v = self.operand(fr, r[1], st)
            return SeqV((Seg(((self.bind(), I(r[2])),), T, v),))
        raise Unsupported('rvalue %s' % k)

    def discr_value(self, v, dty=None):
        ty = self.adt_ty(v)
        e = self.disc(v)
        if ty is None:
            return e
        vs = self.T[ty].get('variants')
        if not vs or all(int(x['discr']) == i for i, x in enumerate(vs)):
            return e
        ds = [int(x['discr']) for x in vs]
        dt = self.T[dty] if dty is not None else None
        if dt and dt['k'] == 'int':
            ds = [d - 2 ** dt['bits'] if d >= 2 ** (dt['bits'] - 1) else d for d in ds]
        out = I(ds[-1])
        for i in range(len(vs) - 2, -1, -1):
            out = IF(EQ(e, I(i)), I(ds[i]), out)
        return out

    def adt_ty(self, v):
        if isinstance(v, (Adt, Sym)):
            return v.ty if v.ty != -1 else None
        if isinstance(v, Ite):
            return self.adt_ty(v.a)
        return None

    def arith(self, op, a, b):
        if op in ('Add', 'AddUnchecked'):
            return z3.simplify(a + b)
        if op in ('Sub', 'SubUnchecked'):
            return z3.simplify(a - b)
        if op in ('Mul', 'MulUnchecked'):
            return z3.simplify(a * b)
        raise Unsupported('arith %s' % op)

    def binop(self, op, a, b, ty, st):
        if not (isinstance(a, Sc) and isinstance(b, Sc)):
            if op in ('Eq', 'Ne') and isinstance(a, Sym) and isinstance(b, Sym):
                e = EQ(a.t, b.t)
                return Sc(e if op == 'Eq' else NOT(e), None)
            raise Unsupported('binary %s on %s' % (op, type(a).__name__))
        x, y = a.e, b.e
        if x.sort() in (F64, F32):
            f = {'Eq': z3.fpEQ, 'Ne': lambda p, q: z3.Not(z3.fpEQ(p, q)), 'Lt': z3.fpLT, 'Le': z3.fpLEQ, 'Gt': z3.fpGT, 'Ge': z3.fpGEQ}.get(op)
            if f:
                return Sc(f(x, y), None)
            rm = z3.RNE()
            f = {'Add': z3.fpAdd, 'Sub': z3.fpSub, 'Mul': z3.fpMul, 'Div': z3.fpDiv}.get(op)
            if f:
                return Sc(f(rm, x, y), a.ty)
            raise Unsupported('float %s' % op)
        if z3.is_bool(x):
            r = {'Eq': lambda: EQ(x, y), 'Ne': lambda: NOT(EQ(x, y)), 'BitAnd': lambda: AND(x, y), 'BitOr': lambda: OR(x, y), 'BitXor': lambda: NOT(EQ(x, y)), 'Lt': lambda: AND(NOT(x), y), 'Le': lambda: OR(NOT(x), y), 'Gt': lambda: AND(x, NOT(y)), 'Ge': lambda: OR(x, NOT(y))}.get(op)
            if r:
                return Sc(r(), None)
            raise Unsupported('bool %s' % op)
        sx = self.signed_view
        if op == 'Eq':
            return Sc(EQ(x, y), None)
        if op == 'Ne':
            return Sc(NOT(EQ(x, y)), None)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            e = {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
            return Sc(z3.simplify(e) if z3.is_int_value(x) and z3.is_int_value(y) else e, None)
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            e = self.arith(op, x, y)
            t = self.T[a.ty] if a.ty is not None else None
            if t and not op.endswith('Unchecked') and t['k'] in ('uint', 'int') and not z3.is_int_value(e):
                self.note('wrapping arithmetic treated as mathematical')
            return Sc(e, a.ty)
        if op == 'Cmp':
            oty = next(i for i, t in enumerate(self.T.t) if t['k'] == 'adt' and t['name'].endswith('cmp::Ordering'))
            return Adt(oty, IF(x < y, I(0), IF(x == y, I(1), I(2))), {0: (), 1: (), 2: ()})
        if op in ('Div', 'Rem') and z3.is_int_value(y) and y.as_long() > 0 and a.ty is not None and self.T[a.ty]['k'] == 'uint':
            return Sc(x / y if op == 'Div' else x % y, a.ty)
        raise Unsupported('int %s' % op)

    def signed_view(self, x):
        return x

    def int_cast(self, v, frm, to):
        if z3.is_bool(v.e):
            return Sc(IF(v.e, I(1), I(0)), to)
        if z3.is_int_value(v.e):
            n = v.e.as_long()
            t = self.T[to]
            n %= 2 ** t['bits']
            if t['k'] == 'int' and n >= 2 ** (t['bits'] - 1):
                n -= 2 ** t['bits']
            return Sc(I(n), to)
        tf, tt = self.T[frm], self.T[to]
        if tf['k'] in ('uint', 'char') and tt.get('bits', 32) >= tf.get('bits', 32) and tt['k'] != 'char':
            if tt['k'] == 'uint' or tt.get('bits', 32) > tf.get('bits', 32):
                return Sc(v.e, to)
        if tf['k'] == 'int' and tt['k'] == 'int' and tt['bits'] >= tf['bits']:
            return Sc(v.e, to)
        raise Unsupported('integer cast')

    # ------------------------------------------------------------------ terminators
    def term(self, key, fr, body, b, t, line, g, st):
        k = t[0]
        if k == 'goto':
            return [(t[1], g, st)]
        if k == 'return':
            return [('ret', g, st)]
        if k in ('drop',):
            return [(t[2] if isinstance(t[2], int) and t[2] < len(body['blocks']) else t[2], g, st)]
        if k == 'unreachable':
            return []
        if k == 'switch':
            d = self.operand(fr, t[1], st)
            if not isinstance(d, Sc):
                raise Unsupported('switch on %s' % type(d).__name__)
            edges = []
            conds = []
            for val, tgt in t[2]:
                n = int(val)
                tt = self.T[t[4]] if len(t) > 4 else None
                if tt and tt['k'] == 'int' and n >= 2 ** (tt['bits'] - 1):
                    n -= 2 ** tt['bits']
                if z3.is_bool(d.e):
                    c = d.e if n else NOT(d.e)
                else:
                    c = EQ(d.e, I(n))
                edges.append((c, tgt))
                conds.append(c)
            other = t[3]
            if other is not None and other >= 0 and body['blocks'][other]['t'][0] == 'unreachable' and not body['blocks'][other]['s']:
                if edges:
                    # exhaustive: last branch is "none of the others"
                    if not is_false(edges[-1][0]):
                        edges[-1] = (NOT(OR(*conds[:-1])) if len(conds) > 1 else T, edges[-1][1])
            else:
                edges.append((NOT(OR(*conds)), other))
            # group by target
            by = {}
            for c, tgt in edges:
                by.setdefault(tgt, []).append(c)
            out = []
            live = [(tgt, OR(*cs)) for tgt, cs in by.items()]
            live = [(tgt, c) for tgt, c in live if not is_false(c)]
            for i, (tgt, c) in enumerate(live):
                out.append((tgt, g if is_true(c) else g + (c,), st if i == len(live) - 1 else st.copy()))
            return out
        if k == 'assert':
            c = self.operand(fr, t[1], st).e
            if not t[2]:
                c = NOT(c)
            self.oblige('no panic (%s) in %s line %s' % (t[3][:24].split(',')[0].split('(')[0], body['defname'], line), c, loc=(body['file'], line))
            return [(t[4], g, st)]
        if k == 'call':
            ref, args, dest, target = t[1], t[2], t[3], t[4]
            if 'ptr' in ref:
                f = self.operand(fr, ref['ptr'], st)
                vs = [self.operand(fr, a, st) for a in args]
                r = self.call_value(f, vs, st)
                rg = self.retg
                self.write_place(fr, dest, r, st)
                return [(target, g + rg, st)]
            if target is None or target < 0:
                self.oblige('no panic (%s) in %s line %s' % (ref.get('def', '?').split('::')[-1], body['defname'], line), Fa, loc=(body['file'], line))
                return []
            vs = [self.operand(fr, a, st) for a in args]
            site = {'argtys': t[5], 'destty': t[6], 'line': line, 'file': body['file'], 'fn': body['defname']}
            r = self.call_inst(ref, vs, st, site)
            rg = self.retg
            self.write_place(fr, dest, r, st)
            return [(target, g + rg, st)]
        if k in ('resume', 'abort'):
            return []
        raise Unsupported('terminator %s' % k)

    # ------------------------------------------------------------------ loops
    def loop(self, key, fr, cfg, h, g, st):
        import loops
        return loops.mir_loop(self, key, fr, cfg, h, g, st)


class Diverges(Exception):
    pass


class Call:
    __slots__ = ('ref', 'args', 'site', 'd', 'inst', 'targs', 'destty', 'argtys', 'name', 'self_ty')

    def __init__(self, ex, ref, args, site):
        self.ref = ref
        self.args = args
        self.site = site
        self.d = ref.get('def', '')
        self.inst = ref.get('inst')
        self.targs = ref.get('args', [])
        self.argtys = site['argtys'] if site else None
        self.destty = site['destty'] if site else self.ret_of(ex)
        self.name = self.inst['name'] if self.inst else self.d

    def ret_of(self, ex):
        if self.inst:
            b = ex.F.get(self.inst['key'])
            if b:
                return b['locals'][0]
        return None


def fnkey(ref):
    i = ref.get('inst')
    return i['key'] if i else ref.get('def')


def occurs(x, e, memo=None):
    """Does constant x occur in e?"""
    todo = [e]
    seen = set()
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if t.eq(x):
            return True
        if z3.is_quantifier(t):
            todo.append(t.body())
        else:
            todo.extend(t.children())
    return False


def forall(xs, f):
    if not xs:
        return f
    if is_true(f):
        return T
    return z3.ForAll(xs, f)


def lexlt(a, b):
    """tuple a < tuple b, lexicographically."""
    out = []
    for k in range(len(a)):
        out.append(AND(*([a[j] == b[j] for j in range(k)] + [a[k] < b[k]])))
    return OR(*out)


class Cfg:
    """Control flow without cleanup; loops as natural loops."""

    def __init__(self, body):
        self.body = body
        n = len(body['blocks'])
        self.succ = [self.succs(body, b) for b in range(n)]
        # DFS post order, back edges
        state = {}
        order = []
        back = []
        it = [(0, iter(self.succ[0]))]
        state[0] = 1
        while it:
            b, si = it[-1]
            for s in si:
                if s not in state:
                    state[s] = 1
                    it.append((s, iter(self.succ[s])))
                    break
                elif state[s] == 1:
                    back.append((b, s))
            else:
                state[b] = 2
                order.append(b)
                it.pop()
        order.reverse()
        self.order = order
        self.pos = {b: i for i, b in enumerate(order)}
        pred = {}
        for b in order:
            for s in self.succ[b]:
                pred.setdefault(s, []).append(b)
        self.loops = {}
        for b, h in back:
            L = self.loops.setdefault(h, {h})
            todo = [b]
            while todo:
                x = todo.pop()
                if x in L:
                    continue
                L.add(x)
                todo.extend(pred.get(x, []))
        # a loop's blocks that cannot reach the header are not included by construction

    def succs(self, body, b):
        t = body['blocks'][b]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'drop':
            return [t[2]]
        if k == 'switch':
            out = [x[1] for x in t[2]]
            if t[3] is not None and t[3] >= 0:
                ob = body['blocks'][t[3]]
                if not (ob['t'][0] == 'unreachable' and not ob['s']):
                    out.append(t[3])
            return list(dict.fromkeys(out))
        if k == 'assert':
            return [t[4]]
        if k == 'call':
            return [t[4]] if t[4] is not None and t[4] >= 0 else []
        return []
