"""Units for roots_val: equality, copies and defaults of every value type (P19), the laws of the
numeric limits (P13), the extension lists (P14)."""
import time
import z3
from core import *
from exec import St
from spec import W, Lost, same
from units import Gen, Item, UNDECIDED, args_of, hyps_of, why, plain, finish
import values

EQS = ('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
CLONE = 'std::clone::Clone::clone'


# ---------------------------------------------------------------- what equality of parts means
def crate_type(t):
    return t['k'] == 'adt' and t['name'].startswith('wot_td::')


def short(name):
    """Type names as the table writes them."""
    return name


class Equal:
    """The equality of values given the equality of the parts of other types."""

    def __init__(self, ex, covered):
        self.ex = ex
        self.covered = covered

    def eq(self, a, b, depth=0):
        ex, st = self.ex, St()
        a, b = ex.full_deref(a, st), ex.full_deref(b, st)
        M = ex.models
        if isinstance(a, Sc) and isinstance(b, Sc):
            return z3.fpEQ(a.e, b.e) if a.e.sort() in (F64, F32) else EQ(a.e, b.e)
        ta, tb = M.strterm(ex, a, st), M.strterm(ex, b, st)
        if ta is not None and tb is not None:
            return EQ(ta, tb)
        ty = ex.adt_ty(a)
        if ty is None or ty < 0:
            ty = ex.adt_ty(b)
        if ty is None:
            raise Unsupported('equality of %s' % type(a).__name__)
        t = ex.T[ty]
        if t['k'] == 'tuple' or t['k'] == 'adt' and t['name'].split('::')[-1] == 'Option':
            return self.fields(a, b, ty, depth + 1)
        if t['k'] == 'adt' and (t['name'].endswith('PhantomData')):
            return T
        if crate_type(t) and self.plain_enum(t):
            return EQ(ex.disc(a), ex.disc(b))
        if crate_type(t) and ex.canon[ty] not in self.covered:
            raise Unsupported('equality of %s is not under contract' % ex.tname(ty))
        f = ex.pfn('eq.%d' % ex.tkey(ty), [V, V], BOOL)
        return f(M.term_of(ex, a, st), M.term_of(ex, b, st))

    def plain_enum(self, t):
        return t['kind'] == 'enum' and all(not v['fields'] for v in t['variants'])

    def fields(self, a, b, ty, depth=0):
        ex = self.ex
        out = [EQ(ex.disc(a), ex.disc(b))]
        for k in range(ex.T.nvariants(ty)):
            fs = AND(*[self.eq(ex.proj(a, k, i), ex.proj(b, k, i), depth) for i in range(len(ex.T.fields(ty, k)))])
            out.append(IMP(EQ(ex.disc(a), I(k)), fs))
        return AND(*out)


def covered_types(ex, dump, what):
    """Types whose own implementation is one of the units."""
    out = set()
    for tag, _, tr in values.TYPES:
        if what in tr:
            b = ex.F[dump['roots']['root_%s_%s' % ({'e': 'eq', 'c': 'clone', 'd': 'default'}[what], tag)]]
            ty = b['locals'][1] if what != 'd' else b['locals'][0]
            while ex.T[ty]['k'] == 'ref':
                ty = ex.T[ty]['ty']
            out.add(ex.canon[ty])
    return out


class ValueUnit:
    """Base: executes roots of roots_val and collects goals."""
    roots = 'roots_val'

    def generate(self, dump, off, props):
        t = time.time()
        g = Gen(self.name)
        ex = plain(dump)
        self.dump = dump
        self.ex = ex
        self.goals = []
        self.hyps = []
        try:
            self.run()
            hy = hyps_of(ex) + self.hyps
            for n, f in self.goals:
                g.items.append(Item('%s: %s' % (self.name, n), 'post', hy, f))
            for o in ex.obls:
                g.items.append(Item('%s: %s' % (self.name, o.name), o.kind, hy + list(o.pc), o.goal))
            if not g.items:
                g.items.append(Item('%s: result' % self.name, 'post', hy, T))
            g.probes.append(Item('contradiction', 'probe', hy, Fa))
        except UNDECIDED as x:
            g.undecided.append((self.name, why(x)))
        return finish(g, ex, t)

    def call(self, root, args):
        """Result of a root on these arguments (the call must return)."""
        ex = self.ex
        st = St()
        r = ex.run_body(self.dump['roots']['root_' + root], args, st)
        if not (ex.retg is None or all(is_true(x) for x in ex.retg)):
            self.goals.append(('%s returns' % root, AND(*ex.retg)))
        self.state = st
        return r

    def args(self, root, names=None):
        ex = self.ex
        b = ex.F[self.dump['roots']['root_' + root]]
        st = St()
        out = []
        for i in range(1, b['argc'] + 1):
            n = names[i - 1] if names else 'a%d' % i
            out.append(ex.mkany(z3.Const(n, V), b['locals'][i]))
        return out

    def w(self, v, st=None):
        return W(self.ex, v, st)


class EqUnit(ValueUnit):
    def __init__(self, tag):
        self.tag = tag
        self.name = 'equality of %s' % tag

    def refref(self, c):
        """The comparison of two references, which compares what they refer to."""
        x = c.args[0]
        return isinstance(x, RefV) and isinstance(x.v, RefV)

    def run(self):
        ex = self.ex
        E = Equal(ex, covered_types(ex, self.dump, 'e'))
        top = [False]

        def hook(ex, c, st, defname):
            if c.d in EQS:
                if not top[0]:
                    top[0] = not self.refref(c)
                    b = ex.F.get(c.inst['key']) if c.inst else None
                    if b is None:
                        raise Unsupported('no body for the equality of %s' % self.tag)
                    return ex.run_body(c.inst['key'], c.args, st)
                e = E.eq(c.args[0], c.args[1])
                return Sc(NOT(e) if c.d == EQS[1] else e, c.destty)
            return NotImplemented
        ex.hook = hook
        a = self.args('eq_' + self.tag)
        ty = ex.F[self.dump['roots']['root_eq_' + self.tag]]['locals'][1]
        while ex.T[ty]['k'] == 'ref':
            ty = ex.T[ty]['ty']
        x, y = ex.full_deref(a[0], St()), ex.full_deref(a[1], St())
        want = E.fields(x, y, ty)
        r = self.call('eq_' + self.tag, a)
        self.goals.append(('equal exactly when all parts are equal', EQ(r.e, want)))
        # ne: the default method calls eq, which is what was just verified
        top[0] = False
        whole = z3.Bool('eq.whole')

        def hook2(ex, c, st, defname):
            if c.d == EQS[1] and not top[0]:
                top[0] = not self.refref(c)
                return ex.run_body(c.inst['key'], c.args, st)
            if c.d == EQS[0] and ex.canon.get(ex.adt_ty(ex.full_deref(c.args[0], st))) == ex.canon[ty]:
                return Sc(whole, c.destty)
            return hook(ex, c, st, defname)
        ex.hook = hook2
        r = self.call('ne_' + self.tag, a)
        self.goals.append(('different exactly when not equal', OR(EQ(r.e, NOT(whole)), EQ(r.e, NOT(want)))))
        ex.hook = None


class CloneUnit(ValueUnit):
    def __init__(self, tag):
        self.tag = tag
        self.name = 'copy of %s' % tag

    def run(self):
        ex = self.ex
        cov = covered_types(ex, self.dump, 'c')
        top = [None]

        def hook(ex, c, st, defname):
            if c.d != CLONE:
                return NotImplemented
            if top[0] is None:
                top[0] = True
                b = ex.F.get(c.inst['key']) if c.inst else None
                if b is None:
                    raise Unsupported('no body for the copy of %s' % self.tag)
                return ex.run_body(c.inst['key'], c.args, st)
            v = ex.full_deref(c.args[0], st)
            ty = ex.adt_ty(v)
            if ty is not None and ty >= 0 and crate_type(ex.T[ty]) and ex.canon[ty] not in cov:
                raise Unsupported('the copy of %s is not under contract' % ex.tname(ty))
            return NotImplemented
        ex.hook = hook
        a = self.args('clone_' + self.tag)
        r = self.call('clone_' + self.tag, a)
        ex.hook = None
        if top[0] is None:
            # Copy types: the compiler copies the value
            pass
        self.goals.append(('the copy has the parts of the original', same(ex, r, a[0])))
        # copying into an existing value: the default method, or the one of the type
        inner = [None]

        def hook2(ex, c, st, defname):
            if c.d == CLONE + '_from':
                if inner[0] is None:
                    inner[0] = True
                    b = ex.F.get(c.inst['key']) if c.inst else None
                    if b is not None:
                        return ex.run_body(c.inst['key'], c.args, st)
                v = ex.full_deref(c.args[1], st)
            elif c.d == CLONE:
                v = ex.full_deref(c.args[0], st)
            else:
                return NotImplemented
            ty = ex.adt_ty(v)
            if ty is not None and ty >= 0 and crate_type(ex.T[ty]) and ex.canon[ty] not in cov:
                raise Unsupported('the copy of %s is not under contract' % ex.tname(ty))
            return NotImplemented
        ex.hook = hook2
        a = self.args('clonefrom_' + self.tag)
        r = self.call('clonefrom_' + self.tag, a)
        ex.hook = None
        self.goals.append(('copying into a value gives it the parts of the original', same(ex, r, a[1])))


class DefaultUnit(ValueUnit):
    FREE = ('wot_td',)

    def __init__(self, tag):
        self.tag = tag
        self.name = 'default of %s' % tag

    def run(self):
        r = self.call('default_' + self.tag, [])
        self.walk(self.w(r), '', 0)

    def walk(self, w, path, depth):
        ex = self.ex
        v = w.v
        if depth > 12:
            raise Unsupported('default of a deep type')
        M = ex.models
        if isinstance(v, Sc):
            if z3.is_bool(v.e):
                self.goals.append((path + ' is false', NOT(v.e)))
            return
        if M.maplike(ex, v) or ex.seqlike(v):
            self.goals.append((path + ' is empty', w.empty()))
            return
        ty = w.ty
        if ty is None or ex.T.isstr(ty):
            return
        t = ex.T[ty]
        if t['k'] == 'tuple':
            for i in range(len(w.fieldnames())):
                self.walk(w.f(i), '%s.%d' % (path, i), depth + 1)
            return
        if t['k'] != 'adt':
            return
        if t['name'].split('::')[-1] == 'Option':
            self.goals.append((path + ' is absent', w.is_('None')))
            return
        if not crate_type(t):
            return
        if ex.T.nvariants(ty) > 1:
            d = ex.disc(v)
            if z3.is_int_value(d):
                k = d.as_long()
                for i, (n, _) in enumerate(ex.T.fields(ty, k)):
                    self.walk(w.w(ex.proj(v, k, i)), '%s.%s' % (path, n), depth + 1)
            return
        for n in w.fieldnames():
            self.walk(w.f(n), '%s.%s' % (path, n), depth + 1)


# ---------------------------------------------------------------- P13
class Order:
    """Option<Ordering> as formulas."""

    def __init__(self, w):
        self.none = w.is_('None')
        o = w.inner
        self.lt = AND(w.some, o.is_('Less'))
        self.eq = AND(w.some, o.is_('Equal'))
        self.gt = AND(w.some, o.is_('Greater'))

    def rev(self, o):
        return AND(EQ(self.none, o.none), EQ(self.lt, o.gt), EQ(self.eq, o.eq), EQ(self.gt, o.lt))


class LimitUnit(ValueUnit):
    def __init__(self, num):
        self.num = num
        self.name = 'limits over %s' % num

    def value(self, ex, kind, nm):
        b = ex.F[self.dump['roots']['root_cmp_%s_%s_%s' % (kind, kind, self.num)]]
        return ex.mkany(z3.Const(nm, V), b['locals'][1])

    def number(self, w):
        a, b = w.as_('Inclusive').e, w.as_('Exclusive').e
        return IF(w.is_('Inclusive'), a, b)

    def nan(self, x):
        return z3.fpIsNaN(x) if x.sort() in (F64, F32) else Fa

    def less(self, x, y):
        return z3.fpLT(x, y) if x.sort() in (F64, F32) else x < y

    def run(self):
        ex = self.ex
        G = self.goals
        vals = {k: [self.value(ex, k, '%s%d' % (k, i)) for i in range(3)] for k in ('min', 'max')}
        num = {k: [self.number(self.w(v)) for v in vs] for k, vs in vals.items()}
        cache = {}

        def do(op, ka, i, kb, j):
            key = (op, ka, i, kb, j)
            if key not in cache:
                r = self.call('%s_%s_%s_%s' % (op, ka, kb, self.num), [vals[ka][i], vals[kb][j]])
                cache[key] = Order(self.w(r)) if op == 'cmp' else r.e
            return cache[key]
        for k in ('min', 'max'):
            n = num[k]
            c = lambda i, j: do('cmp', k, i, k, j)
            e = lambda i, j: do('eq', k, i, k, j)
            G.append((k + ': equality and comparison agree', EQ(e(0, 1), c(0, 1).eq)))
            G.append((k + ': equality is symmetric', EQ(e(0, 1), e(1, 0))))
            G.append((k + ': equality is transitive', IMP(AND(e(0, 1), e(1, 2)), e(0, 2))))
            G.append((k + ': a limit that is a number equals itself', EQ(e(0, 0), NOT(self.nan(n[0])))))
            G.append((k + ': the opposite comparison is reversed', c(0, 1).rev(c(1, 0))))
            G.append((k + ': less-than is transitive', IMP(AND(c(0, 1).lt, c(1, 2).lt), c(0, 2).lt)))
            le = lambda i, j: OR(c(i, j).lt, c(i, j).eq)
            G.append((k + ': less-or-equal is transitive', IMP(AND(le(0, 1), le(1, 2)), le(0, 2))))
            G.append((k + ': different numbers are ordered like the numbers or not at all', AND(IMP(self.less(n[0], n[1]), OR(c(0, 1).none, c(0, 1).lt)), IMP(self.less(n[1], n[0]), OR(c(0, 1).none, c(0, 1).gt)))))
            G.append((k + ': equal limits have equal numbers and the same kind', IMP(e(0, 1), AND(NOT(self.less(n[0], n[1])), NOT(self.less(n[1], n[0])), EQ(self.w(vals[k][0]).is_('Inclusive'), self.w(vals[k][1]).is_('Inclusive'))))))
            G.append((k + ': what is not a number is equal to nothing and not ordered', IMP(OR(self.nan(n[0]), self.nan(n[1])), AND(NOT(e(0, 1)), c(0, 1).none))))
            self.derived(k, k, do)
            if self.num in ('f64', 'f32'):
                r = self.call('nan_%s_%s' % (k, self.num), [vals[k][0]])
                G.append((k + ': is_nan recognises exactly what is not a number', EQ(r.e, self.nan(n[0]))))
        for ka, kb in (('min', 'max'), ('max', 'min')):
            c = do('cmp', ka, 0, kb, 1)
            x, y = num[ka][0], num[kb][1]
            G.append(('%s/%s: the opposite comparison is reversed' % (ka, kb), c.rev(do('cmp', kb, 1, ka, 0))))
            G.append(('%s/%s: equality and comparison agree' % (ka, kb), EQ(do('eq', ka, 0, kb, 1), c.eq)))
            G.append(('%s/%s: equality is symmetric' % (ka, kb), EQ(do('eq', ka, 0, kb, 1), do('eq', kb, 1, ka, 0))))
            G.append(('%s/%s: what is not a number is equal to nothing and not ordered' % (ka, kb), IMP(OR(self.nan(x), self.nan(y)), AND(NOT(do('eq', ka, 0, kb, 1)), c.none))))
            small = c.lt if ka == 'min' else c.gt
            mn, mx = (x, y) if ka == 'min' else (y, x)
            G.append(('%s/%s: a minimum is below a maximum only when its number is smaller' % (ka, kb), IMP(small, self.less(mn, mx))))
            self.derived(ka, kb, do)

    def derived(self, ka, kb, do):
        c = do('cmp', ka, 0, kb, 1)
        for op, f in (('lt', c.lt), ('le', OR(c.lt, c.eq)), ('gt', c.gt), ('ge', OR(c.gt, c.eq)), ('ne', NOT(do('eq', ka, 0, kb, 1)))):
            self.goals.append(('%s/%s: %s agrees' % (ka, kb, op), EQ(do(op, ka, 0, kb, 1), f)))


# ---------------------------------------------------------------- P14
class ListUnit(ValueUnit):
    depth = 0

    def __init__(self, name):
        self.root = name
        self.name = 'list operation %s' % name

    def abs_hook(self):
        def hook(ex, c, st, defname):
            for n in (c.d, defname, c.name):
                last = n.split('::')[-1]
                if last.startswith('abs_'):
                    return ex.models.uninterpreted(ex, c, st, last)
            if self.root == 'rev_step' and c.d.split('::')[-1] == 'reverse':
                self.depth += 1
                if self.depth > 1:
                    # the rest of the list: what reversing it gives is the induction hypothesis
                    return ex.models.uninterpreted(ex, c, st, 'rest_reversed')
            return NotImplemented
        return hook

    def items(self, w):
        """Elements of a concrete list as far as it is made of Cons; the rest as one value."""
        out = []
        while True:
            ti = w.tinfo()
            n = ti.get('name', '').split('::')[-1]
            if n == 'Nil':
                return out, None
            if n != 'Cons':
                return out, w
            fs = w.fieldnames()
            if sorted(fs) != ['head', 'tail']:
                raise Lost('fields of Cons')
            out.append(w.f('head'))
            w = w.f('tail')

    def eqlist(self, got, want, what='elements', gt=None, wt=None):
        ex = self.ex
        if len(got) != len(want) and gt is None and wt is None:
            self.goals.append(('%s: their number' % what, z3.BoolVal(False)))
            return
        if len(got) != len(want) or (gt is None) != (wt is None):
            raise Lost('length of the list')
        for i, (x, y) in enumerate(zip(got, want)):
            self.goals.append(('%s: element %d' % (what, i), same(ex, x, y)))
        if gt is not None:
            self.goals.append(('%s: the rest' % what, same(ex, gt, wt)))

    def U(self, name, sig_root, *args):
        return None

    def run(self):
        ex = self.ex
        self.depth = 0
        ex.hook = self.abs_hook()
        n = self.root
        b = ex.F[self.dump['roots']['root_' + n]]
        if n.startswith('mut'):
            return self.mut(n, b)
        a = self.args(n)
        A = [self.w(x) for x in a]
        r = self.w(self.call(n, a))
        if n in ('nil_cons', 'ext_nil', 'ext_with_nil'):
            self.eqlist(self.items(r)[0], [A[0]])
        elif n in ('cons', 'ext_cons', 'ext_with_cons'):
            l, t = self.items(A[0])
            got, gt = self.items(r)
            self.eqlist(got, [A[1]] + l, gt=gt, wt=t)
        elif n == 'split_head':
            self.goals.append(('the head', same(ex, r.f(0), A[0].f('head'))))
            self.goals.append(('the rest', same(ex, r.f(1), A[0].f('tail'))))
        elif n == 'last_one':
            self.goals.append(('the last', same(ex, r.f(0), A[0].f('head'))))
            self.eqlist(self.items(r.f(1))[0], [])
        elif n == 'last_step':
            # the tail splits into TInit and TLast: the whole into head:TInit and TLast
            x = ex.pfn('u.abs_tail_split', [V], V)(A[0].f('tail').t)
            got, gt = self.items(r.f(1))
            self.eqlist(got, [A[0].f('head')], gt=gt, wt=gt)
            s = self.split_of(A[0].f('tail'), 'abs_tail_split')
            self.goals.append(('the last element is that of the tail', same(ex, r.f(0), s.f(0))))
            self.goals.append(('the rest is the head and the beginning of the tail', same(ex, gt, s.f(1))))
        elif n == 'rev_one':
            self.eqlist(self.items(r)[0], [A[0].f('head')])
        elif n == 'rev_step':
            # last of the tail first, then the reverse of the head and the beginning of the tail
            s = self.split_of(A[0].f('tail'), 'abs_tail_split')
            self.goals.append(('first the last element', same(ex, r.f('head'), s.f(0))))
            if not isinstance(r.f('tail').v, Sym):
                raise Lost('the rest of the reversed list')
            rest = self.w(Adt(A[0].ty, 0, {0: (A[0].f('head').v, s.f(1).v)}))
            self.goals.append(('then the others reversed', EQ(r.f('tail').t, ex.pfn('u.rest_reversed', [V], V)(self.pack(rest)))))
        elif n in ('ref_nil', 'empty_nil', 'empty_cons', 'unit_nil'):
            self.eqlist(self.items(r)[0], [])
        elif n == 'ref_step':
            got, gt = self.items(r)
            t = A[0].f('tail')
            self.eqlist(got, [A[0].f('head')], gt=gt, wt=gt)
            self.goals.append(('the rest is the tail borrowed', EQ(gt.t, ex.pfn('u.abs_tail_ref', [V], V)(t.t))))
        elif n.startswith('last_'):
            l, _ = self.items(A[0])
            self.goals.append(('the last', same(ex, r.f(0), l[-1])))
            self.eqlist(self.items(r.f(1))[0], l[:-1], 'the others')
        elif n.startswith('revrev_') or n.startswith('ref_'):
            self.eqlist(self.items(r)[0], self.items(A[0])[0])
        elif n.startswith('rev_'):
            self.eqlist(self.items(r)[0], self.items(A[0])[0][::-1])
        else:
            raise Unsupported('list operation %s' % n)

    def pack(self, w):
        for k, b in self.ex.F.items():
            if b['name'].endswith('NonEmptyHList>::reverse') or 'reverse' in b['name']:
                t = self.ex.T[b['locals'][1]]
                if t['k'] == 'adt' and 'TInit' in t['s'] and 'Cons' in t['s']:
                    return self.ex.models.term_of(self.ex, Adt(b['locals'][1], 0, w.v.f))
        raise Lost('the list type of the rest')

    def split_of(self, w, fn):
        ex = self.ex
        for k, b in ex.F.items():
            if b['name'].endswith(fn):
                return self.w(ex.mkany(ex.pfn('u.' + fn, [V], V)(w.t), b['locals'][0]))
        raise Lost(fn)

    def mut(self, n, b):
        ex = self.ex
        st = St()
        a = self.args(n)
        old = ex.deref(a[0], st)
        l, lt = self.items(self.w(old))
        r = ex.tmp(st, old)
        res = ex.run_body(self.dump['roots']['root_' + n], [r] + a[1:], st)
        if n.startswith('mutstep'):
            new, nt = self.items(self.w(ex.deref(r, st), st))
            self.eqlist(new, [self.w(a[1])] if n == 'mutstep_head' else l, 'after borrowing', gt=nt, wt=lt)
            if n == 'mutstep_tail':
                self.goals.append(('the rest is the tail borrowed', EQ(self.w(res, st).t, ex.pfn('u.abs_tail_mut', [V], V)(lt.t))))
            return
        new = self.items(self.w(ex.deref(r, st), st))[0]
        parts = n.split('_')
        if len(parts) == 2:
            want = [self.w(x) for x in a[1:]]
        else:
            want = list(l)
            want[int(parts[2])] = self.w(a[1])
        self.eqlist(new, want, 'after writing through the mutable view')


def units(prop):
    if prop == 'P13':
        return [LimitUnit(n) for n in values.NUMS]
    if prop == 'P19':
        out = []
        for tag, _, tr in values.TYPES:
            out += [c(tag) for k, c in (('e', EqUnit), ('c', CloneUnit), ('d', DefaultUnit)) if k in tr]
        return out
    if prop == 'P14':
        skip = ('eq_', 'ne_', 'clone_', 'clonefrom_', 'default_', 'cmp_', 'lt_', 'le_', 'gt_', 'ge_', 'nan_')
        return [ListUnit(n) for n, _, _, _ in values.roots() if not n.startswith(skip)]
    return []
