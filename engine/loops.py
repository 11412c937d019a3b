"""Loop summaries: traversal of a (symbolic, unbounded) sequence with early exits and accumulators."""
import z3
from core import *
from exec import Outcome, lexlt, forall, occurs, St, Diverges


class Marker:
    def __init__(self, kind, **d):
        self.kind = kind
        self.__dict__.update(d)


def seq_prefix(ex, old, new):
    return len(new.segs) >= len(old.segs) and all(ex.same_seg(a, b) for a, b in zip(old.segs, new.segs))


def is_acc(seg):
    return isinstance(seg.v, Opq) and seg.v.kind == 'acc'


class Gen:
    """Generalisation of the memory at an arbitrary iteration."""

    def __init__(self, ex, seg):
        self.ex = ex
        self.seg = seg
        self.markers = []
        self.cells = {}      # cell -> generalised value

    def find(self, v):
        for m in self.markers:
            if m.gen is v:
                return m
        return None

    def add(self, kind, gen, init, **d):
        m = Marker(kind, gen=gen, init=init, **d)
        self.markers.append(m)
        return gen

    def fresh_here(self, name, sort):
        ex = self.ex
        bs = [x for x, _ in self.seg.b]
        ex.binders.extend(bs)
        try:
            return ex.fresh(name, sort)
        finally:
            if bs:
                del ex.binders[-len(bs):]

    def fits(self, m, new):
        ex = self.ex
        if m.kind in ('sc', 'havoc'):
            return True
        if m.kind == 'closed':
            return isinstance(new, Sc)
        if m.kind == 'seq':
            return ex.seqlike(new) and seq_prefix(ex, m.gen, ex.as_seq(new))
        if m.kind == 'map':
            return isinstance(new, MapV) and seq_prefix(ex, m.gen.pairs, new.pairs)
        return False

    def diff(self, old, new):
        """Generalise old so that it covers new."""
        ex = self.ex
        m = self.find(old)
        if m is not None:
            if self.fits(m, new):
                return old
            if m.kind == 'havoc':
                return old
            self.markers.remove(m)
            return self.havoc(m.init, new)
        if old is new or ex.same(old, new):
            return old
        if isinstance(old, Adt) and isinstance(new, Adt) and old.disc.eq(new.disc) and old.f.keys() == new.f.keys() and all(len(old.f[k]) == len(new.f[k]) for k in old.f):
            return Adt(old.ty, old.disc, {k: tuple(self.diff(a, b) for a, b in zip(old.f[k], new.f[k])) for k in old.f})
        if isinstance(old, Sym) and isinstance(new, Adt) and ex.T.nvariants(old.ty) == 1:
            return self.diff(ex.expand(old), new)
        if isinstance(old, BoxV) and isinstance(new, BoxV):
            return BoxV(self.diff(old.v, new.v))
        if ex.seqlike(old) and ex.seqlike(new):
            o, n = ex.as_seq(old), ex.as_seq(new)
            if seq_prefix(ex, o, n):
                mk = Marker('seq', gen=None, init=o)
                gen = SeqV(o.segs + (Seg((), T, Opq('acc', id=id(mk))),))
                mk.gen = gen
                ex.accs[id(mk)] = [self.fresh_here('Acc', V), False, mk]
                self.markers.append(mk)
                return gen
            return self.havoc(old, new)
        om = ex.models.as_map(ex, old) if ex.models.maplike(ex, old) else None
        if om is not None and isinstance(new, MapV):
            if seq_prefix(ex, om.pairs, new.pairs):
                a = self.fresh_here('Acc', V)
                gen = MapV(SeqV(om.pairs.segs + (Seg((), T, Opq('acc', id=a.get_id())),)), a, om.distinct)
                return self.add('map', gen, om)
            return self.havoc(old, new)
        if isinstance(old, Sc) and isinstance(new, Sc):
            x = self.fresh_here('x', old.e.sort())
            return self.add('sc', Sc(x, old.ty if old.ty is not None else new.ty), old)
        return self.havoc(old, new)

    def havoc(self, old, new):
        ex = self.ex
        ty = ex.adt_ty(old) if not isinstance(old, UndefV) else None
        if ty is None and isinstance(new, Val):
            ty = ex.adt_ty(new)
        if isinstance(old, Opq) and old.kind == 'havoc':
            return old
        if ty is None:
            g = Opq('havoc', id=next(ex.cnt))
        else:
            g = Sym(self.fresh_here('havoc', V), ty)
        return self.add('havoc', g, old)

    def extend(self, cell, old, new):
        g = self.cells.get(cell, old)
        self.cells[cell] = self.diff(g, new)

    # -------------------------------------------------------------- closed forms
    def close(self, stc):
        """A counter that moves by a constant is written as a function of the iteration: one more run follows."""
        xs = self.seg.b
        if len(xs) != 1 or not is_true(self.seg.g):
            return False
        hit = {}

        def walk(g, n):
            m = self.find(g)
            if m is not None:
                if m.kind == 'sc' and isinstance(n, Sc) and z3.is_int(n.e):
                    d = z3.simplify(n.e - m.gen.e)
                    if z3.is_int_value(d):
                        hit[id(m.gen)] = (m, d.as_long())
                return
            if isinstance(g, Adt) and isinstance(n, Adt):
                for k in g.f:
                    if k in n.f:
                        for a, b in zip(g.f[k], n.f[k]):
                            walk(a, b)
            elif isinstance(g, BoxV) and isinstance(n, BoxV):
                walk(g.v, n.v)

        for c, g in self.cells.items():
            walk(g, stc.m.get(c, UNDEF))
        if not hit:
            return False
        new = {}
        for i, (m, k) in hit.items():
            new[i] = (m.gen, Sc(m.init.e + k * xs[0][0], m.gen.ty))

        def go(g):
            if id(g) in new:
                return new[id(g)][1]
            if isinstance(g, Adt):
                f = {k: tuple(go(x) for x in fs) for k, fs in g.f.items()}
                return g if all(a is b for k in f for a, b in zip(f[k], g.f[k])) else Adt(g.ty, g.disc, f)
            if isinstance(g, BoxV):
                x = go(g.v)
                return g if x is g.v else BoxV(x)
            return g

        self.cells = {c: go(g) for c, g in self.cells.items()}
        for i, (m, k) in hit.items():
            m.kind, m.gen, m.step, m.closed = 'closed', new[i][1], k, new[i][1].e
        return True

    def resolve(self, stc, conts=()):
        """After the real run: per marker, value before iteration and after all iterations."""
        ex = self.ex
        seg = self.seg
        xs = [x for x, _ in seg.b]
        self.at = {}
        self.end = {}
        news = {}

        def walk(g, n):
            m = self.find(g)
            if m is not None:
                news.setdefault(id(m), (m, []))[1].append(n)
                return
            if isinstance(g, Adt) and isinstance(n, Adt):
                for k in g.f:
                    if k in n.f:
                        for a, b in zip(g.f[k], n.f[k]):
                            walk(a, b)
            elif isinstance(g, BoxV) and isinstance(n, BoxV):
                walk(g.v, n.v)

        for c, g in self.cells.items():
            walk(g, stc.m.get(c, UNDEF))
        for m in self.markers:
            ns = news.get(id(m), (m, []))[1]
            n = ns[0] if ns else m.gen
            if m.kind == 'seq':
                self.seq(m, ex.as_seq(n), xs)
            elif m.kind == 'closed':
                m.at = m.gen
                m.end = Sc(m.init.e + m.step * seg.b[0][1], m.gen.ty)
            elif m.kind == 'map':
                self.map(m, n, xs)
            elif m.kind == 'sc':
                self.sc(m, n, xs)
            elif not self.chosen(m, conts, xs):
                m.at = m.gen
                if isinstance(m.gen, Sym):
                    ex.note('loop-carried value of type', ex.tname(m.gen.ty))
                    m.end = Sym(ex.fresh('havoc', V), m.gen.ty)
                else:
                    m.end = m.gen

    def chosen(self, m, conts, xs):
        """A variable set in some iterations: to the value of the last of them, or, if it is set only while it is
        None, of the first."""
        ex, seg = self.ex, self.seg
        cell = next((c for c, g in self.cells.items() if g is m.gen), None)
        if cell is None or not isinstance(m.gen, Sym) or m.init is UNDEF:
            return False
        c, v = Fa, UNDEF
        for g, s in conts:
            x = s.m.get(cell, UNDEF)
            if x is m.gen or ex.same(x, m.gen):
                continue
            if x is UNDEF:
                return False
            g = AND(*g)
            while isinstance(x, Ite):
                # kept in one arm
                if ex.same(x.b, m.gen):
                    g, x = AND(g, x.c), x.a
                elif ex.same(x.a, m.gen):
                    g, x = AND(g, NOT(x.c)), x.b
                else:
                    break
            c = OR(c, g)
            v = x if v is UNDEF else ex.merge(g, x, v)
        if v is UNDEF:
            return False
        k = z3.Const('other!%d' % next(ex.cnt), V)
        if not ex.same(subst(v, [(m.gen.t, k)]), v):
            return False
        first = False
        if occurs(m.gen.t, c):
            d = ex.disc(m.gen)
            if not z3.is_app(d) or ex.T.name(m.gen.ty) != 'std::option::Option':
                return False
            s1 = z3.simplify(z3.substitute(c, (d, I(1))))
            c = z3.simplify(z3.substitute(c, (d, I(0))))
            if not is_false(s1) or occurs(m.gen.t, c):
                return False
            first = True

        def pick(b, cond, val):
            h, sub = ex.first(b, cond, last=not first)
            if first:
                h = AND(h, EQ(ex.disc(m.init), I(0)))
            return ex.merge(h, subst(val, sub) if sub else val, m.init)

        m.end = pick(seg.b, AND(seg.g, c), v)
        ex.binders.extend(xs)
        try:
            ys, sub, cond = self.prior(xs)
            nb = tuple((y, z3.substitute(hi, *sub)) for y, (_, hi) in zip(ys, seg.b))
            m.at = pick(nb, AND(cond, z3.substitute(c, *sub)), subst(v, sub))
        finally:
            del ex.binders[-len(xs):]
        return True

    def prior(self, xs):
        """Fresh copies of the binders, and the condition: in range, guard, strictly before xs."""
        ex = self.ex
        ys = [ex.bind('p') for _ in xs]
        sub = list(zip(xs, ys))
        cond = AND(z3.substitute(ex.seg_range(self.seg.b), *sub), z3.substitute(self.seg.g, *sub), lexlt(ys, xs))
        return ys, sub, cond

    def seq(self, m, new, xs):
        ex = self.ex
        add = new.segs[len(m.gen.segs):]
        if len(add) > 1:
            # several pushes per iteration: one more index says which
            if any(x.b for x in add):
                raise Unsupported('several extensions in one iteration')
            j = ex.bind('j')
            v = add[-1].v
            for n, x in reversed(list(enumerate(add[:-1]))):
                v = ex.merge(j == n, x.v, v)
            add = (Seg(((j, I(len(add))),), OR(*[AND(j == n, x.g) for n, x in enumerate(add)]), v),)
        self_segs = tuple(Seg(self.seg.b + s.b, AND(self.seg.g, s.g), s.v) for s in add)
        m.end_segs = m.init.segs + self_segs
        # at iteration xs: binders renamed and restricted to earlier iterations
        at = []
        for s in add:
            ys, sub, cond = self.prior(xs)
            nb = tuple((y, z3.substitute(hi, *sub)) for y, (_, hi) in zip(ys, self.seg.b))
            inner = tuple((b, z3.substitute(hi, *sub)) for b, hi in s.b)
            if len(xs) == 1 and is_true(self.seg.g):
                nb = ((ys[0], xs[0]),)
                cond = T
            at.append(Seg(nb + inner, AND(cond, z3.substitute(s.g, *sub)), subst(s.v, sub)))
        m.at = SeqV(m.init.segs + tuple(at))
        m.end = SeqV(m.end_segs)
        dom, used, _ = ex.accs[id(m)]
        if used is not False:
            # whether it contains a text was asked in the body: what earlier iterations added
            pairs = []
            for s in at:
                t = ex.models.strterm(ex, s.v, None)
                if t is None:
                    raise Unsupported('membership in a list of other than texts')
                pairs.append(Seg(s.b, s.g, ex.models.tup(ex, Sym(t, used), UNDEF)))
            ex.binders.extend(xs)
            try:
                ex.models.domain_facts(ex, dom, ex.models.empty_term(ex), pairs)
            finally:
                del ex.binders[-len(xs):]

    def map(self, m, new, xs):
        ex = self.ex
        has = ex.has_fn()
        n0 = len(m.gen.pairs.segs)
        add = new.pairs.segs[n0:]
        D0 = m.init.t
        A = m.gen.t
        k = z3.Const('k!%d' % next(ex.cnt), V)
        segs = tuple(Seg(self.seg.b + s.b, AND(self.seg.g, s.g), s.v) for s in add)
        Dn = ex.fresh('D', V)
        once = new.distinct or not m.init.pairs.segs and ex.models.injective_key(ex, segs)
        m.end = MapV(SeqV(m.init.pairs.segs + segs), Dn, m.init.distinct and once)
        # final domain
        ex.models.domain_facts(ex, Dn, D0, segs)
        # domain before iteration xs
        bs = xs
        ex.binders.extend(bs)
        try:
            pr = []
            for s in add:
                ys, sub, cond = self.prior(xs)
                nb = tuple((y, z3.substitute(hi, *sub)) for y, (_, hi) in zip(ys, self.seg.b))
                pr.append(Seg(nb + tuple((b, z3.substitute(hi, *sub)) for b, hi in s.b), AND(cond, z3.substitute(s.g, *sub)), subst(s.v, sub)))
            ex.models.domain_facts(ex, A, D0, pr)
        finally:
            del ex.binders[-len(bs):]
        m.at = MapV(SeqV(m.init.pairs.segs + tuple(pr)), A, m.init.distinct and once)

    def distinct(self, done):
        """Maps filled by plain insertions, of keys that are different whenever the loop runs to its end."""
        ex = self.ex
        for m in self.markers:
            if m.kind != 'map' or m.end.distinct or m.init.pairs.segs or not m.init.distinct or len(m.end.pairs.segs) != 1:
                continue
            a, b = [ex.refresh(m.end.pairs.segs[0]) for _ in range(2)]
            try:
                ka, kb = [ex.models.term_of(ex, ex.models.pkey(ex, x.v)) for x in (a, b)]
            except Unsupported:
                continue
            s = z3.Solver()
            s.set('timeout', 3000)
            s.set('random_seed', 1)
            s.set('mbqi', False)
            s.add(*ex.facts)
            s.add(*ex.pcs)
            s.add(*done)
            s.add(ex.seg_range(a.b), a.g, ex.seg_range(b.b), b.g, lexlt([x for x, _ in a.b], [x for x, _ in b.b]), ka == kb)
            if s.check() == z3.unsat:
                m.end.distinct = True

    def sc(self, m, n, xs):
        ex = self.ex
        x = m.gen.e
        e = n.e
        init = m.init.e
        seg = self.seg

        def setat(val):
            ex.binders.extend(xs)
            try:
                ex.fact(EQ(x, val))
            finally:
                del ex.binders[-len(xs):]

        m.at = m.gen
        if z3.is_bool(e):
            e1 = z3.simplify(z3.substitute(e, (x, T)))
            e0 = z3.simplify(z3.substitute(e, (x, Fa)))

            def before(c):
                ex.binders.extend(xs)
                try:
                    ys, sub, cond = self.prior(xs)
                    return ex.exists(tuple((y, z3.substitute(hi, *sub)) for y, (_, hi) in zip(ys, seg.b)), AND(cond, z3.substitute(c, *sub)))
                finally:
                    del ex.binders[-len(xs):]
            if is_true(e1):
                setat(OR(init, before(e0)))
                m.end = Sc(OR(init, ex.exists(seg.b, AND(seg.g, e0))), m.gen.ty)
                return
            if is_false(e0):
                setat(AND(init, NOT(before(NOT(e1)))))
                m.end = Sc(AND(init, NOT(ex.exists(seg.b, AND(seg.g, NOT(e1))))), m.gen.ty)
                return
            if e1.eq(e0) and (is_true(e1) or is_false(e1)):
                m.end = Sc(IF(ex.exists(seg.b, seg.g), e1, init), m.gen.ty)
                return
        elif z3.is_int(e):
            # counts the iterations in which c
            c = z3.simplify(z3.substitute(e, (x, I(0))) == 1)
            if self.valid(EQ(e, IF(c, x + 1, x))):
                ex.binders.extend(xs)
                try:
                    n = ex.fresh('cnt', INT)
                    ys, sub, cond = self.prior(xs)
                    has = ex.exists(tuple((y, z3.substitute(hi, *sub)) for y, (_, hi) in zip(ys, seg.b)), AND(cond, z3.substitute(c, *sub)))
                    ex.fact(AND(n >= 0, (n > 0) == has, EQ(x, init + n), T if len(xs) > 1 else n <= xs[0]))
                finally:
                    del ex.binders[-len(xs):]
                m.end = Sc(init + ex.seq_len(SeqV((Seg(seg.b, AND(seg.g, c), Sc(I(0), None)),))), m.gen.ty)
                return
        ex.note('loop-carried scalar')
        m.end = Sc(ex.fresh('x', e.sort()), m.gen.ty)

    def valid(self, f):
        s = z3.Solver()
        s.set('timeout', 300)
        s.add(NOT(f))
        return s.check() == z3.unsat

    def replace(self, v, which):
        """Replace markers in a value tree by their closed form (which = 'at' or 'end')."""
        ex = self.ex
        table = {id(m.gen): m for m in self.markers}
        accs = {}
        for m in self.markers:
            if m.kind in ('seq', 'map'):
                s = (m.gen if m.kind == 'seq' else m.gen.pairs).segs[-1]
                accs[s.v.d['id']] = m

        def fixsegs(segs):
            out = []
            i = 0
            for s in segs:
                if is_acc(s):
                    m = accs.get(s.v.d['id'])
                    if m is None:
                        out.append(s)
                        continue
                    full = getattr(m, which)
                    full = full if m.kind == 'seq' else full.pairs
                    init = m.init if m.kind == 'seq' else m.init.pairs
                    out.extend(full.segs[len(init.segs):])
                else:
                    out.append(Seg(s.b, s.g, go(s.v)))
            return tuple(out)

        memo = {}

        def go(v):
            r = memo.get(id(v))
            if r is None:
                r = (v, go1(v))
                memo[id(v)] = r
            return r[1]

        def go1(v):
            m = table.get(id(v))
            if m is not None:
                return getattr(m, which)
            if isinstance(v, Adt):
                return Adt(v.ty, v.disc, {k: tuple(go(x) for x in fs) for k, fs in v.f.items()})
            if isinstance(v, RefV):
                return RefV(go(v.v))
            if isinstance(v, BoxV):
                return BoxV(go(v.v))
            if isinstance(v, Ite):
                return Ite(v.c, go(v.a), go(v.b))
            if isinstance(v, SeqV):
                return SeqV(fixsegs(v.segs))
            if isinstance(v, MapV):
                t = v.t
                if which == 'end':
                    for m in self.markers:
                        if m.kind == 'map' and m.gen.t.eq(t):
                            t = m.end.t
                return MapV(SeqV(fixsegs(v.pairs.segs)), t, v.distinct)
            if isinstance(v, Pair):
                return Pair(go(v.a), go(v.b))
            if isinstance(v, IterV):
                return IterV(go(v.seq), v.pos, v.stages)
            return v

        return go(v)


def foreach(ex, seq, st, body):
    """Run body(elem, st) -> [Outcome] for every element in order.  Outcomes of kind 'cont' continue;
    anything else leaves.  Returns outcomes; kind 'done' is exhaustion."""
    outs = []
    gacc = ()
    cur = st
    for seg in seq.segs:
        if is_false(seg.g):
            continue
        if is_acc(seg):
            raise Unsupported('traversal of an accumulator')
        seg = ex.refresh(seg)
        npc = len(ex.pcs)
        ex.pcs.extend(gacc)
        try:
            if not seg.b:
                if not is_true(seg.g):
                    ex.pcs.append(seg.g)
                res = body(seg.v, cur.copy())
                gg = () if is_true(seg.g) else (seg.g,)
                conts = [(gg + tuple(o.g), o.st) for o in res if o.kind == 'cont']
                if gg:
                    conts.append(((NOT(seg.g),), cur))
                for o in res:
                    if o.kind != 'cont':
                        outs.append(Outcome(o.kind, gacc + gg + tuple(o.g), o.st, o.val))
                if not conts:
                    return outs
                gm, cur = ex.merge_states(conts)
                gacc = gacc + tuple(gm)
                continue
            xs = [x for x, _ in seg.b]
            gen = Gen(ex, seg)
            for attempt in range(8):
                save = (len(ex.facts), len(ex.obls), len(ex.imprecise))
                st_g = cur.copy()
                st_g.m.update(gen.cells)
                res = ex.under(seg, lambda: body(seg.v, st_g.copy()))
                conts = [(tuple(o.g), o.st) for o in res if o.kind == 'cont']
                if not conts:
                    break
                gm, stc = ex.merge_states(conts)
                changed = []
                for c in cur.m:
                    a = st_g.m[c]
                    n = stc.m.get(c, UNDEF)
                    if n is a or ex.same(a, n):
                        continue
                    changed.append((c, a, n))
                before = [(m.gen, m.kind) for m in gen.markers]
                oldcells = dict(gen.cells)
                for c, a, n in changed:
                    gen.extend(c, a, n)
                stable = len(before) == len(gen.markers) and all(x[0] is m.gen for x, m in zip(before, gen.markers)) and all(gen.cells[c] is oldcells.get(c) or (c in oldcells and ex.same(gen.cells[c], oldcells[c])) for c, _, _ in changed)
                if stable and not gen.close(stc):
                    break
                del ex.facts[save[0]:]
                del ex.obls[save[1]:]
                del ex.imprecise[save[2]:]
            else:
                raise Unsupported('loop state does not stabilise')
            exits = [o for o in res if o.kind != 'cont']
            ex.last_gen = gen
            if conts:
                gen.resolve(stc, conts)
            E = OR(*[AND(*o.g) for o in exits]) if exits else Fa
            h, sub = ex.first(seg.b, AND(seg.g, E))
            if exits and not is_false(h):
                for o in exits:
                    g = gacc + (h,)
                    if len(exits) > 1:
                        g = g + tuple(z3.substitute(x, *sub) for x in o.g)
                    m = {}
                    for c, v in o.st.m.items():
                        if c in cur.m and v is cur.m[c]:
                            m[c] = v
                        else:
                            w = gen.replace(v, 'at') if conts else v
                            m[c] = subst(w, sub)
                    val = o.val
                    if val is not None:
                        val = subst(gen.replace(val, 'at') if conts else val, sub)
                    outs.append(Outcome(o.kind, g, St(m), val))
            if not is_false(h):
                gacc = gacc + (NOT(h),)
            if conts:
                gen.distinct(gacc)
                nm = cur.copy()
                for c, g in gen.cells.items():
                    nm.m[c] = gen.replace(g, 'end')
                cur = nm
        finally:
            del ex.pcs[npc:]
    outs.append(Outcome('done', gacc, cur))
    return outs


def find_cursor(ex, fr, cfg, h, st):
    """The iterator advanced by the loop: ('alts', cell, path) of an IterV living outside the loop."""
    body = cfg.body
    found = []
    for b in cfg.loops[h]:
        bl = body['blocks'][b]
        t = bl['t']
        if t[0] != 'call' or t[1].get('def') not in ('std::iter::Iterator::next', 'serde::de::MapAccess::next_key', 'serde::de::MapAccess::next_key_seed'):
            continue
        o = t[2][0]
        pl = o.get('move') or o.get('copy')
        if not pl or pl[1]:
            continue
        target = [pl[0], [['deref']]]
        for _ in range(6):
            hit = None
            for s in reversed(bl['s']):
                if s[0] == 'assign' and s[1][0] == target[0] and not s[1][1] and s[2][0] == 'ref' and s[2][1]:
                    hit = s[2][2]
                    break
            if hit is None or not target[1] or target[1][0] != ['deref']:
                break
            target = [hit[0], list(hit[1]) + list(target[1][1:])]
        # follow one reborrow
        try:
            kind, a, path, _ = ex.place_path(fr, target, st)
        except (Unsupported, KeyError):
            continue
        if kind == 'cell' and a in st.m:
            cells = [(a, tuple(path))]
        elif kind == 'alts' and len(a) == 1:
            cells = [(a[0][1], tuple(a[0][2]))]
        else:
            continue
        try:
            v = ex.read_path(st.m.get(cells[0][0], UNDEF), cells[0][1], st)
        except Unsupported:
            continue
        if (isinstance(v, IterV) or isinstance(v, Opq) and v.kind == 'access') and cells[0] not in found:
            found.append(cells[0])
    return found


def mir_loop(ex, key, fr, cfg, h, g, st):
    body = cfg.body
    L = cfg.loops[h]
    npc = len(ex.pcs)
    ex.pcs.extend(g)
    try:
        inv = ex.loopinv.get(body['defname'])
        if inv is not None:
            r = inv(ex, key, fr, cfg, h, g, st)
            if r is not None:
                return r
        cur = find_cursor(ex, fr, cfg, h, st)
        if len(cur) == 1:
            cell, path = cur[0]
            it = ex.read_path(st.m[cell], path, st)
            if isinstance(it, Opq):
                it = IterV(it.d['seq'], I(0), ())
            if not (z3.is_int_value(it.pos) and it.pos.as_long() == 0):
                raise Unsupported('loop over an advanced iterator')
            C0 = Opq('cursor_idle')

            def setc(s, v):
                s.m[cell] = ex.write_path(s.m[cell], path, v, s) if path else v

            def bodyf(elem, s):
                setc(s, Opq('cursor', elem=elem))
                outs = ex.region(key, fr, cfg, L, h, (), s, header=h)
                res = []
                for tgt, lst in outs.items():
                    if tgt == h:
                        for gg, ss in lst:
                            v = ex.read_path(ss.m[cell], path, ss)
                            if not (isinstance(v, Opq) and v.kind == 'cursor_used'):
                                raise Unsupported('loop does not advance its iterator on every path')
                            setc(ss, C0)
                            res.append(Outcome('cont', gg, ss))
                    else:
                        gg, ss = ex.merge_states(lst)
                        setc(ss, Opq('havoc', id=0))
                        res.append(Outcome(tgt, gg, ss))
                return res

            st0 = st.copy()
            setc(st0, C0)
            outs = foreach(ex, it.seq, st0, bodyf)
            edges = []
            for o in outs:
                if o.kind != 'done':
                    edges.append((o.kind, tuple(g) + tuple(o.g), o.st))
                    continue
                s = o.st.copy()
                setc(s, Opq('cursor_end'))
                n2 = len(ex.pcs)
                ex.pcs.extend(o.g)
                rr = ex.region(key, fr, cfg, L, h, (), s, header=h)
                del ex.pcs[n2:]
                for tgt, lst in rr.items():
                    if tgt == h:
                        raise Unsupported('loop continues after its iterator ended')
                    for gg, ss in lst:
                        edges.append((tgt, tuple(g) + tuple(o.g) + tuple(gg), ss))
            return edges
        gl = getattr(ex, 'generic_loop', None)
        if gl is not None:
            save = (len(ex.facts), len(ex.obls), len(ex.imprecise))
            try:
                return gl(key, fr, cfg, h, g, st)
            except Unsupported as e:
                if 'no recognised shape' not in str(e):
                    raise
                del ex.facts[save[0]:]
                del ex.obls[save[1]:]
                del ex.imprecise[save[2]:]
        r = count_loop(ex, key, fr, cfg, h, g, st)
        if r is not None:
            return r
        raise Unsupported('loop in %s has no recognised shape' % body['defname'])
    finally:
        del ex.pcs[npc:]


def bound_of(c, x, gens):
    """c, the condition of an exit, as 'the counter has come to L': the number of iterations before."""
    c = z3.simplify(c)
    neg = False
    while z3.is_not(c):
        c, neg = c.arg(0), not neg
    if not (z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c) or z3.is_eq(c)) or not z3.is_int(c.arg(0)):
        return None
    d = c.arg(0) - c.arg(1)                  # exit iff d (op) 0
    k = z3.simplify(z3.substitute(d, (x, I(1))) - z3.substitute(d, (x, I(0))))
    if not z3.is_int_value(k) or abs(k.as_long()) != 1:
        return None
    k = k.as_long()
    base = z3.simplify(z3.substitute(d, (x, I(0))))
    if not z3.is_int_value(z3.simplify(d - base - k * x)) or occurs(x, base) or any(occurs(y, base) for y in gens):
        return None
    # d = base + k x
    op = '=' if z3.is_eq(c) else '<=' if z3.is_le(c) else '>=' if z3.is_ge(c) else '<' if z3.is_lt(c) else '>'
    if neg:
        op = {'<=': '>', '>=': '<', '<': '>=', '>': '<=', '=': '#'}[op]
    if k < 0:
        base, op = -base, {'<=': '>=', '>=': '<=', '<': '>', '>': '<', '=': '=', '#': '#'}[op]
    # exit iff base + x (op) 0, x rising from 0
    if op in ('>=', '='):
        n = -base
    elif op == '>':
        n = 1 - base
    else:
        return None
    n = z3.simplify(n)
    return IF(n > 0, n, I(0))


def count_loop(ex, key, fr, cfg, h, g, st):
    """A loop that counts: left, if not by another exit, when a counter that moves by one in every iteration has
    come to a bound that does not change."""
    L = cfg.loops[h]
    seen = {}

    def bodyf(elem, s):
        res = []
        for tgt, lst in ex.region(key, fr, cfg, L, h, (), s, header=h).items():
            res += [Outcome('cont' if tgt == h else tgt, gg, ss) for gg, ss in lst]
        seen.update(x=elem.e, res=res)
        return res

    save = (len(ex.facts), len(ex.obls), len(ex.imprecise))
    foreach(ex, counted(ex, ex.fresh('n', INT)), st.copy(), bodyf)
    gen = ex.last_gen
    del ex.facts[save[0]:]
    del ex.obls[save[1]:]
    del ex.imprecise[save[2]:]
    gens = [m.gen.e for m in gen.markers if m.kind == 'sc']
    if not any(m.kind == 'closed' for m in gen.markers):
        return None
    for k, o in enumerate(seen['res']):
        if o.kind == 'cont' or len(o.g) != 1:
            continue
        n = bound_of(o.g[0], seen['x'], gens)
        if n is None:
            continue
        tgt = o.kind

        def bodyf2(elem, s):
            r = bodyf(elem, s)
            return r[:k] + r[k + 1:]
        outs = foreach(ex, counted(ex, n), st.copy(), bodyf2)
        edges = []
        for o in outs:
            if o.kind != 'done':
                edges.append((o.kind, tuple(g) + tuple(o.g), o.st))
                continue
            n2 = len(ex.pcs)
            ex.pcs.extend(o.g)
            rr = ex.region(key, fr, cfg, L, h, (), o.st.copy(), header=h)
            del ex.pcs[n2:]
            # the bound is reached here: only this exit is taken
            for t, lst in rr.items():
                if t == tgt:
                    hit = [(gg, ss) for gg, ss in lst if len(gg) <= 1]
                    edges += [(t, tuple(g) + tuple(o.g), ss) for gg, ss in hit[:1]]
        return edges
    return None


def counted(ex, n):
    x = ex.bind('i')
    return SeqV((Seg(((x, n),), T, Sc(x, None)),))
