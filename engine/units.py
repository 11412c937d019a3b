"""Verification units: a function body taken from the dump, executed for all inputs, and the
obligations its contract generates.  A unit can be generated for a set of properties."""
import time
import z3
from core import *
from exec import St, Diverges
from spec import W, Lost
import contracts
from build_spec import BuildSpec

UNDECIDED = (Unsupported, Lost, Diverges, RecursionError, KeyError, IndexError, AttributeError, TypeError, AssertionError, z3.Z3Exception, StopIteration, ValueError)


class Item:
    """One obligation: hyps |= goal."""
    __slots__ = ('name', 'kind', 'hyps', 'goal')

    def __init__(self, name, kind, hyps, goal):
        self.name = name
        self.kind = kind
        self.hyps = hyps
        self.goal = goal


class Gen:
    def __init__(self, name):
        self.name = name
        self.items = []
        self.undecided = []      # [(what, why)]
        self.used = {}           # contract name -> {key: function}
        self.executed = []
        self.models = []
        self.imprecise = []
        self.seconds = 0
        self.probes = []         # items that must NOT be provable


def args_of(ex, b, st):
    out = []
    for i in range(1, b['argc'] + 1):
        ty = b['locals'][i]
        v = ex.mkany(z3.Const('a%d' % i, V), ty)
        if ex.T[ty]['k'] == 'ref' and ex.T[ty]['mut']:
            v = ex.tmp(st, v.v)
        out.append(v)
    return out


def hyps_of(ex):
    return list(ex.facts) + list(ex.axioms) + [x for c in ex.contracts for x in c.axioms()] + ex.str_axioms()


def why(e):
    s = '%s: %s' % (type(e).__name__, e)
    w = getattr(e, 'where', None)
    return (s + (' in ' + w[-1] if w else ''))[:400]


def plain(dump):
    """Executor without contracts: everything is executed in line."""
    ex = contracts.Ex(dump)
    ex.th = None
    return ex


def fresh(dump, off):
    ex, th = contracts.make(dump)
    for c in ex.contracts:
        c.off |= set(off)
    return ex, th


def finish(g, ex, t):
    for c in ex.contracts:
        for k, n in c.used.items():
            g.used.setdefault(type(c).__name__, {})[k] = n
    g.executed = sorted(ex.F[k]['name'][:200] for k in ex.executed)
    g.models = sorted(ex.models_used)
    g.imprecise = list(ex.imprecise)
    g.seconds = time.time() - t
    return g


class ContractUnit:
    """The body of a function called through a contract, checked against that contract."""

    def __init__(self, key, name):
        self.key = key
        self.name = 'contract of %s' % name

    def generate(self, dump, off, props):
        t = time.time()
        g = Gen(self.name)
        ex, th = fresh(dump, off)
        b = ex.F[self.key]
        try:
            c = next(c for c in ex.contracts if c.matches(ex, b['defname'], {'key': self.key}))
            st = St()
            a = args_of(ex, b, st)
            r = ex.run_body(self.key, a, st)
            rg = list(ex.retg)
            hy = None
            goals = [(n, rg, f, 'post') for n, f in c.goals(ex, b, a, r, St())]
            uf = c.unfold(a)
            hy = hyps_of(ex) + uf
            for o in ex.obls:
                kind = 'panic' if o.kind == 'panic' else 'loop invariant'
                if kind == 'panic' and not ({'P12'} & props):
                    continue
                g.items.append(Item(o.name, kind, hy + list(o.pc), o.goal))
            for n, pc, f, k in goals:
                g.items.append(Item('%s: %s' % (self.name, n), k, hy + pc, f))
            g.probes.append(Item('contradiction', 'probe', hy + rg, Fa))
        except UNDECIDED as e:
            g.undecided.append((self.name, why(e)))
        return finish(g, ex, t)


class BuildUnit:
    """The whole build function (everything it calls inlined, except functions with a contract)."""
    METHODS = {'P01': ('references',), 'P03': ('references',), 'P02': ('operations',), 'P04': ('limits',), 'P05': ('uri_variables',),
               'P06': ('names',), 'P07': ('tags',), 'P08': ('links',), 'P09': ('fidelity',), 'P11': ('errors',), 'P12': ()}
    name = 'build'
    heavy = True

    def generate(self, dump, off, props):
        t = time.time()
        g = Gen(self.name)
        ex, th = fresh(dump, off)
        try:
            key = dump['roots']['root_build']
            b = ex.F[key]
            st = St()
            a = args_of(ex, b, st)
            r = ex.run_body(key, a, st)
            rg = list(ex.retg)
            S = BuildSpec(ex, th, a[0], r)
            inv = [f for _, f in S.invariant()]
        except UNDECIDED as e:
            for p in props:
                g.undecided.append(('build', why(e)))
            return finish(g, ex, t)
        ms = []
        for p in sorted(props):
            for m in self.METHODS.get(p, ()):
                if m not in ms:
                    ms.append(m)
        for m in ms:
            n = len(S.goals)
            try:
                getattr(S, m)()
            except UNDECIDED as e:
                g.undecided.append(('build: ' + m, why(e)))
        hy = hyps_of(ex) + inv
        for p, n, f in S.goals:
            if p in props:
                g.items.append(Item(n, 'post', hy + rg, f))
        if 'P12' in props:
            for o in ex.obls:
                g.items.append(Item(o.name, o.kind, hy + list(o.pc), o.goal))
        g.probes = [Item('contradiction', 'probe', hy + rg, Fa), Item('build never succeeds', 'probe', hy + rg, NOT(S.ok)), Item('build never fails', 'probe', hy + rg, NOT(S.err))]
        return finish(g, ex, t)
