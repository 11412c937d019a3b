"""Which units decide which property, and what stays assumed."""
import os

CONTRACT_PROPS = {'Check': {'P04', 'P11', 'P12'}, 'Convert': {'P07', 'P09', 'P11', 'P12'}}

ASSUMPTIONS = [
    'std containers, strings, iterators and memory operations behave as their contracts in engine/models.py (listed per run in trusted_base)',
    'termination is not verified (partial correctness); stack depth of recursion over nested schemas is unbounded',
    'the dropping of values has no observable effect; panics inside allocation failure are ignored',
    'extension types are abstract: the verified instance uses opaque types for every extension point',
    'JSON (P15-P18, P20, P21): the data model of serde, i.e. how a serializer records and how a deserializer hands over scalars, texts, lists, objects and enumerations (buffered and flattened ones included), is a trusted contract; '
    'texts, numbers, lists, maps, JSON values, language tags, dates and extension values are read as they were written (std and dependencies); nested types of the crate are used by their own contract, proved here',
]

BUILD = ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P11', 'P12')
ROOTS = ('roots', 'roots_set', 'roots_val', 'roots_ser')
VALUES = ('P13', 'P14', 'P19')
JSON = ('P15', 'P16', 'P17', 'P18', 'P20', 'P21')
PROPS = {p: {} for p in BUILD + ('P10',) + VALUES + JSON}


def units(prop):
    import units as U
    import setter_units as S
    import setters
    import value_units as V
    import ser_units as R
    import de_units as D
    out = V.units(prop) + R.units(prop) + D.units(prop)
    if prop in BUILD:
        out.append(U.BuildUnit())
    out += [S.SetterUnit(e) for e in setters.ENTRIES if prop in e.props]
    if prop in ('P07', 'P09'):
        out += [S.DirectUnit(n, r) for n, r, _ in setters.DIRECT]
    return out


KNOWN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.txt')


def known_findings(prop):
    """[(id, text)] of the recorded defects that are not repaired."""
    out = []
    for l in open(KNOWN):
        if l.startswith('known: property=%s ' % prop):
            rest = l.split(' ', 2)[2].strip()
            i, _, t = rest.partition(' ')
            out.append((i.replace('id=', ''), t))
    return out


def known_lines(prop, stats):
    return ['KNOWN-FINDING: property=%s %s: %s' % (prop, i, t) for i, t in known_findings(prop)]


NOTE = ('Every obligation generated from the current source of the functions involved is discharged by z3 for all inputs, with no bound. '
        'Trusted: rustc up to MIR, the symbolic executor of /verif/engine, the contracts of std and of dependencies listed in the evidence. '
        'Parts an edit puts out of reach are reported as undecided and only searched (bounded).')
NOT_APPLICABLE = {}
