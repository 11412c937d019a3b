"""Contracts of the writers: what serializing each type of the crate records, for every value (P15, P17, P20, P21).

The real Serialize implementation (derived or written by hand, adapters of serde_with and the
flattening code of serde included) is executed on the recording serializer of roots_ser.  Writing
a nested value of another type of the crate is a call of the contract of that type: the
uninterpreted tree ser.T(value).
"""
import time
import z3
from core import *
from exec import St, forall
from spec import W, Lost, same, rel_seg
from value_units import ValueUnit, crate_type
import values

SER = 'serde::Serialize::serialize'

# (name in the standard, field, how): v always written, ? when present, 1 a list in the short form,
# nonempty unless empty, true only when true, op unless default, time, *X extension, + inlined part
INTER = [('@type', 'attype', '?1'), ('title', 'title', '?'), ('titles', 'titles', '?'), ('description', 'description', '?'), ('descriptions', 'descriptions', '?'),
         ('forms', 'forms', 'v'), ('uriVariables', 'uri_variables', '?'), ('*XInter', 'other', '*')]
TABLE = {
    'thing': [('@context', 'context', 'v'), ('id', 'id', '?'), ('@type', 'attype', '?1'), ('title', 'title', 'v'), ('titles', 'titles', '?'), ('description', 'description', '?'),
              ('descriptions', 'descriptions', '?'), ('version', 'version', '?'), ('created', 'created', '?time'), ('modified', 'modified', '?time'), ('support', 'support', '?'),
              ('base', 'base', '?'), ('properties', 'properties', '?'), ('actions', 'actions', '?'), ('events', 'events', '?'), ('links', 'links', '?'), ('forms', 'forms', '?'),
              ('security', 'security', '1'), ('securityDefinitions', 'security_definitions', 'v'), ('uriVariables', 'uri_variables', '?'), ('profile', 'profile', '?1'),
              ('schemaDefinitions', 'schema_definitions', '?'), ('*Ext', 'other', '*')],
    'inter': INTER,
    'act': [(None, 'interaction', '+inter'), ('input', 'input', '?'), ('output', 'output', '?'), ('safe', 'safe', 'v'), ('idempotent', 'idempotent', 'v'), ('synchronous', 'synchronous', '?'), ('*XAct', 'other', '*')],
    'evt': [(None, 'interaction', '+inter'), ('subscription', 'subscription', '?'), ('data', 'data', '?'), ('dataResponse', 'data_response', '?'), ('cancellation', 'cancellation', '?'), ('*XEvt', 'other', '*')],
    'version': [('instance', 'instance', 'v'), ('model', 'model', '?')],
    'ds': [('@type', 'attype', '?1'), ('title', 'title', '?'), ('titles', 'titles', '?'), ('description', 'description', '?'), ('descriptions', 'descriptions', '?'), ('const', 'constant', '?'),
           ('default', 'default', '?'), ('unit', 'unit', '?'), ('oneOf', 'one_of', '?'), ('enum', 'enumeration', '?'), ('readOnly', 'read_only', 'v'), ('writeOnly', 'write_only', 'v'), ('format', 'format', '?'),
           (None, 'subtype', '?+dsub'), ('*XData', 'other', '*')],
    'arr': [('items', 'items', '?'), ('minItems', 'min_items', '?'), ('maxItems', 'max_items', '?'), ('*XArr', 'other', '*')],
    'num': [(None, 'maximum', '?+maxf'), (None, 'minimum', '?+minf'), ('multipleOf', 'multiple_of', '?')],
    'int': [(None, 'maximum', '?+maxi'), (None, 'minimum', '?+mini'), ('multipleOf', 'multiple_of', '?')],
    'obj': [('properties', 'properties', '?'), ('required', 'required', '?'), ('*XObj', 'other', '*')],
    'str': [('minLength', 'min_length', '?'), ('maxLength', 'max_length', '?'), ('pattern', 'pattern', '?'), ('contentEncoding', 'content_encoding', '?'), ('contentMediaType', 'content_media_type', '?')],
    'sec': [('@type', 'attype', '?1'), ('description', 'description', '?'), ('descriptions', 'descriptions', '?'), ('proxy', 'proxy', '?'), (None, 'subtype', '+secsub')],
    'unknown': [('scheme', 'scheme', 'v'), (None, 'data', 'members')],
    'basic': [('in', 'location', 'v'), ('name', 'name', '?')],
    'digest': [('qop', 'qop', 'v'), ('in', 'location', 'v'), ('name', 'name', '?')],
    'apikey': [('in', 'location', 'v'), ('name', 'name', '?')],
    'bearer': [('authorization', 'authorization', '?'), ('alg', 'alg', 'v'), ('format', 'format', 'v'), ('in', 'location', 'v'), ('name', 'name', '?')],
    'psk': [('identity', 'identity', '?')],
    'oauth2': [('authorization', 'authorization', '?'), ('token', 'token', '?'), ('refresh', 'refresh', '?'), ('scopes', 'scopes', '?1'), ('flow', 'flow', 'v')],
    'link': [('href', 'href', 'v'), ('type', 'ty', '?'), ('rel', 'rel', '?'), ('anchor', 'anchor', '?'), ('sizes', 'sizes', '?'), ('hreflang', 'hreflang', '?1')],
    'form': [('op', 'op', 'op'), ('href', 'href', 'v'), ('contentType', 'content_type', '?'), ('contentCoding', 'content_coding', '?'), ('subprotocol', 'subprotocol', '?'), ('security', 'security', '?1'),
             ('scopes', 'scopes', '?1'), ('response', 'response', '?'), ('additionalResponses', 'additional_responses', '?1'), ('*XForm', 'other', '*')],
    'resp': [('contentType', 'content_type', 'v'), ('*XResp', 'other', '*')],
    'addresp': [('success', 'success', 'true'), ('contentType', 'content_type', '?'), ('schema', 'schema', '?')],
    'nil': [],
    'cons': [('*XData', 'head', '*'), ('*XArr', 'tail', '*')],
    'coap_block': [('cov:block2Size', 'block2_size', '?'), ('cov:block1Size', 'block1_size', '?')],
    'coap_form': [('cov:method', 'method', '?'), ('cov:blockwise', 'blockwise', '?'), ('cov:qblockwise', 'qblockwise', '?'), ('cov:hopLimit', 'hop_limit', '?'), ('cov:accept', 'accept', '?'), ('cov:contentFormat', 'content_format', '?')],
    'coap_resp': [('cov:contentFormat', 'content_format', '?')],
    'coap_proto': [],
    'http_header': [('htv:fieldName', 'field_name', '?'), ('htv:fieldValue', 'field_value', '?')],
    'http_resp': [('htv:headers', 'headers', 'nonempty'), ('htv:statusCodeValue', 'status_code_value', '?')],
    'http_form': [('htv:methodName', 'method_name', '?')],
    'http_proto': [],
    'mqtt_form': [('mqv:retain', 'retain', 'true'), ('mqv:controlPacket', 'control_packet', '?'), ('mqv:qos', 'qos', '?'), ('mqv:topic', 'topic', '?'), ('mqv:filter', 'filter', 'nonempty1')],
    'mqtt_proto': [],
    # a property writes the entries of its parts; a name written by several of them appears once
    'prop': [('*interaction', 'interaction', 'part'), ('*data_schema', 'data_schema', 'part'), ('*other', 'other', 'part'), ('observable', 'observable', '?json')],
}
# names of the plain enumerations
OPS = ['ReadProperty', 'WriteProperty', 'ObserveProperty', 'UnobserveProperty', 'InvokeAction', 'QueryAction', 'CancelAction', 'SubscribeEvent', 'UnsubscribeEvent', 'ReadAllProperties', 'WriteAllProperties',
       'ReadMultipleProperties', 'WriteMultipleProperties', 'ObserveAllProperties', 'UnobserveAllProperties', 'SubscribeAllEvents', 'UnsubscribeAllEvents', 'QueryAllActions']
ENUMS = {
    'op': {x: x.lower() for x in OPS},
    'loc': {'Header': 'header', 'Query': 'query', 'Body': 'body', 'Cookie': 'cookie', 'Uri': 'uri'},
    'qop': {'Auth': 'auth', 'AuthInt': 'auth-int'},
    'coap_method': {'Get': 'GET', 'Put': 'PUT', 'Post': 'POST', 'Delete': 'DELETE', 'Patch': 'PATCH', 'Fetch': 'FETCH', 'Ipatch': 'iPATCH'},
    'coap_size': {'Size%d' % n: n for n in (16, 32, 64, 128, 256, 512, 1024)},
    'http_method': {'Get': 'GET', 'Put': 'PUT', 'Post': 'POST', 'Delete': 'DELETE', 'Patch': 'PATCH'},
    'mqtt_packet': {'Publish': 'mqv:publish', 'Subscribe': 'mqv:subscribe', 'Unsubscribe': 'mqv:unsubscribe'},
    'mqtt_qos': {'AtMostOnce': 'quality:0', 'AtLeastOnce': 'quality:1', 'ExactlyOnce': 'quality:2'},
}
SUBTYPES = {'Array': ('array', 'arr'), 'Boolean': ('boolean', None), 'Number': ('number', 'num'), 'Integer': ('integer', 'int'), 'Object': ('object', 'obj'), 'String': ('string', 'str'), 'Null': ('null', None)}
SCHEMES = {'NoSec': ('nosec', None), 'Auto': ('auto', None), 'Combo': ('combo', 'combo'), 'Basic': ('basic', 'basic'), 'Digest': ('digest', 'digest'), 'Bearer': ('bearer', 'bearer'), 'Psk': ('psk', 'psk'),
           'OAuth2': ('oauth2', 'oauth2'), 'ApiKey': ('apikey', 'apikey')}
LIMITS = {'min': {'Inclusive': 'minimum', 'Exclusive': 'exclusiveMinimum'}, 'max': {'Inclusive': 'maximum', 'Exclusive': 'exclusiveMaximum'}}
COMBO = {'OneOf': 'oneOf', 'AllOf': 'allOf'}
# recorded findings: name really written instead of the standard one
RENAMED = {('evt', 'dataResponse'): ('event-data-response-name', 'data_response')}

PROTO = ('coap_', 'http_', 'mqtt_')

# roots_ser/src/lib.rs
HEAD = '''// Generated by tools/mkroots.py.  Each function only calls one operation.
#![allow(clippy::all, unused_imports, dead_code)]
use serde::{Deserialize, Deserializer, Serialize, Serializer, ser::SerializeMap};
use wot_td::{builder::*, extend::*, hlist::*, protocol::{coap, http, mqtt}, thing::*};
mod rec;
use rec::*;

// Extension values: each writes one entry of its own, whose content the verifier knows nothing about.
pub struct Content(pub u64);
impl Serialize for Content { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u64(self.0) } }
impl<'de> Deserialize<'de> for Content { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { u64::deserialize(d).map(Content) } }
macro_rules! opaque { ($($n:ident),*) => { $(
    pub struct $n(pub Content);
    impl Serialize for $n {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            let mut m = s.serialize_map(Some(1))?;
            m.serialize_entry(concat!("*", stringify!($n)), &self.0)?;
            m.end()
        }
    }
    impl<'de> Deserialize<'de> for $n { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Content::deserialize(d).map($n) } }
)* } }
opaque!(Ext, XInter, XProp, XAct, XEvt, XForm, XResp, XData, XObj, XArr);
impl ExtendableThing for Ext {
    type InteractionAffordance = XInter;
    type PropertyAffordance = XProp;
    type ActionAffordance = XAct;
    type EventAffordance = XEvt;
    type Form = XForm;
    type ExpectedResponse = XResp;
    type DataSchema = XData;
    type ObjectSchema = XObj;
    type ArraySchema = XArr;
}

'''


def roots():
    """[(name, parameters, result, body)]"""
    out = [('ser_%s' % tag, 'a: &%s' % ty, 'Result<Tree, E>', 'a.serialize(Rec)') for tag, ty, _ in values.TYPES]
    out += [('de_%s' % tag, 't: Tree', 'Result<%s, E>' % ty, 'Deserialize::deserialize(TreeDe(t))') for tag, ty, _ in values.TYPES]
    out.append(('fmt_op', "a: &FormOperation, f: &mut std::fmt::Formatter<'_>", 'std::fmt::Result', 'std::fmt::Display::fmt(a, f)'))
    return out


class Trees:
    """The recorded form of values."""

    def __init__(self, ex, tree_ty):
        self.ex = ex
        self.ty = tree_ty

    def mk(self, variant, *fs):
        for i, v in enumerate(self.ex.T[self.ty]['variants']):
            if v['name'] == variant:
                return Adt(self.ty, i, {i: tuple(fs)})
        raise Lost('Tree::' + variant)

    def fty(self, variant):
        for i, v in enumerate(self.ex.T[self.ty]['variants']):
            if v['name'] == variant:
                return self.ex.T.fields(self.ty, i)[0][1]

    def string(self, t):
        return self.mk('Str', Sym(t, self.fty('Str')))

    def opaque(self, v, ty):
        ex = self.ex
        f = ex.pfn('ser.%d' % ex.tkey(ty), [V], V)
        return Sym(f(ex.models.term_of(ex, v, St())), self.ty)

    def of(self, v, st=None):
        """The tree a value is written as."""
        ex = self.ex
        st = st or St()
        v = ex.full_deref(v, st)
        M = ex.models
        if isinstance(v, Sc):
            if z3.is_bool(v.e):
                return self.mk('Bool', v)
            if v.e.sort() in (F64, F32):
                return self.mk('F64', v)
            t = ex.T[v.ty] if v.ty is not None else {}
            return self.mk('U64' if t.get('k') == 'uint' else 'I64', v)
        s = M.strterm(ex, v, st)
        if s is not None:
            return self.string(s)
        if M.maplike(ex, v) and not isinstance(v, SeqV):
            return self.mk('Obj', ex.map_seq(M.as_map(ex, v).pairs, lambda p: M.tup(ex, self.key(ex.proj(p, 0, 0)), self.of(ex.proj(p, 0, 1)))))
        ty = ex.adt_ty(v)
        if ty is not None and ty >= 0 and ex.T[ty]['k'] == 'adt':
            n = ex.T[ty]['name'].split('::')[-1]
            if n == 'Option':
                return ex.merge(EQ(ex.disc(v), I(1)), self.of(ex.proj(v, 1, 0)), self.mk('Null'))
            if n == 'Cow':
                return self.string(self.cow(v))
            if n == 'NonZero' or n.startswith('NonZero'):
                return self.mk('U64', self.inner(v))
        if ex.seqlike(v):
            return self.mk('Seq', ex.map_seq(ex.as_seq(v), self.of))
        return self.opaque(v, ty)

    def inner(self, v):
        """The number behind a NonZero."""
        ex = self.ex
        if isinstance(v, Sc):
            return v
        return Sc(ex.pfn('nonzero.get', [V], z3.IntSort())(ex.models.term_of(ex, v, St())), self.fty('U64'))

    def cow(self, v):
        ex = self.ex
        s = ex.models.strterm(ex, ex.proj(v, 0, 0), St())
        o = ex.models.strterm(ex, ex.proj(v, 1, 0), St())
        return IF(EQ(ex.disc(v), I(0)), s, o)

    def key(self, v):
        ex = self.ex
        s = ex.models.strterm(ex, v, St())
        if s is None:
            f = ex.pfn('name.%d' % ex.tkey(ex.adt_ty(v)), [V], V)
            s = f(ex.models.term_of(ex, v, St()))
        return Sym(s, self.keyty)

    def short(self, v):
        """A list in the short form."""
        ex = self.ex
        st = St()
        seq = ex.as_seq(ex.full_deref(v, st))
        one = EQ(ex.seq_len(seq), I(1))
        return ex.merge(one, self.of(ex.index(ex.full_deref(v, st), I(0))), self.of(v))


def OBJECT(ex, ty):
    return [x['name'] for x in ex.T[ty]['variants']].index('Object')


class WriterUnit(ValueUnit):
    roots = 'roots_ser'

    def __init__(self, tag, only=None):
        self.tag = tag
        self.only = only
        self.name = 'writing of %s' % tag

    # -------------------------------------------------------------- contracts of what is called
    def covered(self):
        ex = self.ex
        out = set()
        for n, k in self.dump['roots'].items():
            if n.startswith('root_ser_') and n in self.dump['roots']:
                ty = ex.F[k]['locals'][1]
                while ex.T[ty]['k'] == 'ref':
                    ty = ex.T[ty]['ty']
                out.add(ex.canon[ty])
        return out

    def hook(self):
        cov = self.covered()
        top = [True]

        def hook(ex, c, st, defname):
            if c.d == SER and c.argtys:
                ty = c.argtys[0]
                while ex.T[ty]['k'] == 'ref':
                    ty = ex.T[ty]['ty']
                if top[0]:
                    top[0] = False
                    return NotImplemented
                t = ex.T[ty]
                name = t.get('name') or ''
                sn = ex.T[c.argtys[1]].get('name') or ''
                ser = sn.split('::')[-1]
                if ser == 'Key' and name.endswith('LanguageTag'):
                    return self.ok(c, self.trees.key(ex.full_deref(c.args[0], st)))
                if name.endswith('Map') and name.startswith('serde_json'):
                    if ser == 'Rec':
                        return self.json_map(c, ex.full_deref(c.args[0], st))
                    return NotImplemented
                if ser != 'Rec':
                    return NotImplemented
                if name.split('::')[-1] == 'Value' and self.parts:
                    v = ex.full_deref(c.args[0], st)
                    fs = v.f.get(OBJECT(ex, ty)) if isinstance(v, Adt) and is_true(EQ(ex.disc(v), I(OBJECT(ex, ty)))) else None
                    if fs is not None and isinstance(fs[0], SeqV):
                        return self.json_map(c, fs[0])      # an object being put together is written as its entries
                if t['k'] == 'adt' and (ex.canon[ty] in cov or name.endswith('LanguageTag') or name.split('::')[-1] in ('Value', 'Content')):
                    return self.ok(c, self.trees.opaque(ex.full_deref(c.args[0], st), ty))
                return NotImplemented
            if defname.startswith('std::num::NonZero') and defname.split('::')[-1] == 'get':
                return self.trees.inner(ex.full_deref(c.args[0], st))
            if defname == 'time::serde::rfc3339::option::serialize':
                return self.time(c, st)
            if defname.startswith('serde_json') or c.d.startswith('serde_json') or 'serde_json' in defname and c.d.split('::')[-1] == 'extend':
                return self.json(c, st, defname)
            return NotImplemented
        return hook

    def ok(self, c, v):
        return Adt(c.destty, 0, {0: (v,)})

    def time(self, c, st):
        v = self.ex.full_deref(c.args[0], st)
        return self.ok(c, self.time_tree(v))

    def time_tree(self, v):
        ex = self.ex
        x = ex.proj(v, 1, 0)
        return ex.merge(EQ(ex.disc(v), I(1)), Sym(ex.pfn('ser.rfc3339', [V], V)(ex.models.term_of(ex, x, St())), self.trees.ty), self.trees.mk('Null'))

    # serde_json::Map as the list of its insertions (a later one replaces an earlier one of that name)
    def json(self, c, st, defname):
        ex = self.ex
        last = c.d.split('::')[-1]
        if c.d.endswith('serde_json::to_value') or defname.endswith('serde_json::to_value') or defname.endswith('value::to_value'):
            v = ex.full_deref(c.args[0], st)
            vty = ex.T.fields(c.destty, 0)[0][1]
            return self.ok(c, self.part(v, vty))
        if not self.parts:
            return NotImplemented
        if 'Map' in c.d and last in ('new', 'with_capacity'):
            return SeqV(())
        if last in ('extend', 'append', 'insert') and isinstance(c.args[0], RefM):
            old = ex.deref(c.args[0], st)
            if not isinstance(old, SeqV):
                raise Unsupported('JSON map')
            if last == 'insert':
                new = SeqV((Seg((), T, ex.models.tup(ex, c.args[1], c.args[2])),))
            else:
                new = ex.full_deref(c.args[1], st)
                new = new if isinstance(new, SeqV) else ex.as_seq(new)
            ex.write_ref(c.args[0], SeqV(old.segs + new.segs), st)
            if last == 'append':
                ex.write_ref(c.args[1], SeqV(()), st)
            return Opq('havoc', id=0) if last == 'insert' else ex.models.unit(ex)
        return NotImplemented

    def part(self, v, vty):
        """The JSON value of a part: an object whose entries are those its contract gives."""
        ex = self.ex
        t = ex.models.term_of(ex, v, St())
        name = {self.ex.canon[a]: n for n, a in self.parts.items()}.get(ex.canon[ex.adt_ty(v)])
        if name is None:
            raise Unsupported('JSON value of %s' % ex.tname(ex.adt_ty(v)))
        k = [x['name'] for x in ex.T[vty]['variants']].index('Object')
        key = Sym(ex.lit('*' + name), self.trees.keyty)
        val = Sym(ex.pfn('entries.' + name, [V], V)(t), vty)
        return Adt(vty, k, {k: (SeqV((Seg((), T, ex.models.tup(ex, key, val)),)),)})

    def json_map(self, c, v):
        ex = self.ex
        if not isinstance(v, SeqV):
            raise Unsupported('JSON map')
        return self.ok(c, self.trees.mk('Obj', ex.map_seq(v, lambda p: ex.models.tup(ex, ex.proj(p, 0, 0), self.trees.opaque(ex.proj(p, 0, 1), self.valty())))))

    def valty(self):
        return next(i for i in range(len(self.ex.T.t)) if self.ex.T[i].get('name') in ('serde_json::Value', 'serde_json::value::Value'))

    # -------------------------------------------------------------- what has to be written
    def entries(self, tag, w, cond=T):
        """[(name or splice, presence, tree)]"""
        ex, tr = self.ex, self.trees
        out = []
        if tag == 'dsub' or tag == 'known':
            key, table = ('type', SUBTYPES) if tag == 'dsub' else ('scheme', SCHEMES)
            self.variants(w, table)
            v = None
            for n, (x, _) in table.items():
                s = ex.lit(x)
                v = s if v is None else IF(w.is_(n), s, v)
            out.append((key, cond, tr.string(v), 'tag'))
            for n, (x, sub) in table.items():
                if sub and not is_false(w.is_(n)):
                    out += self.entries(sub, w.as_(n), AND(cond, w.is_(n)))
            return out
        if tag[:3] in LIMITS:
            self.variants(w, LIMITS[tag[:3]])
            return [(x, AND(cond, w.is_(n)), tr.of(w.as_(n).v), '') for n, x in LIMITS[tag[:3]].items() if not is_false(w.is_(n))]
        if tag == 'combo':
            self.variants(w, COMBO)
            return [(x, AND(cond, w.is_(n)), tr.short(w.as_(n).v), '1') for n, x in COMBO.items() if not is_false(w.is_(n))]
        if tag == 'secsub':
            self.variants(w, {'Known': 0, 'Unknown': 0})
            for n, sub in (('Known', 'known'), ('Unknown', 'unknown')):
                if not is_false(w.is_(n)):
                    out += self.entries(sub, w.as_(n), AND(cond, w.is_(n)))
            return out
        fs = [f for _, f, _ in TABLE[tag]]
        if sorted(w.fieldnames()) != sorted(fs):
            raise Lost('fields of %s' % tag)
        cond0 = cond
        for name, field, how in TABLE[tag]:
            x = w.f(field)
            cond = self.given(cond0, tag, field, how, x)
            if how in ('v', '*'):
                out.append((name, cond, tr.of(x.v) if how == 'v' else tr.of(x.f(0).v), ''))
            elif how == '?':
                out.append((name, AND(cond, x.some), tr.of(x.inner.v), ''))
            elif how == '?1':
                out.append((name, AND(cond, x.some), tr.short(x.inner.v), '1'))
            elif how == '1':
                out.append((name, cond, tr.short(x.v), '1'))
            elif how == 'nonempty':
                out.append((name, AND(cond, NOT(x.empty())), tr.of(x.v), ''))
            elif how == 'nonempty1':
                out.append((name, AND(cond, NOT(x.empty())), tr.short(x.v), '1'))
            elif how == 'true':
                out.append((name, cond if self.explicit(tag, field) else AND(cond, x.e), tr.of(x.v), ''))
            elif how == 'op':
                out.append((name, AND(cond, NOT(x.is_('Default'))), tr.of(x.v), ''))
            elif how == '?time':
                out.append((name, AND(cond, x.some), self.time_tree(x.v), ''))
            elif how[0] == '+':
                out += self.entries(how[1:], x, cond)
            elif how[:2] == '?+':
                if is_false(x.some):
                    continue
                out += self.entries(how[2:], x.inner, AND(cond, x.some))
            elif how == 'members':
                m = x.as_('Object')
                self.hyps.append(IMP(cond, OR(x.is_('Null'), x.is_('Object'))))
                out.append((None, AND(cond, x.is_('Object')), m, ''))
            elif how == 'part':
                vty = self.valty()
                out.append((name, cond, tr.opaque(Sym(ex.pfn('entries.' + field, [V], V)(ex.models.term_of(ex, x.v, St())), vty), vty), ''))
            elif how == '?json':
                vty = self.valty()
                k = [y['name'] for y in ex.T[vty]['variants']].index('Bool')
                out.append((name, AND(cond, x.some), tr.opaque(Adt(vty, k, {k: (x.inner.v,)}), vty), ''))
            else:
                raise Lost(how)
        return out

    def given(self, cond, tag, field, how, x):
        return cond

    def explicit(self, tag, field):
        return False

    def variants(self, w, table):
        if sorted(v['name'] for v in w.tinfo()['variants']) != sorted(table):
            raise Lost('variants of %s' % w.tinfo()['name'])

    def run(self):
        ex = self.ex
        root = 'root_ser_' + self.tag
        b = ex.F[self.dump['roots'][root]]
        tree_ty = ex.T.fields(b['locals'][0], 0)[0][1]
        self.trees = Trees(ex, tree_ty)
        obj = self.trees.fty('Obj')          # Vec<(String, Tree)>
        self.trees.keyty = ex.T[ex.T[obj]['args'][0]]['tys'][0]
        a = self.args('ser_' + self.tag)
        x = self.w(a[0])
        self.parts = {f: x.f(f).ty for _, f, h in TABLE.get(self.tag, []) if h == 'part'}
        ex.hook = self.hook()
        r = self.w(self.call('ser_' + self.tag, a))
        ex.hook = None
        self.goals.append(('writing succeeds', r.is_('Ok')))
        t = r.as_('Ok')
        if self.tag in ENUMS:
            return self.enumeration(x, t)
        if self.tag == 'elems':
            self.variants(x, {'Elem': 0, 'Vec': 0})
            self.goals.append(('one schema is written as itself', IMP(x.is_('Elem'), same(ex, t, self.trees.of(x.as_('Elem').v)))))
            self.goals.append(('a list of schemas is written as a list', IMP(x.is_('Vec'), same(ex, t, self.trees.of(x.as_('Vec').v)))))
            return
        if self.tag == 'ops':
            self.variants(x, {'Default': 0, 'Custom': 0})
            l = x.as_('Custom')
            self.goals.append(('the operations are written as a list', IMP(x.is_('Custom'), same(ex, t, self.trees.of(l.v)))))
            return
        if self.tag == 'secsub':
            self.variants(x, {'Known': 0, 'Unknown': 0})
            for n in ('Known', 'Unknown'):
                self.goals.append(('a scheme is written as itself: %s' % n, IMP(x.is_(n), same(ex, t, self.trees.opaque(x.as_(n).v, x.as_(n).ty)))))
            return
        self.goals.append(('an object is written', t.is_('Obj')))
        self.object(t.as_('Obj'), self.entries(self.tag, x))

    def enumeration(self, x, t):
        ex = self.ex
        table = ENUMS[self.tag]
        self.variants(x, table)
        for n, s in table.items():
            if isinstance(s, int):
                v = t.as_('U64')
                self.goals.append(('%s is written as %d' % (n, s), IMP(x.is_(n), AND(t.is_('U64'), EQ(v.e, I(s))))))
            else:
                self.goals.append(('%s is written as %s' % (n, s), IMP(x.is_(n), same(ex, t, self.trees.string(ex.lit(s))))))

    def object(self, o, want):
        ex = self.ex
        G = self.goals
        segs = [s for s in ex.as_seq(o.v).segs if not is_false(s.g)]
        flat, loops = [], []
        for s in segs:
            if s.b:
                loops.append(s)
            else:
                k = ex.models.strterm(ex, ex.proj(s.v, 0, 0), St())
                if k is None:
                    raise Unsupported('name of an entry')
                flat.append((s.g, k, ex.proj(s.v, 0, 1)))
        keys = {}
        for k, p, v, how in want:
            if k is not None:
                keys.setdefault(k, []).append((p, v, how))
        for k, ps in keys.items():
            lit = ex.lit(self.actual(k))
            here = [(AND(g, EQ(kk, lit)), v) for g, kk, v in flat]
            here = [(g, v) for g, v in here if not is_false(g)]
            nm = k if k[0] != '*' else 'the extension ' + k[1:]
            only1 = self.only == 'P20'
            if only1 and not any(h == '1' for _, _, h in ps):
                continue
            if not only1:
                G.append(('%s is written exactly when present' % nm, EQ(OR(*[g for g, _ in here]), OR(*[p for p, _, _ in ps]))))
                G.append(('%s is written once' % nm, AND(*[NOT(AND(here[i][0], here[j][0])) for i in range(len(here)) for j in range(i)])))
            G.append(('the value of %s is unchanged' % nm, AND(*[IMP(AND(g, p), same(ex, v, x)) for g, v in here for p, x, _ in ps])))
        if self.only == 'P20':
            return
        lits = [ex.lit(self.actual(k)) for k in keys]
        G.append(('nothing else is written', AND(*[IMP(g, OR(*[EQ(kk, l) for l in lits])) for g, kk, _ in flat])))
        spl = [(p, m) for k, p, m, _ in want if k is None]
        if spl or loops:
            if len(spl) != 1 or len(loops) != 1:
                raise Unsupported('entries written in a loop %d %d %s' % (len(spl), len(loops), [(str(s.g)[:300], str(s.b), str(s.v)[:600]) for s in loops]))
            (p, m), s = spl[0], loops[0]
            pairs = ex.models.as_map(ex, m.v).pairs
            exp = ex.map_seq(pairs, lambda q: ex.models.tup(ex, self.trees.key(ex.proj(q, 0, 0)), self.trees.of(ex.proj(q, 0, 1))))
            e = exp.segs[0]
            e = Seg(e.b, AND(e.g, p), e.v)
            G.append(('every member of the custom data is written', rel_seg(ex, s, e, lambda u, v: AND(same(ex, ex.proj(u, 0, 0), ex.proj(v, 0, 0)), same(ex, ex.proj(u, 0, 1), ex.proj(v, 0, 1))))))

    def actual(self, k):
        r = RENAMED.get((self.tag, k))
        return r[1] if r else k


class DisplayUnit(ValueUnit):
    roots = 'roots_ser'
    name = 'text of an operation'

    def run(self):
        ex = self.ex
        out = []

        def hook(ex, c, st, defname):
            last = c.d.split('::')[-1]
            if c.d.startswith('std::fmt::Formatter') and last in ('write_str', 'pad') or c.d.endswith('fmt::Write::write_str'):
                s = ex.models.strterm(ex, c.args[1], st)
                out.append((AND(*ex.pc()) if ex.pc() else T, s))
                return Adt(c.destty, 0, {0: (ex.models.unit(ex),)})
            if c.d.startswith('std::fmt::Formatter') and last in ('alternate', 'sign_plus', 'sign_minus', 'sign_aware_zero_pad'):
                # flags of the format string: any
                return Sc(ex.fresh('flag', z3.BoolSort()), c.destty)
            return NotImplemented
        ex.hook = hook
        b = ex.F[self.dump['roots']['root_fmt_op']]
        a = self.args('fmt_op')
        x = self.w(a[0])
        r = self.w(self.call('fmt_op', a))
        ex.hook = None
        if not out:
            raise Unsupported('no text written')
        self.goals.append(('formatting succeeds', r.is_('Ok')))
        # on every path one piece of text
        once = AND(OR(*[p for p, _ in out]), *[NOT(AND(out[i][0], out[j][0])) for i in range(len(out)) for j in range(i)])
        for n in OPS:
            self.goals.append(('%s is displayed as %s' % (n, n.lower()), IMP(x.is_(n), AND(once, *[IMP(p, EQ(s, ex.lit(n.lower()))) for p, s in out]))))


def units(prop):
    tags = [t for t, _, _ in values.TYPES]
    if prop in ('P15', 'P16'):
        return [WriterUnit(t) for t in tags if not t.startswith(PROTO)] + [WriterUnit(t) for t in tags if t.startswith(PROTO)]
    if prop == 'P17':
        return [WriterUnit('op'), WriterUnit('ops'), DisplayUnit()]
    if prop == 'P20':
        one = [t for t in TABLE if any(h.endswith('1') for _, _, h in TABLE[t])] + ['combo', 'elems', 'ops']
        return [WriterUnit(t, 'P20') for t in one]
    if prop == 'P21':
        return [WriterUnit(t) for t in tags if t.startswith(PROTO)]
    return []
