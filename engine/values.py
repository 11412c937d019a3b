"""The value types of the crate (equality, copies, defaults), the laws of the numeric limits and of the
extension lists: what the roots crate roots_val instantiates."""

DS = 'DataSchema<XData, XArr, XObj>'
# (tag, type, implemented: e = PartialEq, c = Clone, d = Default)
TYPES = [
    ('thing', 'Thing<Ext>', 'ed'),
    ('inter', 'InteractionAffordance<Ext>', 'ed'),
    ('prop', 'PropertyAffordance<Ext>', 'ed'),
    ('act', 'ActionAffordance<Ext>', 'ed'),
    ('evt', 'EventAffordance<Ext>', 'ed'),
    ('version', 'VersionInfo', 'ecd'),
    ('ds', DS, 'ecd'),
    ('dsub', 'DataSchemaSubtype<XData, XArr, XObj>', 'ecd'),
    ('arr', 'ArraySchema<XData, XArr, XObj>', 'ecd'),
    ('elems', 'BoxedElemOrVec<%s>' % DS, 'ec'),
    ('minf', 'Minimum<f64>', 'ec'),
    ('maxf', 'Maximum<f64>', 'ec'),
    ('mini', 'Minimum<i64>', 'ec'),
    ('maxi', 'Maximum<i64>', 'ec'),
    ('num', 'NumberSchema', 'ecd'),
    ('int', 'IntegerSchema', 'ecd'),
    ('obj', 'ObjectSchema<XData, XArr, XObj>', 'ecd'),
    ('str', 'StringSchema', 'ecd'),
    ('sec', 'SecurityScheme', 'ecd'),
    ('known', 'KnownSecuritySchemeSubtype', 'ecd'),
    ('unknown', 'UnknownSecuritySchemeSubtype', 'ecd'),
    ('secsub', 'SecuritySchemeSubtype', 'ecd'),
    ('combo', 'ComboSecurityScheme', 'ec'),
    ('basic', 'BasicSecurityScheme', 'ecd'),
    ('loc', 'SecurityAuthenticationLocation', 'ec'),
    ('digest', 'DigestSecurityScheme', 'ecd'),
    ('qop', 'QualityOfProtection', 'ecd'),
    ('apikey', 'ApiKeySecurityScheme', 'ecd'),
    ('bearer', 'BearerSecurityScheme', 'ecd'),
    ('psk', 'PskSecurityScheme', 'ecd'),
    ('oauth2', 'OAuth2SecurityScheme', 'ecd'),
    ('link', 'Link', 'ecd'),
    ('form', 'Form<Ext>', 'ecd'),
    ('op', 'FormOperation', 'ec'),
    ('ops', 'DefaultedFormOperations', 'ecd'),
    ('resp', 'ExpectedResponse<XResp>', 'ecd'),
    ('addresp', 'AdditionalExpectedResponse', 'ecd'),
    ('nil', 'Nil', 'ecd'),
    ('cons', 'Cons<XData, XArr>', 'ecd'),
    ('coap_method', 'coap::Method', 'ec'),
    ('coap_size', 'coap::BlockSize', 'ec'),
    ('coap_block', 'coap::BlockWiseTransferParameters', 'ecd'),
    ('coap_form', 'coap::Form', 'ecd'),
    ('coap_resp', 'coap::ExpectedResponse', 'ecd'),
    ('coap_proto', 'coap::CoapProtocol', 'ecd'),
    ('http_method', 'http::Method', 'ec'),
    ('http_header', 'http::MessageHeader', 'ecd'),
    ('http_resp', 'http::Response', 'ecd'),
    ('http_form', 'http::Form', 'ecd'),
    ('http_proto', 'http::HttpProtocol', 'ecd'),
    ('mqtt_packet', 'mqtt::ControlPacket', 'ec'),
    ('mqtt_qos', 'mqtt::QoS', 'ec'),
    ('mqtt_form', 'mqtt::Form', 'ecd'),
    ('mqtt_proto', 'mqtt::MqttProtocol', 'ecd'),
]

NUMS = ['i64', 'f64', 'f32', 'u64']
KINDS = {'min': 'Minimum', 'max': 'Maximum'}
OPS = {'cmp': ('Option<Ordering>', 'a.partial_cmp(b)'), 'eq': ('bool', 'a == b'), 'ne': ('bool', 'a != b'), 'lt': ('bool', 'a < b'), 'le': ('bool', 'a <= b'), 'gt': ('bool', 'a > b'), 'ge': ('bool', 'a >= b')}

MAXLEN = 6


def lst(ts, tail='Nil'):
    """The list type with these element types, head first."""
    out = tail
    for t in reversed(ts):
        out = 'Cons<%s, %s>' % (t, out)
    return out


def roots():
    """[(name, parameters, result, body)]"""
    out = []
    for tag, ty, tr in TYPES:
        if 'e' in tr:
            out.append(('eq_' + tag, 'a: &%s, b: &%s' % (ty, ty), 'bool', 'a == b'))
            out.append(('ne_' + tag, 'a: &%s, b: &%s' % (ty, ty), 'bool', 'a != b'))
        if 'c' in tr:
            out.append(('clone_' + tag, 'a: &%s' % ty, ty, 'a.clone()'))
            out.append(('clonefrom_' + tag, 'mut a: %s, b: &%s' % (ty, ty), ty, '{ a.clone_from(b); a }'))
        if 'd' in tr:
            out.append(('default_' + tag, '', ty, 'Default::default()'))
    for n in NUMS:
        for a, A in KINDS.items():
            for b, B in KINDS.items():
                for o, (r, body) in OPS.items():
                    out.append(('%s_%s_%s_%s' % (o, a, b, n), 'a: &%s<%s>, b: &%s<%s>' % (A, n, B, n), r, body))
            if n in ('f64', 'f32'):
                out.append(('nan_%s_%s' % (a, n), 'a: &%s<%s>' % (A, n), 'bool', 'a.is_nan()'))
    E = ['E%d' % i for i in range(MAXLEN)]
    # the result types are the ones the crate computes: what is in the result is what is proved

    def LAST(x):
        return '(<%s as NonEmptyHList>::Last, <%s as NonEmptyHList>::Init)' % (x, x)

    def REV(x):
        return '<%s as NonEmptyHList>::Reversed' % x

    def REF(x):
        return '<%s as HListRef>::Target' % x
    # one step for a list with any tail
    out.append(('nil_cons', 'x: E0', 'Cons<E0, Nil>', 'Nil::cons(x)'))
    out.append(('cons', 'l: Cons<E1, Tail>, x: E0', 'Cons<E0, Cons<E1, Tail>>', 'l.cons(x)'))
    out.append(('split_head', 'l: Cons<E0, Tail>', '(E0, Tail)', 'l.split_head()'))
    out.append(('last_one', 'l: Cons<E0, Nil>', LAST('Cons<E0, Nil>'), 'l.split_last()'))
    out.append(('last_step', 'l: Cons<E0, Tail>', LAST('Cons<E0, Tail>'), 'l.split_last()'))
    out.append(('rev_one', 'l: Cons<E0, Nil>', REV('Cons<E0, Nil>'), 'l.reverse()'))
    out.append(('rev_step', 'l: Cons<E0, Tail>', REV('Cons<E0, Tail>'), 'l.reverse()'))
    out.append(('ref_nil', "l: &'static Nil", REF("&'static Nil"), 'l.to_ref()'))
    out.append(('ref_step', "l: &'static Cons<E0, Tail>", REF("&'static Cons<E0, Tail>"), 'l.to_ref()'))
    out.append(('mutstep_head', "l: &'static mut Cons<E0, Tail>, x: E0", '()', '*l.to_mut().head = x'))
    out.append(('mutstep_tail', "l: &'static mut Cons<E0, Tail>", 'TMut', 'l.to_mut().tail'))
    out.append(('ext_nil', 'x: E0', 'Cons<E0, Nil>', 'Extend::ext(Nil, x)'))
    out.append(('ext_cons', 'l: Cons<E1, Tail>, x: E0', 'Cons<E0, Cons<E1, Tail>>', 'l.ext(x)'))
    out.append(('ext_with_nil', 'x: E0', 'Cons<E0, Nil>', 'Nil.ext_with(|| x)'))
    out.append(('ext_with_cons', 'l: Cons<E1, Tail>, x: E0', 'Cons<E0, Cons<E1, Tail>>', 'l.ext_with(|| x)'))
    out.append(('empty_nil', '', 'Nil', '<Nil as Extendable>::empty()'))
    out.append(('empty_cons', '', 'Nil', '<Cons<E0, Tail> as Extendable>::empty()'))
    out.append(('unit_nil', '', 'Nil', 'Nil::from(())'))
    # whole lists of a given length
    for n in range(1, MAXLEN + 1):
        L = lst(E[:n])
        out.append(('rev_%d' % n, 'l: ' + L, REV(L), 'l.reverse()'))
        out.append(('revrev_%d' % n, 'l: ' + L, REV(REV(L)), 'l.reverse().reverse()'))
        out.append(('last_%d' % n, 'l: ' + L, LAST(L), 'l.split_last()'))
        out.append(('ref_%d' % n, "l: &'static " + L, REF("&'static " + L), 'l.to_ref()'))
        # elements of one type: a view whose references are in another order has the same type
        L = lst(['E0'] * n)
        path = ['m' + '.tail' * i + '.head' for i in range(n)]
        out.append(('mut_%d' % n, 'l: &mut %s, %s' % (L, ', '.join('x%d: E0' % i for i in range(n))), '()', '{ let m = l.to_mut(); %s }' % ' '.join('*%s = x%d;' % (p, i) for i, p in enumerate(path))))
        for i in range(n):
            out.append(('mut_%d_%d' % (n, i), 'l: &mut %s, x: E0' % L, '()', '{ let m = l.to_mut(); *%s = x; }' % path[i]))
    return out


HEAD = '''// Generated by tools/mkroots.py from engine/values.py.  Each function only calls one operation.
#![allow(clippy::all, unused_imports, dead_code)]
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cmp::Ordering;
use wot_td::{builder::*, extend::*, hlist::*, protocol::{coap, http, mqtt}, thing::*};

// Extension types: what their operations do is not known to the verifier.
macro_rules! opaque { ($($n:ident),*) => { $(
    pub struct $n(pub u64);
    impl Serialize for $n { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u64(self.0) } }
    impl<'de> Deserialize<'de> for $n { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { u64::deserialize(d).map($n) } }
    impl Clone for $n { fn clone(&self) -> Self { $n(self.0) } }
    impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl Default for $n { fn default() -> Self { $n(0) } }
)* } }
opaque!(Ext, XInter, XProp, XAct, XEvt, XForm, XResp, XData, XObj, XArr);
impl ExtendableThing for Ext {
    type InteractionAffordance = XInter;
    type PropertyAffordance = XProp;
    type ActionAffordance = XAct;
    type EventAffordance = XEvt;
    type Form = XForm;
    type ExpectedResponse = XResp;
    type DataSchema = XData;
    type ObjectSchema = XObj;
    type ArraySchema = XArr;
}

// Elements and an arbitrary non-empty tail of a list.
macro_rules! elems { ($($n:ident),*) => { $( pub struct $n(u64); )* } }
elems!(E0, E1, E2, E3, E4, E5, Tail, TLast, TInit, TInitLast, TRef, TMut);
pub fn abs_tail_split(t: Tail) -> (TLast, TInit) { let _ = t; loop {} }
pub fn abs_init_split(t: TInit) -> (TInitLast, Nil) { let _ = t; loop {} }
pub fn abs_tail_reverse(t: Tail) -> TRef { let _ = t; loop {} }
pub fn abs_init_reverse(t: TInit) -> Nil { let _ = t; loop {} }
pub fn abs_tail_ref(t: &'static Tail) -> TRef { let _ = t; loop {} }
impl NonEmptyHList for Tail {
    type Init = TInit; type Last = TLast; type Reversed = TRef;
    fn split_last(self) -> (TLast, TInit) { abs_tail_split(self) }
    fn reverse(self) -> TRef { abs_tail_reverse(self) }
}
impl NonEmptyHList for TInit {
    type Init = Nil; type Last = TInitLast; type Reversed = Nil;
    fn split_last(self) -> (TInitLast, Nil) { abs_init_split(self) }
    fn reverse(self) -> Nil { abs_init_reverse(self) }
}
pub fn abs_tail_mut(t: &'static mut Tail) -> TMut { let _ = t; loop {} }
impl HListMut for &'static mut Tail { type Target = TMut; fn to_mut(self) -> TMut { abs_tail_mut(self) } }
impl HListRef for &'static Tail { type Target = TRef; fn to_ref(self) -> TRef { abs_tail_ref(self) } }

'''
