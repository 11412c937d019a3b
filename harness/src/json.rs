//! An independent writer of descriptions (names of the standard) and what reading must give back.
use crate::ext::*;
use crate::rng::Rng;
use serde::de::{DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use wot_td::{protocol::{coap, http, mqtt}, thing::*};

type Schema = DataSchema<DS, AS, OS>;

/// How a text is written: the canonical way, or in one of the other ways that mean the same.
pub struct Style {
    pub r: Option<Rng>,
    /// write what equals the default
    pub defaults: bool,
}

#[derive(Clone)]
pub enum J {
    O(Vec<(String, J)>),
    A(Vec<J>),
    V(Value),
}

impl J {
    pub fn text(&self, s: &mut String) {
        match self {
            J::O(kv) => {
                s.push('{');
                for (i, (k, v)) in kv.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    s.push_str(&serde_json::to_string(k).unwrap());
                    s.push(':');
                    v.text(s);
                }
                s.push('}');
            }
            J::A(v) => {
                s.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    x.text(s);
                }
                s.push(']');
            }
            J::V(v) => s.push_str(&serde_json::to_string(v).unwrap()),
        }
    }
    pub fn value(&self) -> Value {
        match self {
            J::O(kv) => Value::Object(kv.iter().map(|(k, v)| (k.clone(), v.value())).collect()),
            J::A(v) => Value::Array(v.iter().map(|x| x.value()).collect()),
            J::V(v) => v.clone(),
        }
    }
}

type M = Vec<(String, J)>;

fn s(x: &str) -> J {
    J::V(Value::String(x.to_string()))
}

fn put(m: &mut M, k: &str, v: J) {
    m.push((k.to_string(), v));
}

fn opt<T>(m: &mut M, k: &str, v: &Option<T>, f: impl FnOnce(&T) -> J) {
    if let Some(v) = v {
        put(m, k, f(v));
    }
}

fn map<T>(h: &HashMap<String, T>, mut f: impl FnMut(&T) -> J) -> J {
    J::O(h.iter().map(|(k, v)| (k.clone(), f(v))).collect())
}

impl Style {
    pub fn canon() -> Style {
        Style { r: None, defaults: true }
    }
    fn many(&mut self, v: Vec<J>) -> J {
        let long = self.r.as_mut().map_or(false, |r| r.pct(50));
        if v.len() == 1 && !long {
            v.into_iter().next().unwrap()
        } else {
            J::A(v)
        }
    }
    fn strs(&mut self, v: &[String]) -> J {
        self.many(v.iter().map(|x| s(x)).collect())
    }
    fn done(&mut self, mut m: M) -> J {
        if let Some(r) = self.r.as_mut() {
            if r.pct(70) {
                r.shuffle(&mut m);
            }
        }
        J::O(m)
    }
    /// is a value that equals its default written?
    fn wr(&mut self, is_default: bool) -> bool {
        !is_default || self.r.as_mut().map_or(self.defaults, |r| r.pct(50))
    }
    fn langs(&mut self, m: &mut M, k: &str, v: &Option<HashMap<oxilangtag::LanguageTag<String>, String>>) {
        if let Some(v) = v {
            put(m, k, J::O(v.iter().map(|(k, v)| (k.as_str().to_string(), s(v))).collect()));
        }
    }

    fn human(&mut self, m: &mut M, a: &Option<Vec<String>>, t: &Option<String>, ts: &Option<HashMap<oxilangtag::LanguageTag<String>, String>>, d: &Option<String>, ds: &Option<HashMap<oxilangtag::LanguageTag<String>, String>>) {
        if let Some(a) = a {
            let j = self.strs(a);
            put(m, "@type", j);
        }
        opt(m, "title", t, |x| s(x));
        self.langs(m, "titles", ts);
        opt(m, "description", d, |x| s(x));
        self.langs(m, "descriptions", ds);
    }

    pub fn thing(&mut self, t: &Thing<X>) -> J {
        let mut m = vec![];
        if self.r.is_none() || self.wr(t.context == json!("https://www.w3.org/2022/wot/td/v1.1")) {
            put(&mut m, "@context", J::V(t.context.clone()));
        }
        opt(&mut m, "id", &t.id, |x| s(x));
        if let Some(a) = &t.attype {
            let j = self.strs(a);
            put(&mut m, "@type", j);
        }
        put(&mut m, "title", s(&t.title));
        self.langs(&mut m, "titles", &t.titles);
        opt(&mut m, "description", &t.description, |x| s(x));
        self.langs(&mut m, "descriptions", &t.descriptions);
        if let Some(v) = &t.version {
            let mut o = vec![];
            put(&mut o, "instance", s(&v.instance));
            opt(&mut o, "model", &v.model, |x| s(x));
            let j = self.done(o);
            put(&mut m, "version", j);
        }
        let f = &time::format_description::well_known::Rfc3339;
        opt(&mut m, "created", &t.created, |x| s(&x.format(f).unwrap()));
        opt(&mut m, "modified", &t.modified, |x| s(&x.format(f).unwrap()));
        opt(&mut m, "support", &t.support, |x| s(x));
        opt(&mut m, "base", &t.base, |x| s(x));
        opt(&mut m, "properties", &t.properties, |x| map(x, |p| self.property(p)));
        opt(&mut m, "actions", &t.actions, |x| map(x, |p| self.action(p)));
        opt(&mut m, "events", &t.events, |x| map(x, |p| self.event(p)));
        opt(&mut m, "links", &t.links, |x| J::A(x.iter().map(|l| self.link(l)).collect()));
        opt(&mut m, "forms", &t.forms, |x| J::A(x.iter().map(|l| self.form(l)).collect()));
        let j = self.strs(&t.security);
        put(&mut m, "security", j);
        put(&mut m, "securityDefinitions", map(&t.security_definitions, |x| self.scheme(x)));
        opt(&mut m, "uriVariables", &t.uri_variables, |x| map(x, |d| self.schema(d)));
        opt(&mut m, "profile", &t.profile, |x| self.strs(x));
        opt(&mut m, "schemaDefinitions", &t.schema_definitions, |x| map(x, |d| self.schema(d)));
        opt(&mut m, E::KEY, &t.other.head.v, |x| J::V(json!(x)));
        self.done(m)
    }

    fn inter(&mut self, m: &mut M, i: &InteractionAffordance<X>) {
        self.human(m, &i.attype, &i.title, &i.titles, &i.description, &i.descriptions);
        put(m, "forms", J::A(i.forms.iter().map(|l| self.form(l)).collect()));
        opt(m, "uriVariables", &i.uri_variables, |x| map(x, |d| self.schema(d)));
        opt(m, XInter::KEY, &i.other.head.v, |x| J::V(json!(x)));
    }

    pub fn property(&mut self, p: &PropertyAffordance<X>) -> J {
        let mut m = vec![];
        self.inter(&mut m, &p.interaction);
        let mut d = vec![];
        self.schema_in(&mut d, &p.data_schema);
        for (k, v) in d {
            if !m.iter().any(|(q, _)| *q == k) {
                m.push((k, v));
            }
        }
        opt(&mut m, "observable", &p.observable, |x| J::V(json!(x)));
        opt(&mut m, XProp::KEY, &p.other.head.v, |x| J::V(json!(x)));
        self.done(m)
    }

    pub fn action(&mut self, a: &ActionAffordance<X>) -> J {
        let mut m = vec![];
        self.inter(&mut m, &a.interaction);
        opt(&mut m, "input", &a.input, |x| self.schema(x));
        opt(&mut m, "output", &a.output, |x| self.schema(x));
        if self.wr(!a.safe) {
            put(&mut m, "safe", J::V(json!(a.safe)));
        }
        if self.wr(!a.idempotent) {
            put(&mut m, "idempotent", J::V(json!(a.idempotent)));
        }
        opt(&mut m, "synchronous", &a.synchronous, |x| J::V(json!(x)));
        opt(&mut m, XAct::KEY, &a.other.head.v, |x| J::V(json!(x)));
        self.done(m)
    }

    pub fn event(&mut self, a: &EventAffordance<X>) -> J {
        let mut m = vec![];
        self.inter(&mut m, &a.interaction);
        opt(&mut m, "subscription", &a.subscription, |x| self.schema(x));
        opt(&mut m, "data", &a.data, |x| self.schema(x));
        // recorded finding P15 event-data-response-name: the standard name is dataResponse
        opt(&mut m, "data_response", &a.data_response, |x| self.schema(x));
        opt(&mut m, "cancellation", &a.cancellation, |x| self.schema(x));
        opt(&mut m, XEvt::KEY, &a.other.head.v, |x| J::V(json!(x)));
        self.done(m)
    }

    pub fn link(&mut self, l: &Link) -> J {
        let mut m = vec![];
        put(&mut m, "href", s(&l.href));
        opt(&mut m, "type", &l.ty, |x| s(x));
        opt(&mut m, "rel", &l.rel, |x| s(x));
        opt(&mut m, "anchor", &l.anchor, |x| s(x));
        opt(&mut m, "sizes", &l.sizes, |x| s(x));
        opt(&mut m, "hreflang", &l.hreflang, |x| self.many(x.iter().map(|y| s(y.as_str())).collect()));
        self.done(m)
    }

    pub fn form(&mut self, f: &Form<X>) -> J {
        let mut m = vec![];
        if let DefaultedFormOperations::Custom(ops) = &f.op {
            let v: Vec<J> = ops.iter().map(|o| s(op_name(*o))).collect();
            let j = if self.r.is_none() { J::A(v) } else { self.many(v) };
            put(&mut m, "op", j);
        }
        put(&mut m, "href", s(&f.href));
        opt(&mut m, "contentType", &f.content_type, |x| s(x));
        opt(&mut m, "contentCoding", &f.content_coding, |x| s(x));
        opt(&mut m, "subprotocol", &f.subprotocol, |x| s(x));
        opt(&mut m, "security", &f.security, |x| self.strs(x));
        opt(&mut m, "scopes", &f.scopes, |x| self.strs(x));
        opt(&mut m, "response", &f.response, |x| {
            let mut o = vec![];
            put(&mut o, "contentType", s(&x.content_type));
            opt(&mut o, XResp::KEY, &x.other.head.v, |x| J::V(json!(x)));
            self.done(o)
        });
        opt(&mut m, "additionalResponses", &f.additional_responses, |x| {
            let v = x
                .iter()
                .map(|a| {
                    let mut o = vec![];
                    if a.success || self.r.as_mut().map_or(false, |r| r.pct(50)) {
                        put(&mut o, "success", J::V(json!(a.success)));
                    }
                    opt(&mut o, "contentType", &a.content_type, |x| s(x));
                    opt(&mut o, "schema", &a.schema, |x| s(x));
                    self.done(o)
                })
                .collect();
            self.many(v)
        });
        opt(&mut m, XForm::KEY, &f.other.head.v, |x| J::V(json!(x)));
        self.done(m)
    }

    pub fn schema(&mut self, d: &Schema) -> J {
        let mut m = vec![];
        self.schema_in(&mut m, d);
        self.done(m)
    }

    fn schema_in(&mut self, m: &mut M, d: &Schema) {
        self.human(m, &d.attype, &d.title, &d.titles, &d.description, &d.descriptions);
        opt(m, "const", &d.constant, |x| J::V(x.clone()));
        opt(m, "default", &d.default, |x| J::V(x.clone()));
        opt(m, "unit", &d.unit, |x| s(x));
        opt(m, "oneOf", &d.one_of, |x| J::A(x.iter().map(|y| self.schema(y)).collect()));
        opt(m, "enum", &d.enumeration, |x| J::A(x.iter().map(|y| J::V(y.clone())).collect()));
        if self.wr(!d.read_only) {
            put(m, "readOnly", J::V(json!(d.read_only)));
        }
        if self.wr(!d.write_only) {
            put(m, "writeOnly", J::V(json!(d.write_only)));
        }
        opt(m, "format", &d.format, |x| s(x));
        if let Some(t) = &d.subtype {
            let ty = match t {
                DataSchemaSubtype::Array(_) => "array",
                DataSchemaSubtype::Boolean => "boolean",
                DataSchemaSubtype::Number(_) => "number",
                DataSchemaSubtype::Integer(_) => "integer",
                DataSchemaSubtype::Object(_) => "object",
                DataSchemaSubtype::String(_) => "string",
                DataSchemaSubtype::Null => "null",
            };
            put(m, "type", s(ty));
            match t {
                DataSchemaSubtype::Array(a) => {
                    opt(m, "items", &a.items, |x| match x {
                        BoxedElemOrVec::Elem(e) => self.schema(e),
                        BoxedElemOrVec::Vec(v) => J::A(v.iter().map(|y| self.schema(y)).collect()),
                    });
                    opt(m, "minItems", &a.min_items, |x| J::V(json!(x)));
                    opt(m, "maxItems", &a.max_items, |x| J::V(json!(x)));
                    opt(m, XArr::KEY, &a.other.head.v, |x| J::V(json!(x)));
                }
                DataSchemaSubtype::Number(n) => {
                    limits(m, &n.minimum, &n.maximum);
                    opt(m, "multipleOf", &n.multiple_of, |x| J::V(json!(x)));
                }
                DataSchemaSubtype::Integer(n) => {
                    limits(m, &n.minimum, &n.maximum);
                    opt(m, "multipleOf", &n.multiple_of, |x| J::V(json!(x.get())));
                }
                DataSchemaSubtype::Object(o) => {
                    opt(m, "properties", &o.properties, |x| map(x, |d| self.schema(d)));
                    opt(m, "required", &o.required, |x| J::A(x.iter().map(|y| s(y)).collect()));
                    opt(m, XObj::KEY, &o.other.head.v, |x| J::V(json!(x)));
                }
                DataSchemaSubtype::String(x) => {
                    opt(m, "minLength", &x.min_length, |x| J::V(json!(x)));
                    opt(m, "maxLength", &x.max_length, |x| J::V(json!(x)));
                    opt(m, "pattern", &x.pattern, |x| s(x));
                    opt(m, "contentEncoding", &x.content_encoding, |x| s(x));
                    opt(m, "contentMediaType", &x.content_media_type, |x| s(x));
                }
                DataSchemaSubtype::Boolean | DataSchemaSubtype::Null => {}
            }
        }
        opt(m, XData::KEY, &d.other.head.v, |x| J::V(json!(x)));
    }

    pub fn scheme(&mut self, x: &SecurityScheme) -> J {
        let mut m = vec![];
        opt(&mut m, "@type", &x.attype, |x| self.strs(x));
        opt(&mut m, "description", &x.description, |x| s(x));
        self.langs(&mut m, "descriptions", &x.descriptions);
        opt(&mut m, "proxy", &x.proxy, |x| s(x));
        let loc = |l: &SecurityAuthenticationLocation| match l {
            SecurityAuthenticationLocation::Header => "header",
            SecurityAuthenticationLocation::Query => "query",
            SecurityAuthenticationLocation::Body => "body",
            SecurityAuthenticationLocation::Cookie => "cookie",
            SecurityAuthenticationLocation::Uri => "uri",
        };
        use KnownSecuritySchemeSubtype as K;
        match &x.subtype {
            SecuritySchemeSubtype::Known(k) => {
                let n = match k {
                    K::NoSec => "nosec",
                    K::Auto => "auto",
                    K::Combo(_) => "combo",
                    K::Basic(_) => "basic",
                    K::Digest(_) => "digest",
                    K::Bearer(_) => "bearer",
                    K::Psk(_) => "psk",
                    K::OAuth2(_) => "oauth2",
                    K::ApiKey(_) => "apikey",
                };
                put(&mut m, "scheme", s(n));
                let mut name = |m: &mut M, st: &mut Style, l: &SecurityAuthenticationLocation, d: SecurityAuthenticationLocation, n: &Option<String>| {
                    if st.wr(*l == d) {
                        put(m, "in", s(loc(l)));
                    }
                    opt(m, "name", n, |x| s(x));
                };
                use SecurityAuthenticationLocation as L;
                match k {
                    K::NoSec | K::Auto => {}
                    K::Combo(ComboSecurityScheme::OneOf(v)) => {
                        let j = self.strs(v);
                        put(&mut m, "oneOf", j)
                    }
                    K::Combo(ComboSecurityScheme::AllOf(v)) => {
                        let j = self.strs(v);
                        put(&mut m, "allOf", j)
                    }
                    K::Basic(b) => name(&mut m, self, &b.location, L::Header, &b.name),
                    K::Digest(b) => {
                        let q = match b.qop {
                            QualityOfProtection::Auth => "auth",
                            QualityOfProtection::AuthInt => "auth-int",
                        };
                        if self.wr(q == "auth") {
                            put(&mut m, "qop", s(q));
                        }
                        name(&mut m, self, &b.location, L::Header, &b.name)
                    }
                    K::ApiKey(b) => name(&mut m, self, &b.location, L::Query, &b.name),
                    K::Bearer(b) => {
                        opt(&mut m, "authorization", &b.authorization, |x| s(x));
                        if self.wr(b.alg == "ES256") {
                            put(&mut m, "alg", s(&b.alg));
                        }
                        if self.wr(b.format == "jwt") {
                            put(&mut m, "format", s(&b.format));
                        }
                        name(&mut m, self, &b.location, L::Header, &b.name)
                    }
                    K::Psk(b) => opt(&mut m, "identity", &b.identity, |x| s(x)),
                    K::OAuth2(b) => {
                        opt(&mut m, "authorization", &b.authorization, |x| s(x));
                        opt(&mut m, "token", &b.token, |x| s(x));
                        opt(&mut m, "refresh", &b.refresh, |x| s(x));
                        opt(&mut m, "scopes", &b.scopes, |x| self.strs(x));
                        put(&mut m, "flow", s(&b.flow));
                    }
                }
            }
            SecuritySchemeSubtype::Unknown(u) => {
                put(&mut m, "scheme", s(&u.scheme));
                if let Value::Object(o) = &u.data {
                    for (k, v) in o {
                        put(&mut m, k, J::V(v.clone()));
                    }
                }
            }
        }
        self.done(m)
    }

    pub fn coap_block(&mut self, b: &coap::BlockWiseTransferParameters) -> J {
        let mut m = vec![];
        opt(&mut m, "cov:block2Size", &b.block2_size, |x| J::V(json!(block(*x))));
        opt(&mut m, "cov:block1Size", &b.block1_size, |x| J::V(json!(block(*x))));
        self.done(m)
    }
    pub fn coap_form(&mut self, f: &coap::Form) -> J {
        let mut m = vec![];
        opt(&mut m, "cov:method", &f.method, |x| s(coap_method(*x)));
        opt(&mut m, "cov:blockwise", &f.blockwise, |x| self.coap_block(x));
        opt(&mut m, "cov:qblockwise", &f.qblockwise, |x| self.coap_block(x));
        opt(&mut m, "cov:hopLimit", &f.hop_limit, |x| J::V(json!(x)));
        opt(&mut m, "cov:accept", &f.accept, |x| J::V(json!(x)));
        opt(&mut m, "cov:contentFormat", &f.content_format, |x| J::V(json!(x)));
        self.done(m)
    }
    pub fn coap_resp(&mut self, f: &coap::ExpectedResponse) -> J {
        let mut m = vec![];
        opt(&mut m, "cov:contentFormat", &f.content_format, |x| J::V(json!(x)));
        self.done(m)
    }
    pub fn http_form(&mut self, f: &http::Form) -> J {
        let mut m = vec![];
        opt(&mut m, "htv:methodName", &f.method_name, |x| s(http_method(*x)));
        self.done(m)
    }
    pub fn http_resp(&mut self, f: &http::Response) -> J {
        let mut m = vec![];
        if !f.headers.is_empty() || self.r.as_mut().map_or(false, |r| r.pct(50)) {
            let v = f
                .headers
                .iter()
                .map(|h| {
                    let mut m = vec![];
                    opt(&mut m, "htv:fieldName", &h.field_name, |x| s(x));
                    opt(&mut m, "htv:fieldValue", &h.field_value, |x| s(x));
                    self.done(m)
                })
                .collect();
            put(&mut m, "htv:headers", J::A(v));
        }
        opt(&mut m, "htv:statusCodeValue", &f.status_code_value, |x| J::V(json!(x)));
        self.done(m)
    }
    pub fn mqtt_form(&mut self, f: &mqtt::Form) -> J {
        let mut m = vec![];
        if f.retain || self.r.as_mut().map_or(false, |r| r.pct(50)) {
            put(&mut m, "mqv:retain", J::V(json!(f.retain)));
        }
        opt(&mut m, "mqv:controlPacket", &f.control_packet, |x| {
            s(match x {
                mqtt::ControlPacket::Publish => "mqv:publish",
                mqtt::ControlPacket::Subscribe => "mqv:subscribe",
                mqtt::ControlPacket::Unsubscribe => "mqv:unsubscribe",
            })
        });
        opt(&mut m, "mqv:qos", &f.qos, |x| {
            s(match x {
                mqtt::QoS::AtMostOnce => "quality:0",
                mqtt::QoS::AtLeastOnce => "quality:1",
                mqtt::QoS::ExactlyOnce => "quality:2",
            })
        });
        opt(&mut m, "mqv:topic", &f.topic, |x| s(x));
        if !f.filter.is_empty() || self.r.as_mut().map_or(false, |r| r.pct(50)) {
            let j = self.strs(&f.filter);
            put(&mut m, "mqv:filter", j);
        }
        self.done(m)
    }
}

fn limits<T: Copy + serde::Serialize>(m: &mut M, lo: &Option<Minimum<T>>, hi: &Option<Maximum<T>>) {
    match lo {
        Some(Minimum::Inclusive(x)) => put(m, "minimum", J::V(json!(x))),
        Some(Minimum::Exclusive(x)) => put(m, "exclusiveMinimum", J::V(json!(x))),
        None => {}
    }
    match hi {
        Some(Maximum::Inclusive(x)) => put(m, "maximum", J::V(json!(x))),
        Some(Maximum::Exclusive(x)) => put(m, "exclusiveMaximum", J::V(json!(x))),
        None => {}
    }
}

pub const BLOCKS: [coap::BlockSize; 7] = [coap::BlockSize::Size16, coap::BlockSize::Size32, coap::BlockSize::Size64, coap::BlockSize::Size128, coap::BlockSize::Size256, coap::BlockSize::Size512, coap::BlockSize::Size1024];
pub const CMETHODS: [coap::Method; 7] = [coap::Method::Get, coap::Method::Put, coap::Method::Post, coap::Method::Delete, coap::Method::Patch, coap::Method::Fetch, coap::Method::Ipatch];
pub const HMETHODS: [http::Method; 5] = [http::Method::Get, http::Method::Put, http::Method::Post, http::Method::Delete, http::Method::Patch];

fn block(b: coap::BlockSize) -> u16 {
    [16, 32, 64, 128, 256, 512, 1024][BLOCKS.iter().position(|x| *x == b).unwrap()]
}
fn coap_method(m: coap::Method) -> &'static str {
    ["GET", "PUT", "POST", "DELETE", "PATCH", "FETCH", "iPATCH"][CMETHODS.iter().position(|x| *x == m).unwrap()]
}
fn http_method(m: http::Method) -> &'static str {
    ["GET", "PUT", "POST", "DELETE", "PATCH"][HMETHODS.iter().position(|x| *x == m).unwrap()]
}

use FormOperation::*;
pub const OPS: [(FormOperation, &str); 18] = [
    (ReadProperty, "readproperty"),
    (WriteProperty, "writeproperty"),
    (ObserveProperty, "observeproperty"),
    (UnobserveProperty, "unobserveproperty"),
    (InvokeAction, "invokeaction"),
    (QueryAction, "queryaction"),
    (CancelAction, "cancelaction"),
    (SubscribeEvent, "subscribeevent"),
    (UnsubscribeEvent, "unsubscribeevent"),
    (ReadAllProperties, "readallproperties"),
    (WriteAllProperties, "writeallproperties"),
    (ReadMultipleProperties, "readmultipleproperties"),
    (WriteMultipleProperties, "writemultipleproperties"),
    (ObserveAllProperties, "observeallproperties"),
    (UnobserveAllProperties, "unobserveallproperties"),
    (SubscribeAllEvents, "subscribeallevents"),
    (UnsubscribeAllEvents, "unsubscribeallevents"),
    (QueryAllActions, "queryallactions"),
];

pub fn op_name(o: FormOperation) -> &'static str {
    OPS.iter().find(|(x, _)| *x == o).unwrap().1
}

// ------------------------------------------------------------------ names written twice
pub struct Dup;

impl<'de> DeserializeSeed<'de> for Dup {
    type Value = Option<String>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<String>, D::Error> {
        d.deserialize_any(self)
    }
}

impl<'de> Visitor<'de> for Dup {
    type Value = Option<String>;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, _: bool) -> Result<Self::Value, E> {
        Ok(None)
    }
    fn visit_i64<E>(self, _: i64) -> Result<Self::Value, E> {
        Ok(None)
    }
    fn visit_u64<E>(self, _: u64) -> Result<Self::Value, E> {
        Ok(None)
    }
    fn visit_f64<E>(self, _: f64) -> Result<Self::Value, E> {
        Ok(None)
    }
    fn visit_str<E>(self, _: &str) -> Result<Self::Value, E> {
        Ok(None)
    }
    fn visit_unit<E>(self) -> Result<Self::Value, E> {
        Ok(None)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let mut r = None;
        while let Some(x) = a.next_element_seed(Dup)? {
            r = r.or(x);
        }
        Ok(r)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let mut seen = HashSet::new();
        let mut r = None;
        while let Some(k) = a.next_key::<String>()? {
            let x = a.next_value_seed(Dup)?;
            r = r.or(x);
            if !seen.insert(k.clone()) {
                r = r.or(Some(k));
            }
        }
        Ok(r)
    }
}

pub fn duplicate(text: &str) -> Option<String> {
    let mut d = serde_json::Deserializer::from_str(text);
    Dup.deserialize(&mut d).ok().flatten()
}

/// First difference between two JSON values.
pub fn diff(w: &str, a: &Value, b: &Value) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return Some(format!("{}/{} is not written (expected {})", w, k, v)),
                    Some(u) => {
                        if let Some(d) = diff(&format!("{}/{}", w, k), v, u) {
                            return Some(d);
                        }
                    }
                }
            }
            y.iter().find(|(k, _)| !x.contains_key(*k)).map(|(k, v)| format!("{}/{} is written although absent: {}", w, k, v))
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (p, q))| diff(&format!("{}[{}]", w, i), p, q)),
        _ if a == b => None,
        _ => Some(format!("{}: expected {}, got {}", w, a, b)),
    }
}
