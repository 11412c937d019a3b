//! Plans: sequences of builder calls, how to make them on the real builders, what they must give.
use crate::ext::*;
use crate::rng::Rng;
use oxilangtag::LanguageTag;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::num::NonZeroU64;
use time::OffsetDateTime;
use wot_td::{builder::*, extend::*, hlist::*, thing::*};

pub type Schema = DataSchema<DS, AS, OS>;
pub type USchema = UncheckedDataSchema<DS, AS, OS>;
pub type SB0 = DataSchemaBuilder<Nil, AS, OS, ToExtend>;
pub type Tags = Vec<(String, String)>;

#[derive(Clone, Debug)]
pub enum Hr {
    Attype(String),
    Title(String),
    Titles(Tags),
    Description(String),
    Descriptions(Tags),
}
#[derive(Clone, Debug)]
pub enum Ds {
    Unit(String),
    Format(String),
    Default(Value),
    Hr(Hr),
}
#[derive(Clone, Debug)]
pub enum Num<T, M> {
    Min(T),
    ExMin(T),
    Max(T),
    ExMax(T),
    Mult(M),
}
#[derive(Clone, Debug)]
pub enum Str {
    Min(u32),
    Max(u32),
    Pattern(String),
    Encoding(String),
    Media(String),
}
#[derive(Clone, Debug)]
pub enum Kind {
    Bool,
    Null,
    Number(Vec<Num<f64, f64>>),
    Integer(Vec<Num<i64, NonZeroU64>>),
    Str(Vec<Str>),
    Tuple(Vec<SPlan>, Option<u64>),
    Vector(Vec<SPlan>, Option<u32>, Option<u32>, Option<u64>),
    Object(Vec<(String, bool, SPlan)>, Option<u64>),
    Const(Value),
    Enum(Vec<Value>),
    OneOf(Vec<SPlan>),
}
#[derive(Clone, Debug)]
pub struct SPlan {
    pub ext: Option<u64>,
    pub pre: Vec<Ds>,
    pub kind: Kind,
    pub post: Vec<Ds>,
    pub rw: u8,
}
#[derive(Clone, Debug)]
pub enum FCall {
    Op(FormOperation),
    ContentType(String),
    ContentCoding(String),
    Subprotocol(String),
    Security(String),
    Scope(String),
    Response(String, Option<u64>),
    Additional(bool, Option<String>, Option<String>),
}
#[derive(Clone, Debug)]
pub struct FPlan {
    pub a: Vec<FCall>,
    pub href: String,
    pub b: Vec<FCall>,
    pub ext: Option<u64>,
    pub c: Vec<FCall>,
}
#[derive(Clone, Debug)]
pub enum ICall {
    Hr(Hr),
    Form(FPlan),
    Uri(String, SPlan),
}
#[derive(Clone, Debug)]
pub struct PPlan {
    pub inter: Option<u64>,
    pub ext: Option<u64>,
    pub a: Vec<ICall>,
    pub b: Vec<ICall>,
    pub observable: Vec<bool>,
    pub schema: SPlan,
    pub c: Vec<ICall>,
}
#[derive(Clone, Debug)]
pub enum ACall {
    I(ICall),
    Input(SPlan),
    Output(SPlan),
    Safe,
    Idempotent,
    Synchronous(bool),
}
#[derive(Clone, Debug)]
pub struct APlan {
    pub inter: Option<u64>,
    pub ext: Option<u64>,
    pub a: Vec<ACall>,
    pub b: Vec<ACall>,
}
#[derive(Clone, Debug)]
pub enum ECall {
    I(ICall),
    Subscription(SPlan),
    Data(SPlan),
    Cancellation(SPlan),
    Response(SPlan),
}
#[derive(Clone, Debug)]
pub struct EPlan {
    pub inter: Option<u64>,
    pub ext: Option<u64>,
    pub a: Vec<ECall>,
    pub b: Vec<ECall>,
}
#[derive(Clone, Debug)]
pub enum LCall {
    Ty(String),
    Rel(String),
    Anchor(String),
    Sizes(String),
    Lang(String),
}
#[derive(Clone, Debug)]
pub struct LPlan {
    pub a: Vec<LCall>,
    pub href: String,
    pub b: Vec<LCall>,
}
#[derive(Clone, Debug)]
pub enum SCall {
    Attype(String),
    Description(String),
    Descriptions(Tags),
    Proxy(String),
    Key(String),
    Required,
}
#[derive(Clone, Debug)]
pub enum NL {
    Name(String),
    Location(SecurityAuthenticationLocation),
}
#[derive(Clone, Debug)]
pub enum BearerCall {
    Nl(NL),
    Authorization(String),
    Alg(String),
    Format(String),
}
#[derive(Clone, Debug)]
pub enum OAuthCall {
    Authorization(String),
    Token(String),
    Refresh(String),
    Scope(String),
}
#[derive(Clone, Debug)]
pub enum SKind {
    NoSec,
    Auto,
    Combo(bool, Vec<String>, Vec<String>, Option<String>),
    Basic(Vec<NL>),
    Digest(Vec<NL>, Option<QualityOfProtection>),
    Bearer(Vec<BearerCall>),
    Psk,
    OAuth2(String, Vec<OAuthCall>),
    ApiKey(Vec<NL>),
    Custom(String, Option<Value>),
}
#[derive(Clone, Debug)]
pub struct SecPlan {
    pub a: Vec<SCall>,
    pub kind: SKind,
    pub b: Vec<SCall>,
}
#[derive(Clone, Debug)]
pub enum TCall {
    Id(String),
    Description(String),
    Version(String, Option<String>),
    Created(i64),
    Modified(i64),
    Support(String),
    Base(String),
    Context(String),
    ContextMap(Tags),
    Attype(String),
    Titles(Tags),
    Descriptions(Tags),
    Link(String),
    LinkWith(LPlan),
    Security(SecPlan),
    Profile(String),
    // only once extension is finished
    Form(FPlan),
    Uri(String, SPlan),
    Property(String, PPlan),
    Action(String, APlan),
    Event(String, EPlan),
    Schema(String, SPlan),
}
#[derive(Clone, Debug)]
pub struct Plan {
    pub title: String,
    pub a: Vec<TCall>,
    pub ext: Option<u64>,
    pub b: Vec<TCall>,
    pub c: Vec<TCall>,
}

// ------------------------------------------------------------------ making the calls

fn ml<'a>(m: &'a mut MultiLanguageBuilder<String>, t: &Tags) -> &'a mut MultiLanguageBuilder<String> {
    for (k, v) in t {
        m.add(k.as_str(), v.as_str());
    }
    m
}

fn hr<B: BuildableHumanReadableInfo>(b: B, h: &Hr) -> B {
    match h {
        Hr::Attype(s) => b.attype(s.as_str()),
        Hr::Title(s) => b.title(s.as_str()),
        Hr::Titles(t) => b.titles(|m| ml(m, t)),
        Hr::Description(s) => b.description(s.as_str()),
        Hr::Descriptions(t) => b.descriptions(|m| ml(m, t)),
    }
}

fn ds<B: BuildableDataSchema<DS, AS, OS, Extended> + BuildableHumanReadableInfo>(mut b: B, c: &[Ds]) -> B {
    for c in c {
        b = match c {
            Ds::Unit(s) => b.unit(s.as_str()),
            Ds::Format(s) => b.format(s.as_str()),
            Ds::Default(v) => b.default_value(v.clone()),
            Ds::Hr(h) => hr(b, h),
        };
    }
    b
}

macro_rules! rw {
    ($b:expr, $p:expr, $fin:expr) => {{
        let b = ds($b, &$p.post);
        match $p.rw {
            1 => $fin(b.read_only()),
            2 => $fin(b.write_only()),
            _ => $fin(b),
        }
    }};
}

macro_rules! strings {
    ($b:expr, $cs:expr, $p:expr, $fin:expr) => {{
        let mut b = $b.string();
        for c in $cs {
            b = match c {
                Str::Min(x) => b.min_length(*x),
                Str::Max(x) => b.max_length(*x),
                Str::Pattern(x) => b.pattern(x.as_str()),
                Str::Encoding(x) => b.content_encoding(x.as_str()),
                Str::Media(x) => b.content_media_type(x.as_str()),
            };
        }
        rw!(b, $p, $fin)
    }};
}

/// The builder of a property has no calls for the limits of strings.
macro_rules! no_strings {
    ($b:expr, $cs:expr, $p:expr, $fin:expr) => {{
        let _ = $cs;
        rw!($b.string(), $p, $fin)
    }};
}

/// Chooses the kind of a schema builder, makes the remaining calls, and converts it.
macro_rules! specialise {
    ($b:expr, $p:expr, $fin:expr, $strings:ident) => {{
        let p: &SPlan = $p;
        let b = ds($b, &p.pre);
        match &p.kind {
            Kind::Bool => rw!(b.bool(), p, $fin),
            Kind::Null => rw!(b.null(), p, $fin),
            Kind::Number(cs) => {
                let mut b = b.number();
                for c in cs {
                    b = match c {
                        Num::Min(x) => b.minimum(*x),
                        Num::ExMin(x) => b.exclusive_minimum(*x),
                        Num::Max(x) => b.maximum(*x),
                        Num::ExMax(x) => b.exclusive_maximum(*x),
                        Num::Mult(x) => b.multiple_of(*x),
                    };
                }
                rw!(b, p, $fin)
            }
            Kind::Integer(cs) => {
                let mut b = b.integer();
                for c in cs {
                    b = match c {
                        Num::Min(x) => b.minimum(*x),
                        Num::ExMin(x) => b.exclusive_minimum(*x),
                        Num::Max(x) => b.maximum(*x),
                        Num::ExMax(x) => b.exclusive_maximum(*x),
                        Num::Mult(x) => b.multiple_of(*x),
                    };
                }
                rw!(b, p, $fin)
            }
            Kind::Str(cs) => {
                $strings!(b, cs, p, $fin)
            }
            Kind::Tuple(items, x) => {
                let mut b = b.tuple_ext(|_| crate::ext::c(XArr { v: *x }));
                for i in items {
                    b = b.append(|s| schema(i, s));
                }
                rw!(b, p, $fin)
            }
            Kind::Vector(items, min, max, x) => {
                let mut b = b.vec_ext(|_| crate::ext::c(XArr { v: *x }));
                if let Some(m) = max {
                    b = b.max_items(*m);
                }
                for i in items {
                    b = b.set_item(|s| schema(i, s));
                }
                if let Some(m) = min {
                    b = b.min_items(*m);
                }
                rw!(b, p, $fin)
            }
            Kind::Object(ps, x) => {
                let mut b = b.object_ext(|_| crate::ext::c(XObj { v: *x }));
                for (n, req, i) in ps {
                    b = b.property(n.as_str(), *req, |s| schema(i, s));
                }
                rw!(b, p, $fin)
            }
            Kind::Const(v) => $fin(ds(b.constant(v.clone()), &p.post)),
            Kind::Enum(vs) => {
                let mut b = b.enumeration(vs[0].clone());
                for v in &vs[1..] {
                    b = b.enumeration(v.clone());
                }
                rw!(b, p, $fin)
            }
            Kind::OneOf(vs) => {
                let mut b = b.one_of(|s| schema(&vs[0], s));
                for v in &vs[1..] {
                    b = b.one_of(|s| schema(v, s));
                }
                $fin(ds(b, &p.post))
            }
        }
    }};
}

pub fn schema(p: &SPlan, b: SB0) -> USchema {
    let b = b.ext(XData { v: p.ext }).finish_extend();
    fn fin<T: Into<USchema>>(t: T) -> USchema {
        t.into()
    }
    specialise!(b, p, fin, strings)
}

/// The schemas described somewhere in the plan, without those inside others.
pub fn schemas(p: &Plan) -> Vec<&SPlan> {
    p.a.iter()
        .chain(&p.b)
        .chain(&p.c)
        .filter_map(|c| match c {
            TCall::Uri(_, s) | TCall::Schema(_, s) => Some(s),
            _ => None,
        })
        .collect()
}

/// A schema made from its builder directly: what it should be, or why it should not be accepted.
pub fn direct(p: &SPlan, prop: &str) -> Option<String> {
    fn fin<T: TryInto<Schema, Error = Error>>(t: T) -> Result<Schema, Error> {
        t.try_into()
    }
    let mut got = None;
    let _ = Thing::<Nil>::builder("").ext(E { v: None }).finish_extend().schema_definition("x", |b| {
        let b = b.ext(XData { v: p.ext }).finish_extend();
        got = Some(specialise!(b, p, fin, strings));
        DataSchemaBuilder::<DS, AS, OS, Extended>::default().bool()
    });
    let mut r = Rules { broken: vec![], sec: HashSet::new(), schemas: HashSet::new() };
    r.schema(p, true);
    let bad: Vec<_> = r.broken.into_iter().filter(|(q, _)| *q == "P07").map(|(_, e)| e).collect();
    let why = match got.unwrap() {
        Ok(_) if !bad.is_empty() => ("P07", format!("a schema with {:?} is accepted", bad)),
        Err(e) if !bad.contains(&e) => ("P07", format!("a schema is refused with {:?} although only {:?} is wrong", e, bad)),
        // (what is not a number differs from itself)
        Ok(s) if x_schema(p) == x_schema(p) && s != x_schema(p) => ("P09", format!("a schema made from its builder\n got {:?}\nwant {:?}", s, x_schema(p))),
        _ => return None,
    };
    (why.0 == prop).then_some(why.1)
}

fn fcalls<H, O>(mut b: FormBuilder<X, H, O>, cs: &[FCall]) -> FormBuilder<X, H, O> {
    for c in cs {
        b = match c {
            FCall::Op(o) => b.op(*o),
            FCall::ContentType(s) => b.content_type(s.as_str()),
            FCall::ContentCoding(s) => b.content_coding(s.as_str()),
            FCall::Subprotocol(s) => b.subprotocol(s.as_str()),
            FCall::Security(s) => b.security(s.as_str()),
            FCall::Scope(s) => b.scope(s.as_str()),
            FCall::Response(s, x) => b.response(s.as_str(), |_| crate::ext::c(XResp { v: *x })),
            FCall::Additional(ok, ct, sc) => b.additional_response(|r| {
                if let Some(s) = sc {
                    r.schema(s.as_str());
                }
                if let Some(s) = ct {
                    r.content_type(s.as_str());
                }
                if *ok {
                    r.success();
                }
                r
            }),
        };
    }
    b
}

fn form(p: &FPlan, b: FormBuilder<X, (), Nil>) -> FormBuilder<X, String, Cons<XForm, Nil>> {
    let b = fcalls(b, &p.a).href(p.href.as_str());
    let b = fcalls(b, &p.b).ext(XForm { v: p.ext });
    fcalls(b, &p.c)
}

fn icall<B: BuildableInteractionAffordance<X> + BuildableHumanReadableInfo>(b: B, c: &ICall) -> B {
    match c {
        ICall::Hr(h) => hr(b, h),
        ICall::Form(f) => b.form(|x| form(f, x)),
        ICall::Uri(n, s) => b.uri_variable(n.as_str(), |x| schema(s, x)),
    }
}

fn icalls<B: BuildableInteractionAffordance<X> + BuildableHumanReadableInfo>(mut b: B, cs: &[ICall]) -> B {
    for c in cs {
        b = icall(b, c);
    }
    b
}

type Usable = PropertyAffordanceBuilder<X, PartialDataSchema<DS, AS, OS>, Cons<XInter, Nil>, Cons<XProp, Nil>>;

fn property(p: &PPlan, b: PropertyAffordanceBuilder<X, PartialDataSchemaBuilder<Nil, AS, OS, ToExtend>, Nil, Nil>) -> Usable {
    let b = icalls(b, &p.a).ext_interaction(XInter { v: p.inter }).ext(XProp { v: p.ext });
    let mut b = icalls(b.ext_data_schema(XData { v: p.schema.ext }).finish_extend_data_schema(), &p.b);
    for o in &p.observable {
        b = b.observable(*o);
    }
    fn fin<T: IntoUsable<Usable>>(t: T) -> Usable {
        t.into_usable()
    }
    icalls(specialise!(b, &p.schema, fin, no_strings), &p.c)
}

fn acalls<I, O>(mut b: ActionAffordanceBuilder<X, I, O>, cs: &[ACall]) -> ActionAffordanceBuilder<X, I, O> {
    for c in cs {
        b = match c {
            ACall::I(c) => icall(b, c),
            ACall::Input(s) => b.input(|x| schema(s, x)),
            ACall::Output(s) => b.output(|x| schema(s, x)),
            ACall::Safe => b.safe(),
            ACall::Idempotent => b.idempotent(),
            ACall::Synchronous(v) => b.synchronous(*v),
        };
    }
    b
}

fn ecalls<I, O>(mut b: EventAffordanceBuilder<X, I, O>, cs: &[ECall]) -> EventAffordanceBuilder<X, I, O> {
    for c in cs {
        b = match c {
            ECall::I(c) => icall(b, c),
            ECall::Subscription(s) => b.subscription(|x| schema(s, x)),
            ECall::Data(s) => b.data(|x| schema(s, x)),
            ECall::Cancellation(s) => b.cancellation(|x| schema(s, x)),
            ECall::Response(s) => b.data_response(|x| schema(s, x)),
        };
    }
    b
}

fn lcalls<H>(mut b: LinkBuilder<H>, cs: &[LCall]) -> LinkBuilder<H> {
    for c in cs {
        b = match c {
            LCall::Ty(s) => b.ty(s.as_str()),
            LCall::Rel(s) => b.rel(s.as_str()),
            LCall::Anchor(s) => b.anchor(s.as_str()),
            LCall::Sizes(s) => b.sizes(s.as_str()),
            LCall::Lang(s) => b.hreflang(s.as_str()),
        };
    }
    b
}

fn scalls<T>(mut b: SecuritySchemeBuilder<T>, cs: &[SCall]) -> SecuritySchemeBuilder<T> {
    for c in cs {
        b = match c {
            SCall::Attype(s) => b.attype(s.as_str()),
            SCall::Description(s) => b.description(s.as_str()),
            SCall::Descriptions(t) => b.descriptions(|m| ml(m, t)),
            SCall::Proxy(s) => b.proxy(s.as_str()),
            SCall::Key(s) => b.with_key(s.as_str()),
            SCall::Required => b.required(),
        };
    }
    b
}

fn nl<T: HasNameLocation>(b: SecuritySchemeBuilder<T>, c: &NL) -> SecuritySchemeBuilder<T> {
    match c {
        NL::Name(s) => b.name(s.as_str()),
        NL::Location(l) => b.location(l.clone()),
    }
}

fn security<O: ExtendableThing, S>(t: ThingBuilder<O, S>, p: &SecPlan) -> ThingBuilder<O, S> {
    macro_rules! go {
        ($f:expr) => {
            t.security(|b| {
                let b = scalls(b, &p.a);
                scalls($f(b), &p.b)
            })
        };
    }
    match &p.kind {
        SKind::NoSec => go!(|b: SecuritySchemeBuilder<()>| b.no_sec()),
        SKind::Auto => go!(|b: SecuritySchemeBuilder<()>| b.auto()),
        SKind::Combo(all, first, then, name) => {
            if *all {
                go!(|b: SecuritySchemeBuilder<()>| {
                    let mut b = b.combo().all_of(first.iter().cloned());
                    for s in then {
                        b = b.push(s.as_str());
                    }
                    match name {
                        Some(n) => b.name(n.as_str()),
                        None => b,
                    }
                })
            } else {
                go!(|b: SecuritySchemeBuilder<()>| {
                    let b = b.combo();
                    let b = match name {
                        Some(n) => b.name(n.as_str()),
                        None => b,
                    };
                    b.one_of(first.iter().cloned()).extend(then.iter().cloned())
                })
            }
        }
        SKind::Basic(cs) => go!(|b: SecuritySchemeBuilder<()>| cs.iter().fold(b.basic(), nl)),
        SKind::Digest(cs, q) => go!(|b: SecuritySchemeBuilder<()>| {
            let b = cs.iter().fold(b.digest(), nl);
            match q {
                Some(q) => b.qop(q.clone()),
                None => b,
            }
        }),
        SKind::Bearer(cs) => go!(|b: SecuritySchemeBuilder<()>| cs.iter().fold(b.bearer(), |b, c| match c {
            BearerCall::Nl(c) => nl(b, c),
            BearerCall::Authorization(s) => b.authorization(s.as_str()),
            BearerCall::Alg(s) => b.alg(s.clone()),
            BearerCall::Format(s) => b.format(s.clone()),
        })),
        SKind::Psk => go!(|b: SecuritySchemeBuilder<()>| b.psk()),
        SKind::OAuth2(f, cs) => go!(|b: SecuritySchemeBuilder<()>| cs.iter().fold(b.oauth2(f.as_str()), |b, c| match c {
            OAuthCall::Authorization(s) => b.authorization(s.as_str()),
            OAuthCall::Token(s) => b.token(s.as_str()),
            OAuthCall::Refresh(s) => b.refresh(s.as_str()),
            OAuthCall::Scope(s) => b.scope(s.as_str()),
        })),
        SKind::ApiKey(cs) => go!(|b: SecuritySchemeBuilder<()>| cs.iter().fold(b.apikey(), nl)),
        SKind::Custom(s, d) => go!(|b: SecuritySchemeBuilder<()>| {
            let b = b.custom(s.as_str());
            match d {
                Some(d) => b.data(d.clone()),
                None => b,
            }
        }),
    }
}

pub fn date(t: i64) -> OffsetDateTime {
    // also times that are no whole seconds
    let nanos = [0, 0, 1, 250_000_000, 999_999_999][(t.unsigned_abs() % 5) as usize];
    OffsetDateTime::from_unix_timestamp(t).unwrap().replace_nanosecond(nanos).unwrap()
}

pub fn version(i: &str, m: &Option<String>) -> VersionInfo {
    let mut v = VersionInfo::from(i);
    v.model = m.clone();
    v
}

fn tcalls<O: ExtendableThing, S>(mut b: ThingBuilder<O, S>, cs: &[TCall]) -> ThingBuilder<O, S> {
    for c in cs {
        b = match c {
            TCall::Id(s) => b.id(s.as_str()),
            TCall::Description(s) => b.description(s.as_str()),
            TCall::Version(i, m) => b.version(version(i, m)),
            TCall::Created(t) => b.created(date(*t)),
            TCall::Modified(t) => b.modified(date(*t)),
            TCall::Support(s) => b.support(s.as_str()),
            TCall::Base(s) => b.base(s.as_str()),
            TCall::Context(s) => b.context(s.as_str()),
            TCall::ContextMap(m) => b.context_map(|x| {
                for (k, v) in m {
                    x.context(k.as_str(), v.as_str());
                }
                x
            }),
            TCall::Attype(s) => b.attype(s.as_str()),
            TCall::Titles(t) => b.titles(|m| ml(m, t)),
            TCall::Descriptions(t) => b.descriptions(|m| ml(m, t)),
            TCall::Link(s) => b.link(s.as_str()),
            TCall::LinkWith(l) => b.link_with(|x| lcalls(lcalls(x, &l.a).href(l.href.as_str()), &l.b)),
            TCall::Security(s) => security(b, s),
            TCall::Profile(s) => b.profile(s.as_str()),
            _ => unreachable!(),
        };
    }
    b
}

pub fn build(p: &Plan) -> Result<Thing<X>, Error> {
    let b = ThingBuilder::<X, ToExtend>::new_empty(p.title.as_str());
    let b = tcalls(b, &p.a).ext(E { v: p.ext });
    let mut b = tcalls(b, &p.b).finish_extend();
    for c in &p.c {
        b = match c {
            TCall::Form(f) => b.form(|x| form(f, x)),
            TCall::Uri(n, s) => b.uri_variable(n.as_str(), |x| schema(s, x)),
            TCall::Schema(n, s) => b.schema_definition(n.as_str(), |x| schema(s, x)),
            TCall::Property(n, p) => b.property(n.as_str(), |x| property(p, x)),
            TCall::Action(n, p) => b.action(n.as_str(), |x| acalls(acalls(x, &p.a).ext_interaction(XInter { v: p.inter }).ext(XAct { v: p.ext }), &p.b)),
            TCall::Event(n, p) => b.event(n.as_str(), |x| ecalls(ecalls(x, &p.a).ext(XEvt { v: p.ext }).ext_interaction(XInter { v: p.inter }), &p.b)),
            c => tcalls(b, std::slice::from_ref(c)),
        };
    }
    b.build()
}

// ------------------------------------------------------------------ what must come out

pub type Langs = HashMap<LanguageTag<String>, String>;

fn langs(t: &Tags) -> Langs {
    let mut raw = HashMap::new();
    for (k, v) in t {
        raw.insert(k.clone(), v.clone());
    }
    raw.into_iter().filter_map(|(k, v)| k.parse().ok().map(|k| (k, v))).collect()
}

#[derive(Default)]
struct HrX {
    attype: Option<Vec<String>>,
    title: Option<String>,
    titles: Option<Langs>,
    description: Option<String>,
    descriptions: Option<Langs>,
}
impl HrX {
    fn add(&mut self, h: &Hr) {
        match h {
            Hr::Attype(s) => self.attype.get_or_insert_with(Vec::new).push(s.clone()),
            Hr::Title(s) => self.title = Some(s.clone()),
            Hr::Titles(t) => self.titles = Some(langs(t)),
            Hr::Description(s) => self.description = Some(s.clone()),
            Hr::Descriptions(t) => self.descriptions = Some(langs(t)),
        }
    }
}

pub fn x_schema(p: &SPlan) -> Schema {
    let mut h = HrX::default();
    let (mut unit, mut format, mut default) = (None, None, None);
    for c in p.pre.iter().chain(&p.post) {
        match c {
            Ds::Unit(s) => unit = Some(s.clone()),
            Ds::Format(s) => format = Some(s.clone()),
            Ds::Default(v) => default = Some(v.clone()),
            Ds::Hr(x) => h.add(x),
        }
    }
    let (mut constant, mut enumeration, mut one_of, mut read_only) = (None, None, None, p.rw == 1);
    let mut write_only = p.rw == 2;
    let subtype = match &p.kind {
        Kind::Bool => Some(DataSchemaSubtype::Boolean),
        Kind::Null => Some(DataSchemaSubtype::Null),
        Kind::Number(cs) => {
            let mut n = NumberSchema::default();
            for c in cs {
                match c {
                    Num::Min(x) => n.minimum = Some(Minimum::Inclusive(*x)),
                    Num::ExMin(x) => n.minimum = Some(Minimum::Exclusive(*x)),
                    Num::Max(x) => n.maximum = Some(Maximum::Inclusive(*x)),
                    Num::ExMax(x) => n.maximum = Some(Maximum::Exclusive(*x)),
                    Num::Mult(x) => n.multiple_of = Some(*x),
                }
            }
            Some(DataSchemaSubtype::Number(n))
        }
        Kind::Integer(cs) => {
            let mut n = IntegerSchema::default();
            for c in cs {
                match c {
                    Num::Min(x) => n.minimum = Some(Minimum::Inclusive(*x)),
                    Num::ExMin(x) => n.minimum = Some(Minimum::Exclusive(*x)),
                    Num::Max(x) => n.maximum = Some(Maximum::Inclusive(*x)),
                    Num::ExMax(x) => n.maximum = Some(Maximum::Exclusive(*x)),
                    Num::Mult(x) => n.multiple_of = Some(*x),
                }
            }
            Some(DataSchemaSubtype::Integer(n))
        }
        Kind::Str(cs) => {
            let mut n = StringSchema::default();
            for c in cs {
                match c {
                    Str::Min(x) => n.min_length = Some(*x),
                    Str::Max(x) => n.max_length = Some(*x),
                    Str::Pattern(x) => n.pattern = Some(x.clone()),
                    Str::Encoding(x) => n.content_encoding = Some(x.clone()),
                    Str::Media(x) => n.content_media_type = Some(x.clone()),
                }
            }
            Some(DataSchemaSubtype::String(n))
        }
        Kind::Tuple(items, x) => Some(DataSchemaSubtype::Array(ArraySchema {
            items: Some(BoxedElemOrVec::Vec(items.iter().map(x_schema).collect())),
            min_items: None,
            max_items: None,
            other: c(XArr { v: *x }),
        })),
        Kind::Vector(items, min, max, x) => Some(DataSchemaSubtype::Array(ArraySchema {
            items: items.last().map(|i| BoxedElemOrVec::Elem(Box::new(x_schema(i)))),
            min_items: *min,
            max_items: *max,
            other: c(XArr { v: *x }),
        })),
        Kind::Object(ps, x) => {
            let mut m = HashMap::new();
            let mut req = vec![];
            for (n, r, s) in ps {
                m.insert(n.clone(), x_schema(s));
                if *r {
                    req.push(n.clone());
                }
            }
            Some(DataSchemaSubtype::Object(ObjectSchema {
                properties: (!m.is_empty()).then_some(m),
                required: (!req.is_empty()).then_some(req),
                other: c(XObj { v: *x }),
            }))
        }
        Kind::Const(v) => {
            constant = Some(v.clone());
            read_only = true;
            write_only = false;
            None
        }
        Kind::Enum(vs) => {
            enumeration = Some(vs.clone());
            None
        }
        Kind::OneOf(vs) => {
            one_of = Some(vs.iter().map(x_schema).collect());
            read_only = false;
            write_only = false;
            None
        }
    };
    DataSchema {
        attype: h.attype,
        title: h.title,
        titles: h.titles,
        description: h.description,
        descriptions: h.descriptions,
        constant,
        default,
        unit,
        one_of,
        enumeration,
        read_only,
        write_only,
        format,
        subtype,
        other: c(XData { v: p.ext }),
    }
}

fn x_form(p: &FPlan) -> Form<X> {
    let mut f = Form {
        op: DefaultedFormOperations::Default,
        href: p.href.clone(),
        content_type: None,
        content_coding: None,
        subprotocol: None,
        security: None,
        scopes: None,
        response: None,
        additional_responses: None,
        other: c(XForm { v: p.ext }),
    };
    for x in p.a.iter().chain(&p.b).chain(&p.c) {
        match x {
            FCall::Op(o) => match &mut f.op {
                DefaultedFormOperations::Default => f.op = DefaultedFormOperations::Custom(vec![*o]),
                DefaultedFormOperations::Custom(v) => v.push(*o),
            },
            FCall::ContentType(s) => f.content_type = Some(s.clone()),
            FCall::ContentCoding(s) => f.content_coding = Some(s.clone()),
            FCall::Subprotocol(s) => f.subprotocol = Some(s.clone()),
            FCall::Security(s) => f.security.get_or_insert_with(Vec::new).push(s.clone()),
            FCall::Scope(s) => f.scopes.get_or_insert_with(Vec::new).push(s.clone()),
            FCall::Response(s, x) => f.response = Some(ExpectedResponse { content_type: s.clone(), other: c(XResp { v: *x }) }),
            FCall::Additional(ok, ct, sc) => f.additional_responses.get_or_insert_with(Vec::new).push(AdditionalExpectedResponse { success: *ok, content_type: ct.clone(), schema: sc.clone() }),
        }
    }
    f
}

fn x_inter<'a>(cs: impl Iterator<Item = &'a ICall>, ext: Option<u64>) -> (InteractionAffordance<X>, HrX) {
    let mut h = HrX::default();
    let mut forms = vec![];
    let mut uris = HashMap::new();
    for x in cs {
        match x {
            ICall::Hr(x) => h.add(x),
            ICall::Form(f) => forms.push(x_form(f)),
            ICall::Uri(n, s) => {
                uris.insert(n.clone(), x_schema(s));
            }
        }
    }
    (
        InteractionAffordance {
            attype: h.attype.clone(),
            title: h.title.clone(),
            titles: h.titles.clone(),
            description: h.description.clone(),
            descriptions: h.descriptions.clone(),
            forms,
            uri_variables: (!uris.is_empty()).then_some(uris),
            other: c(XInter { v: ext }),
        },
        h,
    )
}

fn x_property(p: &PPlan) -> PropertyAffordance<X> {
    // the human readable part of the schema of a property is the one of its affordance, and the
    // calls made through the schema reach the same place
    let mut calls: Vec<ICall> = p.a.iter().chain(&p.b).cloned().collect();
    for d in p.schema.pre.iter().chain(&p.schema.post) {
        if let Ds::Hr(h) = d {
            calls.push(ICall::Hr(h.clone()));
        }
    }
    calls.extend(p.c.iter().cloned());
    let (interaction, h) = x_inter(calls.iter(), p.inter);
    let mut data_schema = x_schema(&p.schema);
    data_schema.attype = h.attype;
    data_schema.title = h.title;
    data_schema.titles = h.titles;
    data_schema.description = h.description;
    data_schema.descriptions = h.descriptions;
    PropertyAffordance { interaction, data_schema, observable: p.observable.last().copied(), other: c(XProp { v: p.ext }) }
}

fn x_action(p: &APlan) -> ActionAffordance<X> {
    let all: Vec<&ACall> = p.a.iter().chain(&p.b).collect();
    let (interaction, _) = x_inter(all.iter().filter_map(|x| if let ACall::I(i) = x { Some(i) } else { None }), p.inter);
    let mut a = ActionAffordance { interaction, input: None, output: None, safe: false, idempotent: false, synchronous: None, other: c(XAct { v: p.ext }) };
    for x in all {
        match x {
            ACall::I(_) => {}
            ACall::Input(s) => a.input = Some(x_schema(s)),
            ACall::Output(s) => a.output = Some(x_schema(s)),
            ACall::Safe => a.safe = true,
            ACall::Idempotent => a.idempotent = true,
            ACall::Synchronous(v) => a.synchronous = Some(*v),
        }
    }
    a
}

fn x_event(p: &EPlan) -> EventAffordance<X> {
    let all: Vec<&ECall> = p.a.iter().chain(&p.b).collect();
    let (interaction, _) = x_inter(all.iter().filter_map(|x| if let ECall::I(i) = x { Some(i) } else { None }), p.inter);
    let mut a = EventAffordance { interaction, subscription: None, data: None, data_response: None, cancellation: None, other: c(XEvt { v: p.ext }) };
    for x in all {
        match x {
            ECall::I(_) => {}
            ECall::Subscription(s) => a.subscription = Some(x_schema(s)),
            ECall::Data(s) => a.data = Some(x_schema(s)),
            ECall::Cancellation(s) => a.cancellation = Some(x_schema(s)),
            ECall::Response(s) => a.data_response = Some(x_schema(s)),
        }
    }
    a
}

fn x_link(l: &LPlan) -> Link {
    let mut x = Link { href: l.href.clone(), ..Default::default() };
    for k in l.a.iter().chain(&l.b) {
        match k {
            LCall::Ty(s) => x.ty = Some(s.clone()),
            LCall::Rel(s) => x.rel = Some(s.clone()),
            LCall::Anchor(s) => x.anchor = Some(s.clone()),
            LCall::Sizes(s) => x.sizes = Some(s.clone()),
            LCall::Lang(s) => {
                if let Ok(t) = s.parse() {
                    x.hreflang.get_or_insert_with(Vec::new).push(t)
                }
            }
        }
    }
    x
}

fn nls(cs: &[NL], location: SecurityAuthenticationLocation) -> (SecurityAuthenticationLocation, Option<String>) {
    let (mut l, mut n) = (location, None);
    for x in cs {
        match x {
            NL::Name(s) => n = Some(s.clone()),
            NL::Location(x) => l = x.clone(),
        }
    }
    (l, n)
}

/// (name, required, scheme)
fn x_security(p: &SecPlan) -> (String, bool, SecurityScheme) {
    use KnownSecuritySchemeSubtype as K;
    let mut key: Option<String> = None;
    let mut s = SecurityScheme { attype: None, description: None, descriptions: None, proxy: None, subtype: SecuritySchemeSubtype::Known(K::NoSec) };
    let mut required = false;
    let mut common = |cs: &[SCall], key: &mut Option<String>| {
        for x in cs {
            match x {
                SCall::Attype(t) => s.attype.get_or_insert_with(Vec::new).push(t.clone()),
                SCall::Description(t) => s.description = Some(t.clone()),
                SCall::Descriptions(t) => s.descriptions = Some(langs(t)),
                SCall::Proxy(t) => s.proxy = Some(t.clone()),
                SCall::Key(t) => *key = Some(t.clone()),
                SCall::Required => required = true,
            }
        }
    };
    common(&p.a, &mut key);
    use SecurityAuthenticationLocation::*;
    let (default, sub) = match &p.kind {
        SKind::NoSec => ("nosec", K::NoSec),
        SKind::Auto => ("auto", K::Auto),
        SKind::Combo(all, a, b, n) => {
            let names: Vec<String> = a.iter().chain(b).cloned().collect();
            if let Some(n) = n {
                key = Some(n.clone());
            }
            ("combo", K::Combo(if *all { ComboSecurityScheme::AllOf(names) } else { ComboSecurityScheme::OneOf(names) }))
        }
        SKind::Basic(cs) => {
            let (location, name) = nls(cs, Header);
            ("basic", K::Basic(BasicSecurityScheme { location, name }))
        }
        SKind::Digest(cs, q) => {
            let (location, name) = nls(cs, Header);
            ("digest", K::Digest(DigestSecurityScheme { qop: q.clone().unwrap_or(QualityOfProtection::Auth), location, name }))
        }
        SKind::Bearer(cs) => {
            let mut x = BearerSecurityScheme { authorization: None, alg: "ES256".into(), format: "jwt".into(), location: Header, name: None };
            for k in cs {
                match k {
                    BearerCall::Nl(NL::Name(s)) => x.name = Some(s.clone()),
                    BearerCall::Nl(NL::Location(l)) => x.location = l.clone(),
                    BearerCall::Authorization(s) => x.authorization = Some(s.clone()),
                    BearerCall::Alg(s) => x.alg = s.clone().into(),
                    BearerCall::Format(s) => x.format = s.clone().into(),
                }
            }
            ("bearer", K::Bearer(x))
        }
        SKind::Psk => ("psk", K::Psk(PskSecurityScheme { identity: None })),
        SKind::OAuth2(f, cs) => {
            let mut x = OAuth2SecurityScheme { authorization: None, token: None, refresh: None, scopes: None, flow: f.clone() };
            for k in cs {
                match k {
                    OAuthCall::Authorization(s) => x.authorization = Some(s.clone()),
                    OAuthCall::Token(s) => x.token = Some(s.clone()),
                    OAuthCall::Refresh(s) => x.refresh = Some(s.clone()),
                    OAuthCall::Scope(s) => x.scopes.get_or_insert_with(Vec::new).push(s.clone()),
                }
            }
            ("oauth2", K::OAuth2(x))
        }
        SKind::ApiKey(cs) => {
            let (location, name) = nls(cs, Query);
            ("apikey", K::ApiKey(ApiKeySecurityScheme { location, name }))
        }
        SKind::Custom(x, _) => (x.as_str(), K::NoSec),
    };
    common(&p.b, &mut key);
    s.subtype = match &p.kind {
        SKind::Custom(x, d) => SecuritySchemeSubtype::Unknown(UnknownSecuritySchemeSubtype { scheme: x.clone(), data: d.clone().unwrap_or(Value::Null) }),
        _ => SecuritySchemeSubtype::Known(sub),
    };
    (key.unwrap_or_else(|| default.to_string()), required, s)
}

pub fn expected(p: &Plan) -> Thing<X> {
    let mut t = Thing {
        context: Value::Null,
        id: None,
        attype: None,
        title: p.title.clone(),
        titles: None,
        description: None,
        descriptions: None,
        version: None,
        created: None,
        modified: None,
        support: None,
        base: None,
        properties: None,
        actions: None,
        events: None,
        links: None,
        forms: None,
        security: vec![],
        security_definitions: HashMap::new(),
        uri_variables: None,
        profile: None,
        schema_definitions: None,
        other: c(E { v: p.ext }),
    };
    let mut ctx = vec![Value::from(TD_CONTEXT_11)];
    for x in p.a.iter().chain(&p.b).chain(&p.c) {
        match x {
            TCall::Id(s) => t.id = Some(s.clone()),
            TCall::Description(s) => t.description = Some(s.clone()),
            TCall::Version(i, m) => t.version = Some(VersionInfo { instance: i.clone(), model: m.clone() }),
            TCall::Created(d) => t.created = Some(date(*d)),
            TCall::Modified(d) => t.modified = Some(date(*d)),
            TCall::Support(s) => t.support = Some(s.clone()),
            TCall::Base(s) => t.base = Some(s.clone()),
            TCall::Context(s) => {
                if s != TD_CONTEXT_11 {
                    ctx.push(s.as_str().into())
                }
            }
            TCall::ContextMap(m) => {
                let mut o = serde_json::Map::new();
                for (k, v) in m {
                    o.insert(k.clone(), v.as_str().into());
                }
                ctx.push(Value::Object(o))
            }
            TCall::Attype(s) => t.attype.get_or_insert_with(Vec::new).push(s.clone()),
            TCall::Titles(x) => t.titles = Some(langs(x)),
            TCall::Descriptions(x) => t.descriptions = Some(langs(x)),
            TCall::Link(s) => t.links.get_or_insert_with(Vec::new).push(Link { href: s.clone(), ..Default::default() }),
            TCall::LinkWith(l) => t.links.get_or_insert_with(Vec::new).push(x_link(l)),
            TCall::Security(s) => {
                let (n, req, s) = x_security(s);
                if req {
                    t.security.push(n.clone());
                }
                t.security_definitions.insert(n, s);
            }
            TCall::Profile(s) => t.profile.get_or_insert_with(Vec::new).push(s.clone()),
            TCall::Form(f) => t.forms.get_or_insert_with(Vec::new).push(x_form(f)),
            TCall::Uri(n, s) => {
                t.uri_variables.get_or_insert_with(HashMap::new).insert(n.clone(), x_schema(s));
            }
            TCall::Schema(n, s) => {
                t.schema_definitions.get_or_insert_with(HashMap::new).insert(n.clone(), x_schema(s));
            }
            TCall::Property(n, p) => {
                t.properties.get_or_insert_with(HashMap::new).insert(n.clone(), x_property(p));
            }
            TCall::Action(n, p) => {
                t.actions.get_or_insert_with(HashMap::new).insert(n.clone(), x_action(p));
            }
            TCall::Event(n, p) => {
                t.events.get_or_insert_with(HashMap::new).insert(n.clone(), x_event(p));
            }
        }
    }
    t.context = if ctx.len() == 1 { ctx.pop().unwrap() } else { Value::Array(ctx) };
    t
}

// ------------------------------------------------------------------ the rules a plan breaks

pub struct Rules {
    /// (property, an error that reports it)
    pub broken: Vec<(&'static str, Error)>,
    sec: HashSet<String>,
    schemas: HashSet<String>,
}

impl Rules {
    fn tags(&mut self, t: &Tags) {
        for (k, _) in t {
            if k.parse::<LanguageTag<String>>().is_err() {
                self.broken.push(("P07", Error::InvalidLanguageTag(k.clone())));
            }
        }
    }
    fn hr<'a>(&mut self, cs: impl Iterator<Item = &'a Hr>) {
        // only the last call of each kind counts
        let (mut a, mut b) = (None, None);
        for h in cs {
            match h {
                Hr::Titles(t) => a = Some(t),
                Hr::Descriptions(t) => b = Some(t),
                _ => {}
            }
        }
        for t in [a, b].into_iter().flatten() {
            self.tags(t);
        }
    }
    fn range<T: PartialOrd>(&mut self, min: &Option<(T, bool)>, max: &Option<(T, bool)>) {
        if let (Some((a, x)), Some((b, y))) = (min, max) {
            if a > b || (a == b && (*x || *y)) {
                self.broken.push(("P04", Error::InvalidMinMax));
            }
        }
    }
    fn schema(&mut self, p: &SPlan, with_hr: bool) {
        if with_hr {
            self.hr(p.pre.iter().chain(&p.post).filter_map(|d| if let Ds::Hr(h) = d { Some(h) } else { None }));
        }
        match &p.kind {
            Kind::Number(cs) => {
                let (mut min, mut max, mut mult) = (None, None, None);
                for c in cs {
                    match c {
                        Num::Min(x) => min = Some((*x, false)),
                        Num::ExMin(x) => min = Some((*x, true)),
                        Num::Max(x) => max = Some((*x, false)),
                        Num::ExMax(x) => max = Some((*x, true)),
                        Num::Mult(x) => mult = Some(*x),
                    }
                }
                if [&min, &max].iter().any(|m| m.map_or(false, |(x, _)| x.is_nan())) {
                    self.broken.push(("P04", Error::NanMinMax));
                }
                self.range(&min, &max);
                if mult.map_or(false, |m| m.is_nan() || m <= 0.) {
                    self.broken.push(("P04", Error::InvalidMultipleOf));
                }
            }
            Kind::Integer(cs) => {
                let (mut min, mut max) = (None, None);
                for c in cs {
                    match c {
                        Num::Min(x) => min = Some((*x, false)),
                        Num::ExMin(x) => min = Some((*x, true)),
                        Num::Max(x) => max = Some((*x, false)),
                        Num::ExMax(x) => max = Some((*x, true)),
                        Num::Mult(_) => {}
                    }
                }
                self.range(&min, &max);
            }
            Kind::Tuple(items, _) => items.iter().for_each(|s| self.schema(s, true)),
            Kind::Vector(items, min, max, _) => {
                if let (Some(a), Some(b)) = (min, max) {
                    if a > b {
                        self.broken.push(("P04", Error::InvalidMinMax));
                    }
                }
                items.last().into_iter().for_each(|s| self.schema(s, true))
            }
            Kind::Object(ps, _) => {
                let mut m = HashMap::new();
                for (n, _, s) in ps {
                    m.insert(n, s);
                }
                m.values().for_each(|s| self.schema(s, true))
            }
            Kind::OneOf(vs) => vs.iter().for_each(|s| self.schema(s, true)),
            _ => {}
        }
    }
    fn uris<'a>(&mut self, us: impl Iterator<Item = (&'a String, &'a SPlan)>) {
        let m: HashMap<_, _> = us.collect();
        for s in m.values() {
            if matches!(s.kind, Kind::Tuple(..) | Kind::Vector(..) | Kind::Object(..)) {
                self.broken.push(("P05", Error::InvalidUriVariables));
            }
            self.schema(s, true);
        }
    }
    fn form(&mut self, f: &FPlan, context: FormContext) {
        use FormOperation::*;
        let mut none = true;
        for c in f.a.iter().chain(&f.b).chain(&f.c) {
            match c {
                FCall::Op(op) => {
                    none = false;
                    let ok = match context {
                        FormContext::Property => matches!(op, ReadProperty | WriteProperty | ObserveProperty | UnobserveProperty),
                        FormContext::Action => matches!(op, InvokeAction | QueryAction | CancelAction),
                        FormContext::Event => matches!(op, SubscribeEvent | UnsubscribeEvent),
                        FormContext::Thing => matches!(
                            op,
                            ReadAllProperties | WriteAllProperties | ReadMultipleProperties | WriteMultipleProperties | ObserveAllProperties | UnobserveAllProperties | SubscribeAllEvents | UnsubscribeAllEvents | QueryAllActions
                        ),
                    };
                    if !ok {
                        self.broken.push(("P02", Error::InvalidOpInForm { context: context.clone(), operation: *op }));
                    }
                }
                FCall::Security(s) if !self.sec.contains(s) => self.broken.push(("P01", Error::UndefinedSecurity(s.clone()))),
                FCall::Additional(_, _, Some(s)) if !self.schemas.contains(s) => self.broken.push(("P03", Error::MissingSchemaDefinition(s.clone()))),
                _ => {}
            }
        }
        if none && context == FormContext::Thing {
            self.broken.push(("P02", Error::MissingOpInForm));
        }
    }
    fn inter<'a>(&mut self, cs: impl Iterator<Item = &'a ICall>, context: FormContext) {
        let cs: Vec<&ICall> = cs.collect();
        self.hr(cs.iter().filter_map(|c| if let ICall::Hr(h) = c { Some(h) } else { None }));
        self.uris(cs.iter().filter_map(|c| if let ICall::Uri(n, s) = c { Some((n, s)) } else { None }));
        for c in cs {
            if let ICall::Form(f) = c {
                self.form(f, context.clone());
            }
        }
    }
    fn last<'a>(&mut self, s: impl Iterator<Item = &'a SPlan>) {
        if let Some(s) = s.last() {
            self.schema(s, true);
        }
    }
}

pub fn rules(p: &Plan) -> Vec<(&'static str, Error)> {
    let all: Vec<&TCall> = p.a.iter().chain(&p.b).chain(&p.c).collect();
    let mut r = Rules { broken: vec![], sec: HashSet::new(), schemas: HashSet::new() };
    let mut combos = vec![];
    for c in &all {
        match c {
            TCall::Security(s) => {
                let (n, _, _) = x_security(s);
                if !r.sec.insert(n.clone()) {
                    r.broken.push(("P06", Error::DuplicatedSecurityDefinition(n)));
                }
                if let SKind::Combo(_, a, b, _) = &s.kind {
                    combos.extend(a.iter().chain(b).cloned());
                }
                let mut d = None;
                for c in s.a.iter().chain(&s.b) {
                    if let SCall::Descriptions(t) = c {
                        d = Some(t);
                    }
                }
                if let Some(t) = d {
                    r.tags(t);
                }
            }
            TCall::Schema(n, _) => {
                r.schemas.insert(n.clone());
            }
            _ => {}
        }
    }
    for n in combos {
        if !r.sec.contains(&n) {
            r.broken.push(("P01", Error::MissingSchemaDefinition(n.clone())));
            r.broken.push(("P01", Error::UndefinedSecurity(n)));
        }
    }
    let (mut titles, mut descriptions) = (None, None);
    let mut names: [HashSet<String>; 3] = Default::default();
    let mut dup = |r: &mut Rules, k: usize, ty: AffordanceType, n: &String| {
        if !names[k].insert(n.clone()) {
            r.broken.push(("P06", Error::DuplicatedAffordance { ty, name: n.clone() }));
        }
    };
    for c in &all {
        match c {
            TCall::Titles(t) => titles = Some(t),
            TCall::Descriptions(t) => descriptions = Some(t),
            TCall::LinkWith(l) => {
                let x = x_link(l);
                if x.sizes.is_some() && x.rel.as_deref() != Some("icon") {
                    r.broken.push(("P08", Error::SizesWithRelNotIcon));
                }
                for c in l.a.iter().chain(&l.b) {
                    if let LCall::Lang(t) = c {
                        if t.parse::<LanguageTag<String>>().is_err() {
                            r.broken.push(("P07", Error::InvalidLanguageTag(t.clone())));
                        }
                    }
                }
            }
            TCall::Form(f) => r.form(f, FormContext::Thing),
            TCall::Property(n, p) => {
                dup(&mut r, 0, AffordanceType::Property, n);
                let mut calls: Vec<ICall> = p.a.iter().chain(&p.b).cloned().collect();
                for d in p.schema.pre.iter().chain(&p.schema.post) {
                    if let Ds::Hr(h) = d {
                        calls.push(ICall::Hr(h.clone()));
                    }
                }
                calls.extend(p.c.iter().cloned());
                r.inter(calls.iter(), FormContext::Property);
                r.schema(&p.schema, false);
            }
            TCall::Action(n, p) => {
                dup(&mut r, 1, AffordanceType::Action, n);
                let a: Vec<&ACall> = p.a.iter().chain(&p.b).collect();
                r.inter(a.iter().filter_map(|c| if let ACall::I(i) = c { Some(i) } else { None }), FormContext::Action);
                r.last(a.iter().filter_map(|c| if let ACall::Input(i) = c { Some(i) } else { None }));
                r.last(a.iter().filter_map(|c| if let ACall::Output(i) = c { Some(i) } else { None }));
            }
            TCall::Event(n, p) => {
                dup(&mut r, 2, AffordanceType::Event, n);
                let a: Vec<&ECall> = p.a.iter().chain(&p.b).collect();
                r.inter(a.iter().filter_map(|c| if let ECall::I(i) = c { Some(i) } else { None }), FormContext::Event);
                r.last(a.iter().filter_map(|c| if let ECall::Subscription(i) = c { Some(i) } else { None }));
                r.last(a.iter().filter_map(|c| if let ECall::Data(i) = c { Some(i) } else { None }));
                r.last(a.iter().filter_map(|c| if let ECall::Cancellation(i) = c { Some(i) } else { None }));
                r.last(a.iter().filter_map(|c| if let ECall::Response(i) = c { Some(i) } else { None }));
            }
            _ => {}
        }
    }
    for t in [titles, descriptions].into_iter().flatten() {
        r.tags(t);
    }
    r.uris(all.iter().filter_map(|c| if let TCall::Uri(n, s) = c { Some((n, s)) } else { None }));
    let defs: HashMap<&String, &SPlan> = all.iter().filter_map(|c| if let TCall::Schema(n, s) = c { Some((n, s)) } else { None }).collect();
    for s in defs.values() {
        r.schema(s, true);
    }
    r.broken
}

// ------------------------------------------------------------------ random plans

pub struct Gen {
    pub r: Rng,
    /// chance of breaking a rule at each place, in 1/1000
    pub bad: u64,
    sec: Vec<String>,
    schemas: Vec<String>,
    n: usize,
}

const TAGS: [&str; 8] = ["en", "it", "de-CH", "zh-Hant-TW", "fr-CA", "x-private", "i-klingon", "sl-rozaj-biske"];
const BAD_TAGS: [&str; 9] = ["", "e", "en-", "it_IT", "abcdefghijk", "-", "en--US", "x", "en-a"];
const STRS: [&str; 24] = [
    "", "a", "icon", "x y", "è", "\"q\"", "nosec", "https://www.w3.org/2019/wot/td/v1", "0", "null", "basic", "title", " ", " a", "a ", "A", "È", "a\u{0}b", "aèb", "èa", "éé", "日本", "\u{1F600}x", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaè",
];

pub const OPS: [FormOperation; 18] = [
    FormOperation::ReadProperty,
    FormOperation::WriteProperty,
    FormOperation::ObserveProperty,
    FormOperation::UnobserveProperty,
    FormOperation::InvokeAction,
    FormOperation::QueryAction,
    FormOperation::CancelAction,
    FormOperation::SubscribeEvent,
    FormOperation::UnsubscribeEvent,
    FormOperation::ReadAllProperties,
    FormOperation::WriteAllProperties,
    FormOperation::ReadMultipleProperties,
    FormOperation::WriteMultipleProperties,
    FormOperation::ObserveAllProperties,
    FormOperation::UnobserveAllProperties,
    FormOperation::SubscribeAllEvents,
    FormOperation::UnsubscribeAllEvents,
    FormOperation::QueryAllActions,
];

impl Gen {
    pub fn new(seed: u64, bad: u64) -> Self {
        Gen { r: Rng::new(seed), bad, sec: vec![], schemas: vec![], n: 0 }
    }
    fn bad(&mut self) -> bool {
        self.r.next() % 1000 < self.bad
    }
    pub fn s(&mut self) -> String {
        if let Some(w) = crate::odd::new_word(&mut self.r) {
            return w;
        }
        if self.r.pct(25) {
            self.r.pick(&STRS).to_string()
        } else {
            format!("s{}", self.r.below(1000))
        }
    }
    pub fn o<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> Option<T> {
        if self.r.pct(50) {
            Some(f(self))
        } else {
            None
        }
    }
    pub fn ext(&mut self) -> Option<u64> {
        self.o(|g| g.r.next() % 1000)
    }
    pub fn value(&mut self, depth: usize) -> Value {
        match self.r.below(if depth == 0 { 5 } else { 7 }) {
            0 => Value::Null,
            1 => Value::Bool(self.r.pct(50)),
            2 => json!(self.r.next() as i32),
            3 => json!(1.5),
            4 => Value::String(self.s()),
            5 => {
                let n = self.r.count(3);
                Value::Array((0..n).map(|_| self.value(depth - 1)).collect())
            }
            _ => {
                let n = self.r.count(3);
                Value::Object((0..n).map(|_| (self.s(), self.value(depth - 1))).collect())
            }
        }
    }
    fn lang(&mut self) -> String {
        if self.bad() {
            if let Some(w) = crate::odd::new_word(&mut self.r).filter(|w| oxilangtag::LanguageTag::parse(w.as_str()).is_err()) {
                return w;
            }
            self.r.pick(&BAD_TAGS).to_string()
        } else {
            self.r.pick(&TAGS).to_string()
        }
    }
    pub fn tags(&mut self) -> Tags {
        let n = self.r.count(3);
        // a later entry for the same language replaces an earlier one
        (0..n).map(|_| (self.lang(), self.s())).collect()
    }
    fn hr(&mut self) -> Hr {
        match self.r.below(5) {
            0 => Hr::Attype(self.s()),
            1 => Hr::Title(self.s()),
            2 => Hr::Titles(self.tags()),
            3 => Hr::Description(self.s()),
            _ => Hr::Descriptions(self.tags()),
        }
    }
    fn ds(&mut self) -> Vec<Ds> {
        let n = if self.r.pct(40) { self.r.count(3) } else { 0 };
        (0..n)
            .map(|_| match self.r.below(5) {
                0 => Ds::Unit(self.s()),
                1 => Ds::Format(self.s()),
                2 => Ds::Default(self.value(1)),
                _ => Ds::Hr(self.hr()),
            })
            .collect()
    }
    fn limits<T: Copy + PartialOrd, M>(&mut self, pool: &[T]) -> Vec<Num<T, M>> {
        let mut v = vec![];
        let i = self.r.below(pool.len());
        let j = self.r.below(pool.len());
        let (mut a, mut b) = (pool[i.min(j)], pool[i.max(j)]);
        let (mut x, mut y) = (self.r.pct(50), self.r.pct(50));
        if a == b {
            x = false;
            y = false;
        }
        if self.bad() {
            if self.r.pct(50) {
                std::mem::swap(&mut a, &mut b);
            } else {
                b = a;
                x = self.r.pct(50);
                y = !x;
            }
        }
        let (p, q) = (self.r.pct(60), self.r.pct(60));
        if p {
            if self.r.pct(10) {
                v.push(Num::ExMin(pool[0]));
            }
            v.push(if x { Num::ExMin(a) } else { Num::Min(a) });
        }
        if q {
            if self.r.pct(10) {
                v.push(Num::Max(pool[0]));
            }
            let k = if self.r.pct(50) { 0 } else { v.len() };
            if k == 0 {
                v.reverse();
                v.push(if y { Num::ExMax(b) } else { Num::Max(b) });
                v.reverse();
            } else {
                v.push(if y { Num::ExMax(b) } else { Num::Max(b) });
            }
        }
        v
    }
    pub fn schema(&mut self, depth: usize, finite: bool) -> SPlan {
        let n = if depth == 0 { 7 } else { 11 };
        self.schema_of(n, depth, finite)
    }
    fn schema_of(&mut self, n: usize, depth: usize, finite: bool) -> SPlan {
        let d = depth.saturating_sub(1);
        let kind = match self.r.below(n) {
            0 => Kind::Bool,
            1 => Kind::Null,
            2 => {
                let mut cs: Vec<Num<f64, f64>> = if finite { self.limits(&[-1e300, -2.5, -1., 0., 5e-324, 1., 2., 1e300]) } else { self.limits(&[f64::NEG_INFINITY, -2.5, -1., -0., 0., 5e-324, 1., 2., f64::INFINITY]) };
                if self.bad() {
                    cs.push(if self.r.pct(50) { Num::Min(f64::NAN) } else { Num::ExMax(f64::NAN) });
                }
                if self.r.pct(30) {
                    let m = *self.r.pick(&[5e-324, 0.5, 1., 1e300]);
                    cs.push(Num::Mult(m));
                }
                if self.bad() {
                    let m = *self.r.pick(&[0., -0., -1., f64::NAN, f64::NEG_INFINITY, -5e-324]);
                    cs.push(Num::Mult(m));
                }
                Kind::Number(cs)
            }
            3 => {
                let mut cs: Vec<Num<i64, NonZeroU64>> = self.limits(&[i64::MIN, -7, -1, 0, 1, 2, i64::MAX]);
                if self.r.pct(30) {
                    cs.push(Num::Mult(NonZeroU64::new(1 + self.r.next() % 5).unwrap()));
                }
                Kind::Integer(cs)
            }
            4 => {
                let n = self.r.count(4);
                Kind::Str(
                    (0..n)
                        .map(|_| match self.r.below(5) {
                            0 => Str::Min(self.r.below(9) as u32),
                            1 => Str::Max(self.r.below(9) as u32),
                            2 => Str::Pattern(self.s()),
                            3 => Str::Encoding(self.s()),
                            _ => Str::Media(self.s()),
                        })
                        .collect(),
                )
            }
            5 => Kind::Const(self.value(2)),
            6 => {
                let n = 1 + self.r.below(3);
                Kind::Enum((0..n).map(|_| self.value(1)).collect())
            }
            7 => {
                let n = self.r.count(3);
                Kind::Tuple((0..n).map(|_| self.schema(d, finite)).collect(), self.ext())
            }
            8 => {
                let n = self.r.below(3);
                let items = (0..n).map(|_| self.schema(d, finite)).collect();
                let mut a = self.r.below(5) as u32;
                let mut b = a + self.r.below(3) as u32;
                if self.bad() {
                    std::mem::swap(&mut a, &mut b);
                    a += 1;
                }
                let (p, q) = (self.o(|_| a), self.o(|_| b));
                Kind::Vector(items, p, q, self.ext())
            }
            9 => {
                let n = self.r.count(3);
                let ps = (0..n)
                    .map(|_| {
                        let name = if self.r.pct(10) { self.s() } else { format!("m{}", self.r.below(5)) };
                        (name, self.r.pct(50), self.schema(d, finite))
                    })
                    .collect();
                Kind::Object(ps, self.ext())
            }
            _ => {
                let n = 1 + self.r.below(3);
                Kind::OneOf((0..n).map(|_| self.schema(d, finite)).collect())
            }
        };
        SPlan { ext: self.ext(), pre: self.ds(), kind, post: self.ds(), rw: if self.r.pct(70) { 0 } else { 1 + self.r.below(2) as u8 } }
    }
    fn uri(&mut self, finite: bool) -> (String, SPlan) {
        let n = if self.r.pct(15) { self.s() } else { format!("u{}", self.r.below(6)) };
        let s = if self.bad() {
            let mut s = self.schema(1, finite);
            if !matches!(s.kind, Kind::Tuple(..) | Kind::Vector(..) | Kind::Object(..)) {
                s.kind = if self.r.pct(50) { Kind::Object(vec![], None) } else { Kind::Vector(vec![], None, None, None) };
            }
            s
        } else {
            let mut s = self.schema(2, finite);
            while matches!(s.kind, Kind::Tuple(..) | Kind::Vector(..) | Kind::Object(..)) {
                s = self.schema(2, finite);
            }
            s
        };
        (n, s)
    }
    /// a name that resembles one of `of` but is another
    fn near(&mut self, of: &[String]) -> String {
        for _ in 0..4 {
            let base = if of.is_empty() { "missing".to_string() } else { self.r.pick(of).clone() };
            if let Some(w) = crate::odd::new_word(&mut self.r).filter(|w| !of.contains(w)) {
                return w;
            }
            let n = match self.r.below(8) {
                0 => format!("{base} "),
                1 => format!(" {base}"),
                2 => base.to_uppercase(),
                3 => base.chars().take(base.chars().count().saturating_sub(1)).collect(),
                4 => format!("{base}{base}"),
                5 => base.chars().rev().collect(),
                6 => String::new(),
                _ => format!("{base}\n"),
            };
            if !of.contains(&n) {
                return n;
            }
        }
        "missing".into()
    }
    fn sec_name(&mut self) -> Option<String> {
        if self.bad() {
            if self.r.pct(50) {
                let of = self.sec.clone();
                return Some(self.near(&of));
            }
            return Some(if self.r.pct(30) { "".into() } else { "missing".into() });
        }
        if self.sec.is_empty() {
            return None;
        }
        let i = self.r.below(self.sec.len());
        Some(self.sec[i].clone())
    }
    fn schema_name(&mut self) -> Option<String> {
        if self.bad() {
            if self.r.pct(50) {
                let of = self.schemas.clone();
                return Some(self.near(&of));
            }
            return Some("undefined".into());
        }
        if self.schemas.is_empty() {
            return None;
        }
        let i = self.r.below(self.schemas.len());
        Some(self.schemas[i].clone())
    }
    /// where: 0 property, 1 action, 2 event, 3 thing
    fn form(&mut self, place: usize) -> FPlan {
        let ops = [&OPS[0..4], &OPS[4..7], &OPS[7..9], &OPS[9..18]][place];
        let mut cs = vec![];
        let n = if place == 3 { self.r.count(3).max(1) } else { self.r.count(3) };
        for _ in 0..n {
            let op = if self.bad() { *self.r.pick(&OPS) } else { *self.r.pick(ops) };
            cs.push(FCall::Op(op));
        }
        if place == 3 && self.bad() {
            cs.clear();
        }
        let n = self.r.count(5);
        for _ in 0..n {
            match self.r.below(7) {
                0 => cs.push(FCall::ContentType(self.s())),
                1 => cs.push(FCall::ContentCoding(self.s())),
                2 => cs.push(FCall::Subprotocol(self.s())),
                3 => {
                    if let Some(n) = self.sec_name() {
                        cs.push(FCall::Security(n))
                    }
                }
                4 => cs.push(FCall::Scope(self.s())),
                5 => cs.push(FCall::Response(self.s(), self.ext())),
                _ => {
                    let sc = if self.r.pct(60) { self.schema_name() } else { None };
                    cs.push(FCall::Additional(self.r.pct(50), self.o(|g| g.s()), sc))
                }
            }
        }
        self.r.shuffle(&mut cs);
        let i = self.r.below(cs.len() + 1);
        let c = cs.split_off(i);
        let j = self.r.below(cs.len() + 1);
        let b = cs.split_off(j);
        FPlan { a: cs, href: self.s(), b, ext: self.ext(), c }
    }
    fn inter(&mut self, place: usize, max: usize, finite: bool) -> Vec<ICall> {
        let n = self.r.count(max);
        (0..n)
            .map(|_| match self.r.below(5) {
                0 | 1 => ICall::Form(self.form(place)),
                2 => {
                    let (n, s) = self.uri(finite);
                    ICall::Uri(n, s)
                }
                _ => ICall::Hr(self.hr()),
            })
            .collect()
    }
    fn fresh(&mut self, p: &str, used: &mut Vec<String>) -> String {
        if !used.is_empty() && self.bad() {
            return self.r.pick(used).clone();
        }
        self.n += 1;
        let w = crate::odd::new_word(&mut self.r).filter(|w| !used.contains(w));
        let n = match self.r.below(20) {
            _ if w.is_some() => w.unwrap(),
            0 if !used.iter().any(|x| x.is_empty()) => String::new(),
            1 if !used.is_empty() => {
                let n = self.near(used);
                if used.contains(&n) {
                    format!("{}{}", p, self.n)
                } else {
                    n
                }
            }
            _ => format!("{}{}", p, self.n),
        };
        used.push(n.clone());
        n
    }
    fn sec(&mut self, used: &mut Vec<String>) -> SecPlan {
        let loc = |g: &mut Self| {
            use SecurityAuthenticationLocation::*;
            g.r.pick(&[Header, Query, Body, Cookie, Uri]).clone()
        };
        let nlf = |g: &mut Self| {
            let n = g.r.count(3);
            (0..n).map(|_| if g.r.pct(50) { NL::Name(g.s()) } else { NL::Location(loc(g)) }).collect::<Vec<_>>()
        };
        let kind = match self.r.below(10) {
            0 => SKind::NoSec,
            1 => SKind::Auto,
            2 => {
                let mut names = || {
                    let n = self.r.count(2);
                    (0..n)
                        .filter_map(|_| if self.r.next() % 1000 < self.bad { Some("nothere".to_string()) } else if used.is_empty() { None } else { Some(self.r.pick(used).clone()) })
                        .collect::<Vec<_>>()
                };
                let (a, b) = (names(), names());
                let all = self.r.pct(50);
                SKind::Combo(all, a, b, self.o(|g| format!("combo{}", g.r.below(1000000))))
            }
            3 => SKind::Basic(nlf(self)),
            4 => SKind::Digest(nlf(self), self.o(|g| if g.r.pct(50) { QualityOfProtection::Auth } else { QualityOfProtection::AuthInt })),
            5 => {
                let n = self.r.count(4);
                SKind::Bearer(
                    (0..n)
                        .map(|_| match self.r.below(5) {
                            0 => BearerCall::Nl(NL::Name(self.s())),
                            1 => BearerCall::Nl(NL::Location(loc(self))),
                            2 => BearerCall::Authorization(self.s()),
                            3 => BearerCall::Alg(self.s()),
                            _ => BearerCall::Format(self.s()),
                        })
                        .collect(),
                )
            }
            6 => SKind::Psk,
            7 => {
                let n = self.r.count(4);
                SKind::OAuth2(
                    self.s(),
                    (0..n)
                        .map(|_| match self.r.below(5) {
                            0 => OAuthCall::Authorization(self.s()),
                            1 => OAuthCall::Token(self.s()),
                            2 => OAuthCall::Refresh(self.s()),
                            _ => OAuthCall::Scope(self.s()),
                        })
                        .collect(),
                )
            }
            8 => SKind::ApiKey(nlf(self)),
            _ => {
                let d = self.o(|g| {
                    let n = 1 + g.r.count(3);
                    Value::Object((0..n).map(|i| (format!("c{}", i), g.value(1))).collect())
                });
                SKind::Custom(crate::odd::new_word(&mut self.r).unwrap_or_else(|| format!("custom{}", self.r.below(100))), d)
            }
        };
        let mut cs = vec![];
        let n = self.r.count(4);
        for _ in 0..n {
            cs.push(match self.r.below(6) {
                0 => SCall::Attype(self.s()),
                1 => SCall::Description(self.s()),
                2 => SCall::Descriptions(self.tags()),
                3 => SCall::Proxy(self.s()),
                4 => SCall::Key(crate::odd::new_word(&mut self.r).unwrap_or_else(|| format!("k{}", self.r.below(1000000)))),
                _ => SCall::Required,
            });
        }
        let i = self.r.below(cs.len() + 1);
        let b = cs.split_off(i);
        let mut p = SecPlan { a: cs, kind, b };
        let n = x_security(&p).0;
        if used.contains(&n) && !self.bad() {
            p.b.push(SCall::Key(format!("key{}", self.n)));
            self.n += 1;
        }
        used.push(x_security(&p).0);
        p
    }
    fn link(&mut self) -> LPlan {
        let mut cs = vec![];
        let n = self.r.count(4);
        for _ in 0..n {
            cs.push(match self.r.below(5) {
                0 => LCall::Ty(self.s()),
                1 => LCall::Rel(self.s()),
                2 => LCall::Anchor(self.s()),
                _ => LCall::Lang(self.lang()),
            });
        }
        if self.r.pct(30) {
            if !self.bad() {
                cs.retain(|c| !matches!(c, LCall::Rel(_)));
                cs.push(LCall::Rel("icon".into()));
            }
            cs.push(LCall::Sizes(self.s()));
        }
        if self.bad() {
            cs.push(LCall::Rel(self.r.pick(&["Icon", "icon ", " icon", "icons", "", "ICON", "stylesheet", "shortcut icon", "icon shortcut", "apple-touch-icon", "icon\n", "aèb", "éé", "icoè", "日本"]).to_string()));
            cs.push(LCall::Sizes("1x1".into()));
        }
        let mut i = self.r.below(cs.len() + 1);
        if self.r.pct(30) {
            i = 0;
        }
        let b = cs.split_off(i);
        LPlan { a: cs, href: self.s(), b }
    }
    fn common(&mut self) -> TCall {
        match self.r.below(13) {
            0 => TCall::Id(self.s()),
            1 => TCall::Description(self.s()),
            2 => TCall::Version(self.s(), self.o(|g| g.s())),
            3 => TCall::Created(self.r.below(2_000_000_000) as i64),
            4 => TCall::Modified(self.r.below(2_000_000_000) as i64),
            5 => TCall::Support(self.s()),
            6 => TCall::Base(self.s()),
            7 => TCall::Context(match self.r.below(4) {
                0 => TD_CONTEXT_11.to_string(),
                1 => TD_CONTEXT_10.to_string(),
                _ => self.s(),
            }),
            8 => {
                let n = self.r.count(3);
                TCall::ContextMap(
                    (0..n)
                        .map(|_| {
                            let v = if self.r.pct(30) { self.r.pick(&[TD_CONTEXT_11, TD_CONTEXT_10]).to_string() } else { self.s() };
                            (format!("p{}", self.r.below(4)), v)
                        })
                        .collect(),
                )
            }
            9 => TCall::Attype(self.s()),
            10 => TCall::Titles(self.tags()),
            11 => TCall::Descriptions(self.tags()),
            _ => TCall::Profile(self.s()),
        }
    }
    /// `focus`: the part generated in quantity (0..8), the others are kept small
    pub fn plan(&mut self, finite: bool) -> Plan {
        let mut used = vec![];
        let mut pre: Vec<TCall> = vec![];
        let n = self.r.count(4);
        for _ in 0..n {
            let s = self.sec(&mut used);
            pre.push(TCall::Security(s));
        }
        self.sec = used;
        let mut c = vec![];
        let n = self.r.count(3);
        for _ in 0..n {
            let name = crate::odd::new_word(&mut self.r).unwrap_or_else(|| format!("d{}", self.r.below(5)));
            self.schemas.push(name.clone());
            c.push(TCall::Schema(name, self.schema(3, finite)));
        }
        let n = self.r.count(5);
        for _ in 0..n {
            pre.push(self.common());
        }
        let n = self.r.count(3);
        for _ in 0..n {
            let l = if self.r.pct(30) { TCall::Link(self.s()) } else { TCall::LinkWith(self.link()) };
            pre.push(l);
        }
        let n = self.r.count(2);
        for _ in 0..n {
            c.push(TCall::Form(self.form(3)));
        }
        let n = self.r.count(2);
        for _ in 0..n {
            let (n, s) = self.uri(finite);
            c.push(TCall::Uri(n, s));
        }
        let mut names = vec![];
        let n = self.r.count(3);
        for _ in 0..n {
            let mut p = PPlan {
                inter: self.ext(),
                ext: self.ext(),
                a: self.inter(0, 2, finite),
                b: self.inter(0, 2, finite),
                observable: {
                    let n = self.r.count(2);
                    (0..n).map(|_| self.r.pct(50)).collect()
                },
                schema: self.schema(3, finite),
                c: self.inter(0, 2, finite),
            };
            if let Kind::Str(cs) = &mut p.schema.kind {
                cs.clear();
            }
            c.push(TCall::Property(self.fresh("p", &mut names), p));
        }
        let mut names = vec![];
        let n = self.r.count(3);
        for _ in 0..n {
            let mut f = |g: &mut Self| -> Vec<ACall> {
                let mut v: Vec<ACall> = g.inter(1, 2, finite).into_iter().map(ACall::I).collect();
                let n = g.r.count(3);
                for _ in 0..n {
                    v.push(match g.r.below(5) {
                        0 => ACall::Input(g.schema(2, finite)),
                        1 => ACall::Output(g.schema(2, finite)),
                        2 => ACall::Safe,
                        3 => ACall::Idempotent,
                        _ => ACall::Synchronous(g.r.pct(50)),
                    });
                }
                g.r.shuffle(&mut v);
                v
            };
            let p = APlan { inter: self.ext(), ext: self.ext(), a: f(self), b: f(self) };
            c.push(TCall::Action(self.fresh("a", &mut names), p));
        }
        let mut names = vec![];
        let n = self.r.count(3);
        for _ in 0..n {
            let mut f = |g: &mut Self| -> Vec<ECall> {
                let mut v: Vec<ECall> = g.inter(2, 2, finite).into_iter().map(ECall::I).collect();
                let n = g.r.count(3);
                for _ in 0..n {
                    v.push(match g.r.below(4) {
                        0 => ECall::Subscription(g.schema(2, finite)),
                        1 => ECall::Data(g.schema(2, finite)),
                        2 => ECall::Cancellation(g.schema(2, finite)),
                        _ => ECall::Response(g.schema(2, finite)),
                    });
                }
                g.r.shuffle(&mut v);
                v
            };
            let p = EPlan { inter: self.ext(), ext: self.ext(), a: f(self), b: f(self) };
            c.push(TCall::Event(self.fresh("e", &mut names), p));
        }
        // distribute
        let (mut a, mut b) = (vec![], vec![]);
        for x in pre {
            match self.r.below(3) {
                0 => a.push(x),
                1 => b.push(x),
                _ => c.push(x),
            }
        }
        self.r.shuffle(&mut a);
        self.r.shuffle(&mut b);
        self.r.shuffle(&mut c);
        Plan { title: self.s(), a, ext: self.ext(), b, c }
    }
}

// ------------------------------------------------------------------ comparison, field by field

macro_rules! cmp {
    ($w:expr, $a:expr, $b:expr; $($f:ident),*) => { $(
        if $a.$f != $b.$f {
            return Some(format!("{}{}: expected {:?}, got {:?}", $w, stringify!($f), $a.$f, $b.$f));
        }
    )* };
}

pub fn d_inter(w: &str, a: &InteractionAffordance<X>, b: &InteractionAffordance<X>) -> Option<String> {
    cmp!(w, a, b; attype, title, titles, description, descriptions, forms, uri_variables, other);
    None
}

pub fn d_map<T>(w: &str, a: &Option<HashMap<String, T>>, b: &Option<HashMap<String, T>>, f: impl Fn(&str, &T, &T) -> Option<String>) -> Option<String> {
    match (a, b) {
        (None, None) => None,
        (Some(a), Some(b)) => {
            let mut k: Vec<_> = a.keys().chain(b.keys()).collect();
            k.sort();
            for k in k {
                match (a.get(k), b.get(k)) {
                    (Some(x), Some(y)) => {
                        if let Some(d) = f(&format!("{} {:?}: ", w, k), x, y) {
                            return Some(d);
                        }
                    }
                    (Some(_), None) => return Some(format!("{} {:?} lost", w, k)),
                    _ => return Some(format!("{} {:?} invented", w, k)),
                }
            }
            None
        }
        (Some(_), None) => Some(format!("{} lost", w)),
        _ => Some(format!("{} invented", w)),
    }
}

/// first difference between the expected and the actual Thing
pub fn difference(a: &Thing<X>, b: &Thing<X>) -> Option<String> {
    cmp!("", a, b; context, id, attype, title, titles, description, descriptions, version, created, modified, support, base, links, forms, security,
        security_definitions, uri_variables, profile, schema_definitions, other);
    d_map("property", &a.properties, &b.properties, |w, a, b| {
        if let Some(d) = d_inter(w, &a.interaction, &b.interaction) {
            return Some(d);
        }
        cmp!(w, a, b; data_schema, observable, other);
        None
    })
    .or_else(|| {
        d_map("action", &a.actions, &b.actions, |w, a, b| {
            if let Some(d) = d_inter(w, &a.interaction, &b.interaction) {
                return Some(d);
            }
            cmp!(w, a, b; input, output, safe, idempotent, synchronous, other);
            None
        })
    })
    .or_else(|| {
        d_map("event", &a.events, &b.events, |w, a, b| {
            if let Some(d) = d_inter(w, &a.interaction, &b.interaction) {
                return Some(d);
            }
            cmp!(w, a, b; subscription, data, data_response, cancellation, other);
            None
        })
    })
}
