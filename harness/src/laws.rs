//! Oracles of the properties about values: comparison, lists, equality, JSON.
use crate::ext::*;
use crate::json::{self, Style};
use crate::plan;
use crate::rng::Rng;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::fmt::Debug;
use wot_td::{extend::*, hlist::*, protocol::{coap, http, mqtt}, thing::*};

type R = Result<(), String>;

macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

// ------------------------------------------------------------------ P13
fn same_kind<L: PartialOrd + Debug + Copy>(v: &[L], num: impl Fn(&L) -> f64) -> R {
    for a in v {
        for b in v {
            let c = a.partial_cmp(b);
            ck!((a == b) == (c == Some(Ordering::Equal)), "{:?} == {:?} is {} but comparing gives {:?}", a, b, a == b, c);
            ck!((a == b) != (a != b), "{:?} and {:?} are both equal and different, or neither", a, b);
            ck!(b.partial_cmp(a) == c.map(Ordering::reverse), "{:?} against {:?} gives {:?}, the opposite {:?}", a, b, c, b.partial_cmp(a));
            ck!((a < b) == (c == Some(Ordering::Less)) && (a > b) == (c == Some(Ordering::Greater)), "{:?} < > {:?}", a, b);
            ck!((a <= b) == (a < b || a == b) && (a >= b) == (a > b || a == b), "{:?} <= >= {:?}", a, b);
            let (x, y) = (num(a), num(b));
            ck!(!(x.is_nan() || y.is_nan()) || (c.is_none() && a != b), "{:?} is not a number but compares {:?} with {:?}", a, c, b);
            ck!(!(x < y) || c != Some(Ordering::Greater) && c != Some(Ordering::Equal), "{:?} against {:?} gives {:?}", a, b, c);
            ck!(!(x > y) || c != Some(Ordering::Less) && c != Some(Ordering::Equal), "{:?} against {:?} gives {:?}", a, b, c);
            for d in v {
                ck!(!(a < b && b < d) || a < d, "{:?} < {:?} < {:?} but not {:?} < {:?}", a, b, d, a, d);
                ck!(!(a == b && b == d) || a == d, "{:?} == {:?} == {:?} but not {:?} == {:?}", a, b, d, a, d);
                ck!(!(a <= b && b <= d) || a <= d, "{:?} <= {:?} <= {:?} but not {:?} <= {:?}", a, b, d, a, d);
            }
        }
        ck!(num(a).is_nan() || a == a, "{:?} is not equal to itself", a);
    }
    Ok(())
}

fn cross<A: PartialOrd<B> + Debug, B: PartialOrd<A> + Debug>(m: &[A], n: &[B], f: impl Fn(&A) -> f64, g: impl Fn(&B) -> f64) -> R {
    for a in m {
        for b in n {
            let c = a.partial_cmp(b);
            ck!(b.partial_cmp(a) == c.map(Ordering::reverse), "{:?} against {:?} gives {:?}, the opposite {:?}", a, b, c, b.partial_cmp(a));
            ck!((a == b) == (b == a), "{:?} == {:?} is not symmetric", a, b);
            ck!((a == b) == (c == Some(Ordering::Equal)), "{:?} == {:?} is {} but comparing gives {:?}", a, b, a == b, c);
            ck!(c != Some(Ordering::Less) || f(a) < g(b), "{:?} is reported below {:?}", a, b);
            ck!(!(f(a).is_nan() || g(b).is_nan()) || (c.is_none() && !(a == b)), "{:?} against {:?} gives {:?}", a, b, c);
            ck!((a < b) == (c == Some(Ordering::Less)) && (a > b) == (c == Some(Ordering::Greater)), "{:?} < > {:?}", a, b);
            ck!((a <= b) == matches!(c, Some(Ordering::Less | Ordering::Equal)) && (a >= b) == matches!(c, Some(Ordering::Greater | Ordering::Equal)), "{:?} <= >= {:?}", a, b);
        }
    }
    Ok(())
}

macro_rules! limits {
    ($t:ty, $v:expr, $f:expr) => {{
        let v: Vec<$t> = $v;
        let lo: Vec<Minimum<$t>> = v.iter().map(|x| Minimum::Inclusive(*x)).chain(v.iter().map(|x| Minimum::Exclusive(*x))).collect();
        let hi: Vec<Maximum<$t>> = v.iter().map(|x| Maximum::Inclusive(*x)).chain(v.iter().map(|x| Maximum::Exclusive(*x))).collect();
        let f: fn($t) -> f64 = $f;
        let a = |m: &Minimum<$t>| f(match m { Minimum::Inclusive(x) | Minimum::Exclusive(x) => *x });
        let b = |m: &Maximum<$t>| f(match m { Maximum::Inclusive(x) | Maximum::Exclusive(x) => *x });
        same_kind(&lo, a)?;
        same_kind(&hi, b)?;
        cross(&lo, &hi, a, b)?;
        (lo, hi)
    }};
}

pub fn p13(r: &mut Rng) -> R {
    let mut v = vec![-3, -1, 0, 1, 2, 3, 4, 5];
    v.push(r.next() as i32 as i64);
    limits!(i64, v, |x| x as f64);
    let mut v = vec![f64::NAN, f64::NEG_INFINITY, -1.5, -0.0, 0.0, 1.0, 4.0, f64::INFINITY];
    v.push(f64::from_bits(r.next()));
    let (lo, hi) = limits!(f64, v, |x| x);
    for m in &lo {
        let x = match m { Minimum::Inclusive(x) | Minimum::Exclusive(x) => *x };
        ck!(m.is_nan() == x.is_nan(), "is_nan of {:?}", m);
    }
    for m in &hi {
        let x = match m { Maximum::Inclusive(x) | Maximum::Exclusive(x) => *x };
        ck!(m.is_nan() == x.is_nan(), "is_nan of {:?}", m);
    }
    let (lo, hi) = limits!(f32, vec![f32::NAN, -1.5, 0.0, 4.0, f32::INFINITY, f32::from_bits(r.next() as u32)], |x| x as f64);
    ck!(lo[0].is_nan() && hi[0].is_nan() && !lo[1].is_nan() && !hi[2].is_nan(), "is_nan of f32");
    limits!(u64, vec![0, 1, 2, 5, r.next() >> 20], |x| x as f64);
    Ok(())
}

// ------------------------------------------------------------------ P14
/// The elements of a list of numbers, whatever shape its type has.
trait Flat {
    fn flat(&self) -> Vec<u64>;
}
impl Flat for Nil {
    fn flat(&self) -> Vec<u64> {
        vec![]
    }
}
impl Flat for u64 {
    fn flat(&self) -> Vec<u64> {
        vec![*self]
    }
}
impl<T: Flat> Flat for &T {
    fn flat(&self) -> Vec<u64> {
        (**self).flat()
    }
}
impl<T: Flat> Flat for &mut T {
    fn flat(&self) -> Vec<u64> {
        (**self).flat()
    }
}
impl<T: Flat, U: Flat> Flat for Cons<T, U> {
    fn flat(&self) -> Vec<u64> {
        let mut v = self.head.flat();
        v.extend(self.tail.flat());
        v
    }
}
/// Numbers the elements reached through a mutable view, from the given number on.
trait Count {
    fn count(self, n: u64);
}
impl Count for Nil {
    fn count(self, _: u64) {}
}
impl<U: Count> Count for Cons<&mut u64, U> {
    fn count(self, n: u64) {
        *self.head = n;
        self.tail.count(n + 1);
    }
}

macro_rules! p14_list {
    ($l:expr) => {{
        let l = $l;
            let v = l.flat();
        let (last, init) = l.clone().split_last();
        ck!(last.flat() == v[v.len() - 1..], "split_last of {:?}: the last is {:?}", v, last.flat());
        ck!(init.flat() == v[..v.len() - 1], "split_last of {:?}: the others are {:?}", v, init.flat());
        let r = l.clone().reverse().flat();
        ck!(r.iter().rev().eq(v.iter()), "reverse of {:?}: {:?}", v, r);
        let r = l.clone().reverse().reverse().flat();
        ck!(r == v, "reversing {:?} twice: {:?}", v, r);
        ck!((&l).to_ref().flat() == v, "to_ref of {:?}: {:?}", v, (&l).to_ref().flat());
        let mut m = l;
        ck!((&mut m).to_mut().flat() == v, "to_mut of {:?}", v);
        (&mut m).to_mut().count(7);
        ck!(m.flat() == (7..7 + v.len() as u64).collect::<Vec<_>>(), "writing through to_mut: {:?}", m.flat());
    }};
}

pub fn p14(r: &mut Rng) -> R {
    let v: Vec<u64> = (0..6).map(|_| r.next()).collect();
    let l1 = Nil::cons(v[0]);
    let l2 = l1.cons(v[1]);
    let l3 = l2.cons(v[2]);
    let l4 = l3.cons(v[3]);
    let l5 = l4.cons(v[4]);
    let l6 = l5.cons(v[5]);
    let mut w = v.clone();
    w.reverse();
    ck!(l6.flat() == w, "elements put in front one after the other: {:?} {:?}", v, l6.flat());
    let (h, t) = l6.split_head();
    ck!(h == v[5] && t.flat() == l5.flat(), "split_head of {:?}: {:?} {:?}", w, h, t.flat());
    p14_list!(l1);
    p14_list!(l2);
    p14_list!(l3);
    p14_list!(l4);
    p14_list!(l5);
    p14_list!(l6);
    let e = Extend::ext(Nil, v[0]).flat();
    ck!(e == v[..1], "ext of nothing: {:?}", e);
    let e = Extend::ext(Nil, v[0]).ext_with(|| v[1]).ext(v[2]).flat();
    ck!(e == [v[2], v[1], v[0]], "ext: {:?}", e);
    ck!(<Cons<u8, Cons<u16, Nil>> as Extendable>::empty() == Nil && <Nil as Extendable>::empty() == Nil, "empty");
    Ok(())
}

// ------------------------------------------------------------------ things to work on
fn a_plan(seed: u64, i: u64) -> plan::Plan {
    plan::Gen::new(seed.wrapping_mul(7_368_787).wrapping_add(i), 0).plan(true)
}

/// A description: one the builders make, or one with other parts.
fn described(seed: u64, i: u64) -> Thing<X> {
    let mut t = plan::expected(&a_plan(seed, i));
    if i % 2 == 1 {
        crate::odd::thing(&mut Rng::new(seed ^ i.wrapping_mul(0x51_7CC1)), &mut t);
    }
    t
}

fn to_json<T: Serialize>(t: &T) -> Result<Value, String> {
    serde_json::to_value(t).map_err(|e| format!("cannot be written: {}", e))
}

fn text<T: Serialize>(t: &T) -> Result<String, String> {
    serde_json::to_string(t).map_err(|e| format!("cannot be written: {}", e))
}

fn read<T: DeserializeOwned>(s: &str) -> Result<T, String> {
    serde_json::from_str(s).map_err(|e| format!("cannot be read: {}\n{}", e, s))
}

/// Paths of all leaves and members of a value.
fn paths(v: &Value, here: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                here.push(k.clone());
                out.push(here.clone());
                paths(x, here, out);
                here.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                here.push(i.to_string());
                out.push(here.clone());
                paths(x, here, out);
                here.pop();
            }
        }
        _ => {}
    }
}

fn mutate(v: &mut Value, r: &mut Rng) -> String {
    let mut ps = vec![];
    paths(v, &mut vec![], &mut ps);
    if ps.is_empty() {
        return String::new();
    }
    let p = r.pick(&ps).clone();
    let mut x = v;
    for k in &p[..p.len() - 1] {
        x = match x {
            Value::Object(o) => o.get_mut(k).unwrap(),
            Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
            _ => unreachable!(),
        };
    }
    let k = p.last().unwrap();
    let remove = r.pct(40);
    let empty = r.pct(50);
    match x {
        Value::Object(o) if remove => {
            o.remove(k);
        }
        Value::Array(a) if remove => {
            a.remove(k.parse().unwrap());
        }
        _ => {
            let y = match x {
                Value::Object(o) => o.get_mut(k).unwrap(),
                Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
                _ => unreachable!(),
            };
            *y = match &*y {
                Value::Bool(b) => json!(!b),
                Value::Number(n) if n.is_u64() => json!(n.as_u64().unwrap().wrapping_add(1)),
                Value::Number(n) => json!(n.as_f64().unwrap() + 1.0),
                Value::String(s) => json!(match r.below(6) {
                    0 => s.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                    1 => format!("{} ", s),
                    2 => s.chars().take(s.chars().count().saturating_sub(1)).collect(),
                    3 => format!("x{}", s),
                    _ => format!("{}x", s),
                }),
                Value::Array(_) | Value::Object(_) if empty => match y {
                    Value::Array(_) => json!([]),
                    _ => json!({}),
                },
                Value::Array(a) => {
                    let mut a = a.clone();
                    if let Some(f) = a.first().cloned() {
                        a.push(f);
                    }
                    Value::Array(a)
                }
                Value::Null => json!(0),
                o => o.clone(),
            };
        }
    }
    p.join("/")
}

// ------------------------------------------------------------------ P19
pub fn p19(seed: u64, i: u64) -> R {
    let mut r = Rng::new(seed ^ i.wrapping_mul(0x1234_5677));
    if i < 8 {
        defaults()?;
    }
    let a = described(seed, i);
    let b = described(seed, i);
    let show = |w: String| Err(format!("{}\nthe description: {:#?}", w, a));
    if !(a == b) || a != b {
        return show("two descriptions made of the same parts are not equal".into());
    }
    // parts that are equal or not
    let ja = to_json(&a)?;
    if let Ok(back) = serde_json::from_value::<Thing<X>>(ja.clone()) {
        if plan::difference(&a, &back).is_none() && to_json(&back)? == ja {
            let mut jb = ja.clone();
            let at = mutate(&mut jb, &mut r);
            if let Ok(b) = serde_json::from_value::<Thing<X>>(jb) {
                let same = to_json(&b)? == ja;
                copies(&b)?;
                if (a == b) != same || (a != b) == same || (b == a) != same {
                    return show(format!("changed at {}: the contents are {}, but == gives {} and != gives {}", at, if same { "the same" } else { "different" }, a == b, a != b));
                }
            }
        }
    }
    copies(&a)
}

fn copies(a: &Thing<X>) -> R {
    let j = |x: &dyn erased::S| x.j();
    let mut form = Form::<X>::default();
    for f in a.forms.iter().flatten() {
        let mut g = form.clone();
        g.clone_from(f);
        ck!(g == *f && j(&g) == j(f), "{:?} after clone_from({:?}) is {:?}", form, f, g);
        form = f.clone();
    }
    macro_rules! same { ($it:expr) => { let mut last = None; for f in $it {
        if let Some(l) = &mut last {
            Clone::clone_from(l, f);
            ck!(l == f && j(l) == j(f), "after clone_from({:?}) there is {:?}", f, l);
        }
        last = Some(f.clone());
        ck!(f.clone() == *f && j(&f.clone()) == j(f), "the copy of {:?} is {:?}", f, f.clone());
    } } }
    same!(a.forms.iter().flatten());
    for f in a.properties.iter().flatten().flat_map(|x| &x.1.interaction.forms) {
        same!([f]);
    }
    for f in a.actions.iter().flatten().flat_map(|x| &x.1.interaction.forms) {
        same!([f]);
    }
    for f in a.events.iter().flatten().flat_map(|x| &x.1.interaction.forms) {
        same!([f]);
    }
    same!(a.links.iter().flatten());
    same!(a.security_definitions.values());
    same!(a.schema_definitions.iter().flatten().map(|x| x.1));
    same!(a.properties.iter().flatten().map(|x| &x.1.data_schema));
    same!(a.uri_variables.iter().flatten().map(|x| x.1));
    same!(a.version.iter());
    Ok(())
}

mod erased {
    pub trait S {
        fn j(&self) -> Option<serde_json::Value>;
    }
    impl<T: serde::Serialize> S for T {
        fn j(&self) -> Option<serde_json::Value> {
            serde_json::to_value(self).ok()
        }
    }
}

fn defaults() -> R {
    macro_rules! absent { ($t:expr; $($f:ident),*) => { let t = $t; $( ck!(t.$f.is_none(), "the default {} has {} {:?}", stringify!($t), stringify!($f), t.$f); )* } }
    let t = Thing::<X>::default();
    absent!(&t; id, attype, titles, description, descriptions, version, created, modified, support, base, properties, actions, events, links, forms, uri_variables, profile, schema_definitions);
    ck!(t.title.is_empty() && t.security.is_empty() && t.security_definitions.is_empty(), "the default description has content: {:?}", t);
    absent!(InteractionAffordance::<X>::default(); attype, title, titles, description, descriptions, uri_variables);
    ck!(InteractionAffordance::<X>::default().forms.is_empty(), "forms of the default affordance");
    absent!(PropertyAffordance::<X>::default(); observable);
    absent!(ActionAffordance::<X>::default(); input, output, synchronous);
    ck!(!ActionAffordance::<X>::default().safe && !ActionAffordance::<X>::default().idempotent, "flags of the default action");
    absent!(EventAffordance::<X>::default(); subscription, data, data_response, cancellation);
    absent!(DataSchema::<DS, AS, OS>::default(); attype, title, titles, description, descriptions, constant, default, unit, one_of, enumeration, format, subtype);
    ck!(!DataSchema::<DS, AS, OS>::default().read_only && !DataSchema::<DS, AS, OS>::default().write_only, "flags of the default schema");
    absent!(ArraySchema::<DS, AS, OS>::default(); items, min_items, max_items);
    absent!(ObjectSchema::<DS, AS, OS>::default(); properties, required);
    absent!(NumberSchema::default(); maximum, minimum, multiple_of);
    absent!(IntegerSchema::default(); maximum, minimum, multiple_of);
    absent!(StringSchema::default(); min_length, max_length, pattern, content_encoding, content_media_type);
    absent!(SecurityScheme::default(); attype, description, descriptions, proxy);
    absent!(BasicSecurityScheme::default(); name);
    absent!(DigestSecurityScheme::default(); name);
    absent!(ApiKeySecurityScheme::default(); name);
    absent!(BearerSecurityScheme::default(); authorization, name);
    absent!(PskSecurityScheme::default(); identity);
    absent!(OAuth2SecurityScheme::default(); authorization, token, refresh, scopes);
    absent!(Link::default(); ty, rel, anchor, sizes, hreflang);
    absent!(Form::<X>::default(); content_type, content_coding, subprotocol, security, scopes, response, additional_responses);
    absent!(AdditionalExpectedResponse::default(); content_type, schema);
    ck!(!AdditionalExpectedResponse::default().success, "flag of the default additional response");
    absent!(coap::Form::default(); method, blockwise, qblockwise, hop_limit, accept, content_format);
    absent!(coap::BlockWiseTransferParameters::default(); block2_size, block1_size);
    absent!(http::Form::default(); method_name);
    absent!(mqtt::Form::default(); control_packet, qos, topic);
    ck!(!mqtt::Form::default().retain && mqtt::Form::default().filter.is_empty(), "the default MQTT form");
    Ok(())
}

// ------------------------------------------------------------------ P15, P16, P18, P20
pub fn p15(seed: u64, i: u64) -> R {
    let t = described(seed, i);
    let want = Style::canon().thing(&t).value();
    let got = to_json(&t)?;
    if let Some(d) = json::diff("", &want, &got) {
        return Err(format!("{}\nthe description: {:#?}", d, t));
    }
    let s = text(&t)?;
    if let Some(k) = json::duplicate(&s) {
        return Err(format!("{:?} is written twice in\n{}", k, s));
    }
    let v: Value = read(&s)?;
    if let Some(d) = json::diff("", &want, &v) {
        return Err(format!("as text: {}\nthe description: {:#?}", d, t));
    }
    protocols(&mut Rng::new(seed ^ i))
}

pub fn p16(seed: u64, i: u64) -> R {
    let t = described(seed, i);
    let s = text(&t)?;
    let back: Thing<X> = read(&s).map_err(|e| format!("a description that was written {}", e))?;
    if let Some(d) = plan::difference(&t, &back) {
        return Err(format!("read back: {}\nfrom {}", d, s));
    }
    let back: Thing<X> = serde_json::from_value(to_json(&t)?).map_err(|e| format!("a description that was written cannot be read: {}\n{}", e, s))?;
    if let Some(d) = plan::difference(&t, &back) {
        return Err(format!("read back from a value: {}\nfrom {}", d, s));
    }
    protocols(&mut Rng::new(seed ^ i))
}

pub fn p18(seed: u64, i: u64) -> R {
    let t = described(seed, i);
    // anything that equals its default may be left out
    let mut st = if i % 3 == 0 { Style { r: None, defaults: false } } else { Style { r: Some(Rng::new(seed ^ i.wrapping_mul(77))), defaults: false } };
    let mut s = String::new();
    st.thing(&t).text(&mut s);
    let back: Thing<X> = read(&s).map_err(|e| format!("a description without optional parts {}", e))?;
    if let Some(d) = plan::difference(&t, &back) {
        return Err(format!("read with parts left out: {}\nfrom {}", d, s));
    }
    if i < 8 {
        minimal()?;
    }
    Ok(())
}

fn minimal() -> R {
    let t: Thing<X> = read(r#"{"title":"t","security":[],"securityDefinitions":{}}"#)?;
    let mut w = Thing::<X> { title: "t".into(), ..Default::default() };
    w.context = json!("https://www.w3.org/2022/wot/td/v1.1");
    if let Some(d) = plan::difference(&w, &t) {
        return Err(format!("the shortest description: {}", d));
    }
    let f: Form<X> = read(r#"{"href":"h"}"#)?;
    ck!(f == Form::<X> { href: "h".into(), ..Default::default() } && f.op == DefaultedFormOperations::Default, "the shortest form is {:?}", f);
    let f: Form<X> = read(r#"{"href":"h","op":null}"#)?;
    ck!(f.op == DefaultedFormOperations::Default, "no operations (null) are {:?}", f.op);
    let f: DataSchema<DS, AS, OS> = read("{}")?;
    ck!(f == Default::default(), "the shortest schema is {:?}", f);
    let f: AdditionalExpectedResponse = read("{}")?;
    ck!(f == Default::default() && !f.success, "the shortest response is {:?}", f);
    let f: ActionAffordance<X> = read(r#"{"forms":[]}"#)?;
    ck!(f == Default::default(), "the shortest action is {:?}", f);
    let f: PropertyAffordance<X> = read(r#"{"forms":[]}"#)?;
    ck!(f == Default::default(), "the shortest property is {:?}", f);
    let f: EventAffordance<X> = read(r#"{"forms":[]}"#)?;
    ck!(f == Default::default(), "the shortest event is {:?}", f);
    use SecurityAuthenticationLocation::*;
    for (n, k) in [
        ("nosec", KnownSecuritySchemeSubtype::NoSec),
        ("auto", KnownSecuritySchemeSubtype::Auto),
        ("basic", KnownSecuritySchemeSubtype::Basic(BasicSecurityScheme { location: Header, name: None })),
        ("digest", KnownSecuritySchemeSubtype::Digest(DigestSecurityScheme { qop: QualityOfProtection::Auth, location: Header, name: None })),
        ("apikey", KnownSecuritySchemeSubtype::ApiKey(ApiKeySecurityScheme { location: Query, name: None })),
        ("bearer", KnownSecuritySchemeSubtype::Bearer(BearerSecurityScheme { authorization: None, alg: "ES256".into(), format: "jwt".into(), location: Header, name: None })),
        ("psk", KnownSecuritySchemeSubtype::Psk(PskSecurityScheme { identity: None })),
    ] {
        let s: SecurityScheme = read(&format!(r#"{{"scheme":"{}"}}"#, n))?;
        let w = SecurityScheme { attype: None, description: None, descriptions: None, proxy: None, subtype: SecuritySchemeSubtype::Known(k) };
        ck!(s == w, "the shortest {} scheme is {:?}", n, s);
    }
    let s: SecurityScheme = read(r#"{"scheme":"oauth2","flow":"code"}"#)?;
    ck!(s.subtype == SecuritySchemeSubtype::Known(KnownSecuritySchemeSubtype::OAuth2(OAuth2SecurityScheme { authorization: None, token: None, refresh: None, scopes: None, flow: "code".into() })), "the shortest oauth2 scheme is {:?}", s);
    let h: http::Response = read("{}")?;
    ck!(h == http::Response::default(), "the shortest HTTP response is {:?}", h);
    let h: mqtt::Form = read("{}")?;
    ck!(h == mqtt::Form::default(), "the shortest MQTT form is {:?}", h);
    Ok(())
}

pub fn p20(seed: u64, i: u64) -> R {
    let t = described(seed, i);
    let mut st = Style { r: Some(Rng::new(seed ^ i.wrapping_mul(31))), defaults: true };
    let mut s = String::new();
    st.thing(&t).text(&mut s);
    let back: Thing<X> = read(&s).map_err(|e| format!("a description with single values and lists {}", e))?;
    if let Some(d) = plan::difference(&t, &back) {
        return Err(format!("read from single values and lists: {}\nfrom {}", d, s));
    }
    let want = Style::canon().thing(&t).value();
    if let Some(d) = json::diff("", &want, &to_json(&t)?) {
        return Err(format!("written: {}\nthe description: {:#?}", d, t));
    }
    Ok(())
}

// ------------------------------------------------------------------ P17
pub fn p17(r: &mut Rng) -> R {
    for (o, n) in json::OPS {
        ck!(o.to_string() == n, "{:?} is displayed as {}", o, o);
        for x in [format!("{o:#}"), format!("{o:+}"), format!("{o:0}")] {
            ck!(x == n, "{:?} is displayed as {} in other formats", o, x);
        }
        ck!(to_json(&o)? == json!(n), "{:?} is written as {}", o, to_json(&o)?);
        let b: Result<FormOperation, _> = serde_json::from_value(json!(n));
        ck!(matches!(&b, Ok(x) if *x == o), "{} is read as {:?}", n, b);
        let f = DefaultedFormOperations::Custom(vec![o]);
        ck!(to_json(&f)? == json!([n]) || to_json(&f)? == json!(n), "{:?} is written as {}", f, to_json(&f)?);
        // names close to a standard one
        let mut c: Vec<char> = n.chars().collect();
        match r.below(9) {
            5 => c = format!("{:?}", o).chars().collect(),
            6 => c = format!("{}{}", n[..1].to_string(), &format!("{:?}", o)[1..]).chars().collect(),
            7 => c.insert(0, ' '),
            8 => c.push(' '),
            0 => c[0] = c[0].to_ascii_uppercase(),
            1 => {
                let k = r.below(c.len());
                c.remove(k);
            }
            2 => {
                let k = r.below(c.len());
                let x = c[k];
                c.insert(k, x)
            }
            3 => c.push('s'),
            _ => {
                let k = r.below(c.len());
                c[k] = (b'a' + r.below(26) as u8) as char;
            }
        }
        let m: String = c.into_iter().collect();
        if !json::OPS.iter().any(|(_, x)| *x == m) {
            let b: Result<FormOperation, _> = serde_json::from_value(json!(m));
            ck!(b.is_err(), "{:?} is accepted as {:?}", m, b);
        }
    }
    // any other text of the sources, and parts of the names
    for m in crate::odd::words() {
        if !json::OPS.iter().any(|(_, x)| x == m) {
            ck!(serde_json::from_value::<FormOperation>(json!(m)).is_err(), "{:?} is accepted", m);
        }
    }
    let n = r.pick(&json::OPS).1;
    let (a, b) = (r.below(n.len()), r.below(n.len() + 1));
    let m = &n[a.min(b)..a.max(b)];
    if !json::OPS.iter().any(|(_, x)| *x == m) {
        ck!(serde_json::from_value::<FormOperation>(json!(m)).is_err(), "{:?} is accepted", m);
    }
    for m in ["", "read_property", "readProperty", "ReadProperty", "READPROPERTY", "read", "property", "readallproperty"] {
        ck!(serde_json::from_value::<FormOperation>(json!(m)).is_err(), "{:?} is accepted", m);
    }
    Ok(())
}

// ------------------------------------------------------------------ P21
fn both<T: Serialize + DeserializeOwned + PartialEq + Debug>(t: &T, canon: json::J, variant: json::J) -> R {
    let want = canon.value();
    let got = to_json(t)?;
    if let Some(d) = json::diff("", &want, &got) {
        return Err(format!("{}\nthe value: {:?}", d, t));
    }
    let s = text(t)?;
    if let Some(k) = json::duplicate(&s) {
        return Err(format!("{:?} is written twice in {}", k, s));
    }
    let b: T = read(&s)?;
    ck!(b == *t, "{} is read back as {:?}", s, b);
    let mut s = String::new();
    variant.text(&mut s);
    let b: T = read(&s)?;
    ck!(b == *t, "{} is read as {:?}, not {:?}", s, b, t);
    Ok(())
}

fn protocols(r: &mut Rng) -> R {
    let o = |r: &mut Rng| r.pct(50);
    let bw = |r: &mut Rng| coap::BlockWiseTransferParameters { block2_size: o(r).then(|| *r.pick(&json::BLOCKS)), block1_size: o(r).then(|| *r.pick(&json::BLOCKS)) };
    let st = |r: &mut Rng| Style { r: Some(Rng::new(r.next())), defaults: true };
    let strs = ["", "a", "topic/#", "\"\\", "\u{1F600}"];
    let f = coap::Form {
        method: o(r).then(|| *r.pick(&json::CMETHODS)),
        blockwise: o(r).then(|| bw(r)),
        qblockwise: o(r).then(|| bw(r)),
        hop_limit: o(r).then(|| r.next() as u8),
        accept: o(r).then(|| r.next() as u16),
        content_format: o(r).then(|| r.next() as u16),
    };
    both(&f, Style::canon().coap_form(&f), st(r).coap_form(&f))?;
    let f = coap::ExpectedResponse { content_format: o(r).then(|| r.next() as u16) };
    both(&f, Style::canon().coap_resp(&f), st(r).coap_resp(&f))?;
    let f = http::Form { method_name: o(r).then(|| *r.pick(&json::HMETHODS)) };
    both(&f, Style::canon().http_form(&f), st(r).http_form(&f))?;
    let f = http::Response {
        headers: (0..r.count(3)).map(|_| http::MessageHeader { field_name: o(r).then(|| r.pick(&strs).to_string()), field_value: o(r).then(|| r.pick(&strs).to_string()) }).collect(),
        status_code_value: o(r).then(|| r.next() as usize >> 12),
    };
    both(&f, Style::canon().http_resp(&f), st(r).http_resp(&f))?;
    let f = mqtt::Form {
        retain: o(r),
        control_packet: o(r).then(|| *r.pick(&[mqtt::ControlPacket::Publish, mqtt::ControlPacket::Subscribe, mqtt::ControlPacket::Unsubscribe])),
        qos: o(r).then(|| *r.pick(&[mqtt::QoS::AtMostOnce, mqtt::QoS::AtLeastOnce, mqtt::QoS::ExactlyOnce])),
        topic: o(r).then(|| r.pick(&strs).to_string()),
        filter: (0..r.count(3)).map(|_| r.pick(&strs).to_string()).collect(),
    };
    both(&f, Style::canon().mqtt_form(&f), st(r).mqtt_form(&f))?;
    Ok(())
}

pub fn p21(r: &mut Rng) -> R {
    protocols(r)?;
    fn refuses<T: DeserializeOwned + Debug>(v: Value) -> R {
        let x: Result<T, _> = serde_json::from_value(v.clone());
        ck!(x.is_err(), "{} is accepted as {:?}", v, x);
        Ok(())
    }
    let n = r.next() as u16;
    if ![16, 32, 64, 128, 256, 512, 1024].contains(&n) {
        refuses::<coap::BlockSize>(json!(n))?;
    }
    for n in [0, 1, 8, 15, 17, 33, 100, 2048, 1025] {
        refuses::<coap::BlockSize>(json!(n))?;
    }
    for m in ["get", "Get", "PATH", "IPATCH", "ipatch", "", "OPTIONS", "HEAD"] {
        refuses::<coap::Method>(json!(m))?;
        refuses::<http::Method>(json!(m))?;
    }
    let (h, k) = (["GET", "PUT", "POST", "DELETE", "PATCH"], ["FETCH", "iPATCH"]);
    let q = ["mqv:publish", "mqv:subscribe", "mqv:unsubscribe", "quality:0", "quality:1", "quality:2"];
    for m in crate::odd::words() {
        let m = m.as_str();
        if !h.contains(&m) {
            refuses::<http::Method>(json!(m))?;
            if !k.contains(&m) {
                refuses::<coap::Method>(json!(m))?;
            }
        }
        if !q[..3].contains(&m) {
            refuses::<mqtt::ControlPacket>(json!(m))?;
        }
        if !q[3..].contains(&m) {
            refuses::<mqtt::QoS>(json!(m))?;
        }
    }
    refuses::<http::Method>(json!("FETCH"))?;
    refuses::<http::Method>(json!("iPATCH"))?;
    for m in ["publish", "mqv:Publish", "subscribe", "mqv:pub", "", "quality:3", "0", "1", "quality:", "quality:00"] {
        refuses::<mqtt::ControlPacket>(json!(m))?;
        refuses::<mqtt::QoS>(json!(m))?;
    }
    refuses::<mqtt::QoS>(json!(0))?;
    // whole descriptions with a protocol
    let f: Form<coap::CoapProtocol> = read(r#"{"href":"h","cov:method":"iPATCH","cov:hopLimit":7}"#)?;
    ck!(f.other == coap::Form { method: Some(coap::Method::Ipatch), hop_limit: Some(7), ..Default::default() }, "CoAP part of a form: {:?}", f);
    ck!(to_json(&f)? == json!({"href":"h","cov:method":"iPATCH","cov:hopLimit":7}), "CoAP form written as {}", to_json(&f)?);
    let f: Form<http::HttpProtocol> = read(r#"{"href":"h","htv:methodName":"PUT","response":{"contentType":"c","htv:statusCodeValue":204}}"#)?;
    ck!(f.other.method_name == Some(http::Method::Put), "HTTP part of a form: {:?}", f);
    ck!(to_json(&f)? == json!({"href":"h","htv:methodName":"PUT","response":{"contentType":"c","htv:statusCodeValue":204}}), "HTTP form written as {}", to_json(&f)?);
    let f: Form<mqtt::MqttProtocol> = read(r#"{"href":"h","mqv:retain":true,"mqv:filter":"a/#"}"#)?;
    ck!(f.other.retain && f.other.filter == ["a/#"], "MQTT part of a form: {:?}", f);
    ck!(to_json(&f)? == json!({"href":"h","mqv:retain":true,"mqv:filter":"a/#"}), "MQTT form written as {}", to_json(&f)?);
    Ok(())
}
