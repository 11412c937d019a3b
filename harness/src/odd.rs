//! Values the builders do not make (or seldom make): any part present, absent or empty.
use crate::ext::*;
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::OnceLock;
use wot_td::thing::*;

type S = DataSchema<DS, AS, OS>;

/// The texts that occur in the sources of the crate.
pub fn words() -> &'static [String] {
    static W: OnceLock<Vec<String>> = OnceLock::new();
    W.get_or_init(|| {
        let mut out = vec![];
        fn walk(d: &std::path::Path, out: &mut Vec<String>) {
            let Ok(es) = std::fs::read_dir(d) else { return };
            let mut es: Vec<_> = es.flatten().map(|e| e.path()).collect();
            es.sort();
            for p in es {
                if p.is_dir() {
                    walk(&p, out);
                } else if let Ok(t) = std::fs::read_to_string(&p) {
                    for (i, w) in t.split('"').enumerate() {
                        if i > 0 && w.len() < 40 && !w.contains('\n') {
                            out.push(w.replace('\\', ""));
                        }
                    }
                }
            }
        }
        walk(std::path::Path::new("/repo/src"), &mut out);
        out.sort();
        out.dedup();
        out.push(String::new());
        out
    })
}

/// The texts, characters and numbers of the code itself (no comments, no tests).
fn literals() -> (Vec<String>, Vec<usize>) {
    let mut files = vec![];
    fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            if e.path().is_dir() {
                walk(&e.path(), out);
            } else {
                out.push(e.path());
            }
        }
    }
    walk(std::path::Path::new("/repo/src"), &mut files);
    files.sort();
    let (mut words, mut nums) = (vec![], vec![]);
    for f in files {
        let Ok(t) = std::fs::read_to_string(f) else { continue };
        for l in t.lines() {
            if l.trim_start().starts_with("//") {
                continue;
            }
            if l.starts_with("mod test") {
                break;
            }
            for (i, w) in l.split('"').enumerate() {
                if i % 2 == 1 {
                    if w.len() < 60 {
                        words.push(w.to_string());
                    }
                    continue;
                }
                for (j, w) in w.split('\'').enumerate() {
                    if j % 2 == 1 && w.chars().count() == 1 {
                        words.push(w.to_string());
                    }
                }
                for w in w.split(|c: char| !c.is_ascii_alphanumeric() && c != '_') {
                    if w.starts_with(|c: char| c.is_ascii_digit()) {
                        if let Ok(n) = w.trim_end_matches(|c: char| c.is_ascii_alphabetic() || c == '_').parse() {
                            nums.push(n);
                        }
                    }
                }
            }
        }
    }
    words.sort();
    words.dedup();
    nums.sort();
    nums.dedup();
    (words, nums)
}

/// For `harness literals`: what the code of the unchanged tree holds.
pub fn show_literals() {
    let (w, n) = literals();
    println!("{}", json!([w, n]));
}

/// Literals that the code did not hold when this was made: worth trying.
fn new_literals() -> &'static (Vec<String>, Vec<usize>) {
    static W: OnceLock<(Vec<String>, Vec<usize>)> = OnceLock::new();
    W.get_or_init(|| {
        let known: (Vec<String>, Vec<usize>) = serde_json::from_str(include_str!("known_literals.json")).unwrap();
        let (mut w, mut n) = literals();
        w.retain(|x| !known.0.contains(x));
        n.retain(|x| !known.1.contains(x) && *x < 65);
        (w, n)
    })
}

/// Sometimes: a text with a new literal of the code in it, or as long as a new number says.
pub fn new_word(r: &mut Rng) -> Option<String> {
    let (w, n) = new_literals();
    if !w.is_empty() && r.pct(12) {
        let w = r.pick(w).clone();
        return Some(match r.below(6) {
            0 => format!("{w}x"),
            1 => format!("x{w}"),
            2 => format!("x{w}y"),
            _ => w,
        });
    }
    if !n.is_empty() && r.pct(4) {
        let k = (*r.pick(n) + r.below(3)).saturating_sub(1);
        return Some("a".repeat(k));
    }
    None
}

/// Sometimes: a length around a number new in the code.
pub fn new_length(r: &mut Rng) -> Option<usize> {
    let n = &new_literals().1;
    (!n.is_empty() && r.pct(5)).then(|| (*r.pick(n) + r.below(3)).saturating_sub(1).min(20))
}

pub fn word(r: &mut Rng) -> String {
    if let Some(w) = new_word(r) {
        return w;
    }
    match r.below(6) {
        0 => r.pick(words()).clone(),
        1 => String::new(),
        2 => "\"\\\n\u{0}\u{1F600}".into(),
        3 => format!("w{}", r.below(1000)),
        _ => r.pick(&["null", "true", "1", "a b", "x"]).to_string(),
    }
}

fn list<T>(r: &mut Rng, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let n = *r.pick(&[0, 0, 1, 1, 2, 3]);
    (0..n).map(|_| f(r)).collect()
}

fn words_of(r: &mut Rng) -> Vec<String> {
    let mut l = list(r, word);
    if l.len() > 1 && r.pct(30) {
        l[1] = l[0].clone();
    }
    l
}

/// Sometimes: another value, or none.
fn o<T>(r: &mut Rng, v: &mut Option<T>, f: impl FnOnce(&mut Rng) -> T) {
    if r.pct(15) {
        *v = if r.pct(25) { None } else { Some(f(r)) };
    }
}

/// The values of a map, in the order of their names: a description depends on its seed only.
fn in_order<T>(m: &mut HashMap<String, T>) -> Vec<&mut T> {
    let mut l: Vec<_> = m.iter_mut().collect();
    l.sort_by(|a, b| a.0.cmp(b.0));
    l.into_iter().map(|(_, v)| v).collect()
}

fn m<T>(r: &mut Rng, v: &mut Option<HashMap<String, T>>) {
    if v.is_none() {
        o(r, v, |_| HashMap::new());
    }
}

fn json(r: &mut Rng) -> Value {
    match r.below(8) {
        0 => Value::Null,
        1 => json!({}),
        2 => json!([]),
        3 => json!(word(r)),
        4 => json!({ word(r): null, "type": [{}] }),
        5 => json!(r.next()),
        6 => json!(-3),
        _ => json!([word(r), false, null, 0.5]),
    }
}

fn langs(r: &mut Rng) -> MultiLang {
    list(r, |r| (oxilangtag::LanguageTag::parse(r.pick(&["it", "en", "de-CH", "zh-hant"]).to_string()).unwrap(), word(r))).into_iter().collect()
}
type MultiLang = HashMap<oxilangtag::LanguageTag<String>, String>;

pub fn schema(r: &mut Rng, s: &mut S, depth: usize) {
    o(r, &mut s.attype, words_of);
    o(r, &mut s.title, word);
    o(r, &mut s.titles, langs);
    o(r, &mut s.description, word);
    o(r, &mut s.descriptions, langs);
    o(r, &mut s.constant, json);
    o(r, &mut s.default, json);
    o(r, &mut s.unit, word);
    o(r, &mut s.enumeration, |r| list(r, json));
    o(r, &mut s.format, word);
    if r.pct(10) {
        s.read_only = !s.read_only;
    }
    if r.pct(10) {
        s.write_only = !s.write_only;
    }
    if depth < 3 {
        o(r, &mut s.one_of, |r| list(r, |r| fresh(r, depth + 1)));
    }
    if r.pct(15) {
        s.subtype = match r.below(8) {
            0 => None,
            1 => Some(DataSchemaSubtype::Boolean),
            2 => Some(DataSchemaSubtype::Null),
            3 => Some(DataSchemaSubtype::Array(Default::default())),
            4 => Some(DataSchemaSubtype::Object(Default::default())),
            5 => Some(DataSchemaSubtype::String(Default::default())),
            6 => Some(DataSchemaSubtype::Number(Default::default())),
            _ => Some(DataSchemaSubtype::Integer(Default::default())),
        };
    }
    let n = |r: &mut Rng| *r.pick(&[0, 1, 7, u32::MAX]);
    match &mut s.subtype {
        Some(DataSchemaSubtype::Array(a)) => {
            o(r, &mut a.min_items, n);
            o(r, &mut a.max_items, n);
            if depth < 3 {
                o(r, &mut a.items, |r| match r.pct(40) {
                    true => BoxedElemOrVec::Elem(Box::new(fresh(r, depth + 1))),
                    false => BoxedElemOrVec::Vec(list(r, |r| fresh(r, depth + 1))),
                });
            }
        }
        Some(DataSchemaSubtype::Object(b)) => {
            o(r, &mut b.required, words_of);
            m(r, &mut b.properties);
            if depth < 3 {
                o(r, &mut b.properties, |r| list(r, |r| (word(r), fresh(r, depth + 1))).into_iter().collect());
            }
        }
        Some(DataSchemaSubtype::String(t)) => {
            o(r, &mut t.min_length, n);
            o(r, &mut t.max_length, n);
            o(r, &mut t.pattern, word);
            o(r, &mut t.content_encoding, word);
            o(r, &mut t.content_media_type, word);
        }
        Some(DataSchemaSubtype::Number(t)) => {
            let f = |r: &mut Rng| *r.pick(&[0.0, -0.0, 1.5, -2.0, 1e10, 0.125, -1e-3]);
            o(r, &mut t.multiple_of, f);
            o(r, &mut t.maximum, |r| if r.pct(50) { Maximum::Inclusive(f(r)) } else { Maximum::Exclusive(f(r)) });
            o(r, &mut t.minimum, |r| if r.pct(50) { Minimum::Inclusive(f(r)) } else { Minimum::Exclusive(f(r)) });
        }
        Some(DataSchemaSubtype::Integer(t)) => {
            let f = |r: &mut Rng| *r.pick(&[0, -1, 1, i64::MIN, i64::MAX, 1 << 53, (1 << 53) + 1]);
            o(r, &mut t.multiple_of, |r| std::num::NonZeroU64::new(*r.pick(&[1, 2, u64::MAX])).unwrap());
            o(r, &mut t.maximum, |r| if r.pct(50) { Maximum::Inclusive(f(r)) } else { Maximum::Exclusive(f(r)) });
            o(r, &mut t.minimum, |r| if r.pct(50) { Minimum::Inclusive(f(r)) } else { Minimum::Exclusive(f(r)) });
        }
        _ => {}
    }
}

fn fresh(r: &mut Rng, depth: usize) -> S {
    let mut s = S::default();
    schema(r, &mut s, depth);
    s
}

fn form(r: &mut Rng, f: &mut Form<X>) {
    o(r, &mut f.content_type, word);
    o(r, &mut f.content_coding, word);
    o(r, &mut f.subprotocol, word);
    o(r, &mut f.security, words_of);
    o(r, &mut f.scopes, words_of);
    o(r, &mut f.response, |r| ExpectedResponse { content_type: word(r), other: c(XResp { v: None }) });
    o(r, &mut f.additional_responses, |r| {
        list(r, |r| {
            let mut a = AdditionalExpectedResponse { success: r.pct(50), ..Default::default() };
            o(r, &mut a.content_type, word);
            o(r, &mut a.schema, word);
            a
        })
    });
    if r.pct(10) {
        let ops: Vec<_> = (0..r.below(4)).map(|_| r.pick(&crate::json::OPS).0).collect();
        f.op = if r.pct(30) { DefaultedFormOperations::Default } else { DefaultedFormOperations::Custom(if r.pct(30) && !ops.is_empty() { vec![ops[0], ops[0]] } else { ops }) };
    }
}

fn inter(r: &mut Rng, i: &mut InteractionAffordance<X>) {
    o(r, &mut i.attype, words_of);
    o(r, &mut i.title, word);
    o(r, &mut i.titles, langs);
    o(r, &mut i.description, word);
    o(r, &mut i.descriptions, langs);
    m(r, &mut i.uri_variables);
    for f in &mut i.forms {
        form(r, f);
    }
    if r.pct(5) {
        i.forms.clear();
    }
    for s in i.uri_variables.iter_mut().flat_map(in_order) {
        schema(r, s, 0);
    }
}

fn security(r: &mut Rng, s: &mut SecurityScheme) {
    use KnownSecuritySchemeSubtype::*;
    o(r, &mut s.attype, words_of);
    o(r, &mut s.description, word);
    o(r, &mut s.descriptions, langs);
    o(r, &mut s.proxy, word);
    if r.pct(20) {
        s.subtype = SecuritySchemeSubtype::Known(match r.below(9) {
            0 => NoSec,
            1 => Auto,
            2 => Combo(if r.pct(50) { ComboSecurityScheme::OneOf(words_of(r)) } else { ComboSecurityScheme::AllOf(words_of(r)) }),
            3 => Basic(Default::default()),
            4 => Digest(Default::default()),
            5 => Bearer(Default::default()),
            6 => Psk(Default::default()),
            7 => OAuth2(OAuth2SecurityScheme::new(word(r))),
            _ => ApiKey(Default::default()),
        });
    } else if r.pct(10) {
        let data = if r.pct(30) { Value::Null } else { json!({ format!("k{}", r.below(9)): json(r), "in": json(r) }) };
        s.subtype = SecuritySchemeSubtype::Unknown(UnknownSecuritySchemeSubtype { scheme: format!("x:{}", word(r)), data });
    }
    use SecurityAuthenticationLocation as L;
    let l = |r: &mut Rng| r.pick(&[L::Header, L::Query, L::Body, L::Cookie, L::Uri]).clone();
    if let SecuritySchemeSubtype::Known(k) = &mut s.subtype {
        match k {
            Basic(b) => {
                o(r, &mut b.name, word);
                b.location = l(r);
            }
            Digest(b) => {
                o(r, &mut b.name, word);
                b.location = l(r);
                b.qop = if r.pct(50) { QualityOfProtection::Auth } else { QualityOfProtection::AuthInt };
            }
            ApiKey(b) => {
                o(r, &mut b.name, word);
                b.location = l(r);
            }
            Bearer(b) => {
                o(r, &mut b.name, word);
                b.location = l(r);
                o(r, &mut b.authorization, word);
                if r.pct(10) {
                    b.alg = word(r).into();
                }
                if r.pct(10) {
                    b.format = word(r).into();
                }
            }
            Psk(b) => o(r, &mut b.identity, word),
            OAuth2(b) => {
                o(r, &mut b.authorization, word);
                o(r, &mut b.token, word);
                o(r, &mut b.refresh, word);
                o(r, &mut b.scopes, words_of);
                if r.pct(20) {
                    b.flow = if r.pct(50) { String::new() } else { word(r) };
                }
            }
            _ => {}
        }
    }
}

fn link(r: &mut Rng, l: &mut Link) {
    o(r, &mut l.ty, word);
    o(r, &mut l.rel, word);
    o(r, &mut l.anchor, word);
    o(r, &mut l.sizes, word);
    o(r, &mut l.hreflang, |r| list(r, |r| oxilangtag::LanguageTag::parse(r.pick(&["it", "en", "de-CH"]).to_string()).unwrap()));
}

pub fn thing(r: &mut Rng, t: &mut Thing<X>) {
    o(r, &mut t.id, word);
    o(r, &mut t.attype, words_of);
    o(r, &mut t.titles, langs);
    o(r, &mut t.description, word);
    o(r, &mut t.descriptions, langs);
    o(r, &mut t.support, word);
    o(r, &mut t.base, word);
    o(r, &mut t.profile, words_of);
    o(r, &mut t.version, |r| VersionInfo { instance: word(r), model: r.pct(50).then(|| word(r)) });
    if r.pct(10) {
        t.context = json(r);
        if r.pct(30) {
            t.context = json!("https://www.w3.org/2022/wot/td/v1.1");
        }
    }
    if r.pct(10) {
        t.security = words_of(r);
    }
    m(r, &mut t.properties);
    m(r, &mut t.actions);
    m(r, &mut t.events);
    m(r, &mut t.uri_variables);
    m(r, &mut t.schema_definitions);
    if t.links.is_none() {
        o(r, &mut t.links, |_| vec![]);
    }
    if t.forms.is_none() {
        o(r, &mut t.forms, |_| vec![]);
    }
    for f in t.forms.iter_mut().flatten() {
        form(r, f);
    }
    for l in t.links.iter_mut().flatten() {
        link(r, l);
    }
    for s in in_order(&mut t.security_definitions) {
        security(r, s);
    }
    for s in t.uri_variables.iter_mut().chain(t.schema_definitions.iter_mut()).flat_map(in_order) {
        schema(r, s, 0);
    }
    for p in t.properties.iter_mut().flat_map(in_order) {
        inter(r, &mut p.interaction);
        schema(r, &mut p.data_schema, 0);
        o(r, &mut p.observable, |r| r.pct(50));
        let (i, d) = (&p.interaction, &mut p.data_schema);
        d.attype = i.attype.clone();
        d.title = i.title.clone();
        d.titles = i.titles.clone();
        d.description = i.description.clone();
        d.descriptions = i.descriptions.clone();
    }
    for a in t.actions.iter_mut().flat_map(in_order) {
        inter(r, &mut a.interaction);
        o(r, &mut a.input, |r| fresh(r, 0));
        o(r, &mut a.output, |r| fresh(r, 0));
        o(r, &mut a.synchronous, |r| r.pct(50));
        if r.pct(10) {
            a.safe = !a.safe;
        }
        if r.pct(10) {
            a.idempotent = !a.idempotent;
        }
    }
    for e in t.events.iter_mut().flat_map(in_order) {
        inter(r, &mut e.interaction);
        o(r, &mut e.subscription, |r| fresh(r, 0));
        o(r, &mut e.data, |r| fresh(r, 0));
        o(r, &mut e.data_response, |r| fresh(r, 0));
        o(r, &mut e.cancellation, |r| fresh(r, 0));
    }
}
