"""Generates the roots crate of the builder methods from engine/setters.py."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/engine')
import setters

HEAD = '''// Generated by tools/mkroots.py from engine/setters.py.  Each function only calls one method.
#![allow(clippy::all, unused_imports)]
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_json::Value;
use std::borrow::Cow;
use time::OffsetDateTime;
use wot_td::{builder::*, extend::*, hlist::*, thing::*};

macro_rules! opaque { ($($n:ident = $k:literal),*) => { $(
    #[derive(Default)]
    pub struct $n(pub u64);
    impl Serialize for $n { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u64(self.0) } }
    impl<'de> Deserialize<'de> for $n { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { u64::deserialize(d).map($n) } }
    impl Extendable for $n { type Empty = $n; fn empty() -> $n { $n($k) } }
    impl Extend<XNew> for $n { type Target = X2<$n>; fn ext(self, t: XNew) -> X2<$n> { X2 { old: self, new: t } } }
)* } }
opaque!(XInter = 101, XProp = 102, XAct = 103, XEvt = 104, XForm = 105, XResp = 106, XData = 107, XObj = 108, XArr = 109, XNew = 110);
#[derive(Default, Serialize, Deserialize)]
pub struct X2<T> { pub old: T, pub new: XNew }
#[derive(Default, Serialize, Deserialize)]
pub struct Ext { pub tag: u64 }
#[derive(Serialize, Deserialize)]
pub struct Ext2 { pub old: Ext, pub new: XNew }
macro_rules! thing { ($($t:ty),*) => { $(
    impl ExtendableThing for $t {
        type InteractionAffordance = XInter;
        type PropertyAffordance = XProp;
        type ActionAffordance = XAct;
        type EventAffordance = XEvt;
        type Form = XForm;
        type ExpectedResponse = XResp;
        type DataSchema = XData;
        type ObjectSchema = XObj;
        type ArraySchema = XArr;
    }
)* } }
thing!(Ext, Ext2);
impl Extendable for Ext { type Empty = Ext; fn empty() -> Ext { Ext { tag: 101 } } }
impl Extend<XNew> for Ext { type Target = Ext2; fn ext(self, t: XNew) -> Ext2 { Ext2 { old: self, new: t } } }

'''

out = HEAD
for x in setters.ENTRIES:
    out += 'pub fn root_%s(%s) -> %s { %s }\n' % (x.name, ', '.join('%s: %s' % p for p in x.params), x.ret, x.body)
for n, _, t in setters.DIRECT:
    out += 'pub fn root_%s(b: %s) -> Result<wot_td::thing::DataSchema<%s>, Error> { b.try_into() }\n' % (n, t, setters.SO)
with open(HERE + '/roots_set/src/lib.rs', 'w') as f:
    f.write(out)
print(len(setters.ENTRIES), 'roots')

import values
import ser_units
for crate, mod in (('roots_val', values), ('roots_ser', ser_units)):
    out = mod.HEAD
    rs = mod.roots()
    for n, ps, r, body in rs:
        out += 'pub fn root_%s(%s)%s { %s }\n' % (n, ps, '' if r == '()' else ' -> ' + r, body)
    os.makedirs('%s/%s/src' % (HERE, crate), exist_ok=True)
    with open('%s/%s/src/lib.rs' % (HERE, crate), 'w') as f:
        f.write(out)
    print(len(rs), 'roots')
