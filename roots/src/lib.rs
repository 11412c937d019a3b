use wot_td::{builder::*, extend::*, hlist::*, thing::*};
use serde::{Serialize, Deserialize, Serializer, Deserializer};

macro_rules! opaque { ($($n:ident),*) => { $(
    pub struct $n(pub u64);
    impl Serialize for $n { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u64(self.0) } }
    impl<'de> Deserialize<'de> for $n { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { u64::deserialize(d).map($n) } }
)* } }
opaque!(XInter, XProp, XAct, XEvt, XForm, XResp, XData, XObj, XArr);
#[derive(Serialize, Deserialize)]
pub struct Ext { pub tag: u64 }
impl ExtendableThing for Ext {
    type InteractionAffordance = XInter;
    type PropertyAffordance = XProp;
    type ActionAffordance = XAct;
    type EventAffordance = XEvt;
    type Form = XForm;
    type ExpectedResponse = XResp;
    type DataSchema = XData;
    type ObjectSchema = XObj;
    type ArraySchema = XArr;
}
pub fn root_build(b: ThingBuilder<Ext, Extended>) -> Result<Thing<Ext>, Error> { b.build() }
