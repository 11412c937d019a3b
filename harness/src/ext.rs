//! Extensions with one optional field at every extension point.
use serde::{Deserialize, Serialize};
use wot_td::{
    extend::ExtendableThing,
    hlist::{Cons, Nil},
};

macro_rules! piece {
    ($($n:ident = $k:literal),* $(,)?) => { $(
        #[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
        pub struct $n {
            #[serde(rename = $k, default, skip_serializing_if = "Option::is_none")]
            pub v: Option<u64>,
        }
        impl $n {
            pub const KEY: &'static str = $k;
        }
    )* };
}
piece!(E = "x:thing", XInter = "x:inter", XProp = "x:prop", XAct = "x:act", XEvt = "x:evt", XForm = "x:form", XResp = "x:resp", XData = "x:data", XObj = "x:obj", XArr = "x:arr");

impl ExtendableThing for E {
    type InteractionAffordance = XInter;
    type PropertyAffordance = XProp;
    type ActionAffordance = XAct;
    type EventAffordance = XEvt;
    type Form = XForm;
    type ExpectedResponse = XResp;
    type DataSchema = XData;
    type ObjectSchema = XObj;
    type ArraySchema = XArr;
}

pub type X = Cons<E, Nil>;
pub type DS = Cons<XData, Nil>;
pub type AS = Cons<XArr, Nil>;
pub type OS = Cons<XObj, Nil>;

pub fn c<T>(t: T) -> Cons<T, Nil> {
    Nil::cons(t)
}
