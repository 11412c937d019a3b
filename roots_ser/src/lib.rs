// Generated by tools/mkroots.py.  Each function only calls one operation.
#![allow(clippy::all, unused_imports, dead_code)]
use serde::{Deserialize, Deserializer, Serialize, Serializer, ser::SerializeMap};
use wot_td::{builder::*, extend::*, hlist::*, protocol::{coap, http, mqtt}, thing::*};
mod rec;
use rec::*;

// Extension values: each writes one entry of its own, whose content the verifier knows nothing about.
pub struct Content(pub u64);
impl Serialize for Content { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u64(self.0) } }
impl<'de> Deserialize<'de> for Content { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { u64::deserialize(d).map(Content) } }
macro_rules! opaque { ($($n:ident),*) => { $(
    pub struct $n(pub Content);
    impl Serialize for $n {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            let mut m = s.serialize_map(Some(1))?;
            m.serialize_entry(concat!("*", stringify!($n)), &self.0)?;
            m.end()
        }
    }
    impl<'de> Deserialize<'de> for $n { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Content::deserialize(d).map($n) } }
)* } }
opaque!(Ext, XInter, XProp, XAct, XEvt, XForm, XResp, XData, XObj, XArr);
impl ExtendableThing for Ext {
    type InteractionAffordance = XInter;
    type PropertyAffordance = XProp;
    type ActionAffordance = XAct;
    type EventAffordance = XEvt;
    type Form = XForm;
    type ExpectedResponse = XResp;
    type DataSchema = XData;
    type ObjectSchema = XObj;
    type ArraySchema = XArr;
}

pub fn root_ser_thing(a: &Thing<Ext>) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_inter(a: &InteractionAffordance<Ext>) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_prop(a: &PropertyAffordance<Ext>) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_act(a: &ActionAffordance<Ext>) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_evt(a: &EventAffordance<Ext>) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_version(a: &VersionInfo) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_ds(a: &DataSchema<XData, XArr, XObj>) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_dsub(a: &DataSchemaSubtype<XData, XArr, XObj>) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_arr(a: &ArraySchema<XData, XArr, XObj>) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_elems(a: &BoxedElemOrVec<DataSchema<XData, XArr, XObj>>) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_minf(a: &Minimum<f64>) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_maxf(a: &Maximum<f64>) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_mini(a: &Minimum<i64>) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_maxi(a: &Maximum<i64>) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_num(a: &NumberSchema) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_int(a: &IntegerSchema) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_obj(a: &ObjectSchema<XData, XArr, XObj>) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_str(a: &StringSchema) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_sec(a: &SecurityScheme) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_known(a: &KnownSecuritySchemeSubtype) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_unknown(a: &UnknownSecuritySchemeSubtype) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_secsub(a: &SecuritySchemeSubtype) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_combo(a: &ComboSecurityScheme) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_basic(a: &BasicSecurityScheme) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_loc(a: &SecurityAuthenticationLocation) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_digest(a: &DigestSecurityScheme) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_qop(a: &QualityOfProtection) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_apikey(a: &ApiKeySecurityScheme) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_bearer(a: &BearerSecurityScheme) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_psk(a: &PskSecurityScheme) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_oauth2(a: &OAuth2SecurityScheme) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_link(a: &Link) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_form(a: &Form<Ext>) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_op(a: &FormOperation) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_ops(a: &DefaultedFormOperations) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_resp(a: &ExpectedResponse<XResp>) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_addresp(a: &AdditionalExpectedResponse) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_nil(a: &Nil) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_cons(a: &Cons<XData, XArr>) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_coap_method(a: &coap::Method) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_coap_size(a: &coap::BlockSize) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_coap_block(a: &coap::BlockWiseTransferParameters) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_coap_form(a: &coap::Form) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_coap_resp(a: &coap::ExpectedResponse) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_coap_proto(a: &coap::CoapProtocol) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_http_method(a: &http::Method) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_http_header(a: &http::MessageHeader) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_http_resp(a: &http::Response) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_http_form(a: &http::Form) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_http_proto(a: &http::HttpProtocol) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_mqtt_packet(a: &mqtt::ControlPacket) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_mqtt_qos(a: &mqtt::QoS) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_mqtt_form(a: &mqtt::Form) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_ser_mqtt_proto(a: &mqtt::MqttProtocol) -> Result<Tree, E> { a.serialize(Rec) }
pub fn root_de_thing(t: Tree) -> Result<Thing<Ext>, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_inter(t: Tree) -> Result<InteractionAffordance<Ext>, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_prop(t: Tree) -> Result<PropertyAffordance<Ext>, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_act(t: Tree) -> Result<ActionAffordance<Ext>, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_evt(t: Tree) -> Result<EventAffordance<Ext>, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_version(t: Tree) -> Result<VersionInfo, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_ds(t: Tree) -> Result<DataSchema<XData, XArr, XObj>, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_dsub(t: Tree) -> Result<DataSchemaSubtype<XData, XArr, XObj>, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_arr(t: Tree) -> Result<ArraySchema<XData, XArr, XObj>, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_elems(t: Tree) -> Result<BoxedElemOrVec<DataSchema<XData, XArr, XObj>>, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_minf(t: Tree) -> Result<Minimum<f64>, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_maxf(t: Tree) -> Result<Maximum<f64>, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_mini(t: Tree) -> Result<Minimum<i64>, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_maxi(t: Tree) -> Result<Maximum<i64>, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_num(t: Tree) -> Result<NumberSchema, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_int(t: Tree) -> Result<IntegerSchema, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_obj(t: Tree) -> Result<ObjectSchema<XData, XArr, XObj>, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_str(t: Tree) -> Result<StringSchema, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_sec(t: Tree) -> Result<SecurityScheme, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_known(t: Tree) -> Result<KnownSecuritySchemeSubtype, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_unknown(t: Tree) -> Result<UnknownSecuritySchemeSubtype, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_secsub(t: Tree) -> Result<SecuritySchemeSubtype, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_combo(t: Tree) -> Result<ComboSecurityScheme, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_basic(t: Tree) -> Result<BasicSecurityScheme, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_loc(t: Tree) -> Result<SecurityAuthenticationLocation, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_digest(t: Tree) -> Result<DigestSecurityScheme, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_qop(t: Tree) -> Result<QualityOfProtection, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_apikey(t: Tree) -> Result<ApiKeySecurityScheme, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_bearer(t: Tree) -> Result<BearerSecurityScheme, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_psk(t: Tree) -> Result<PskSecurityScheme, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_oauth2(t: Tree) -> Result<OAuth2SecurityScheme, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_link(t: Tree) -> Result<Link, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_form(t: Tree) -> Result<Form<Ext>, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_op(t: Tree) -> Result<FormOperation, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_ops(t: Tree) -> Result<DefaultedFormOperations, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_resp(t: Tree) -> Result<ExpectedResponse<XResp>, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_addresp(t: Tree) -> Result<AdditionalExpectedResponse, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_nil(t: Tree) -> Result<Nil, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_cons(t: Tree) -> Result<Cons<XData, XArr>, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_coap_method(t: Tree) -> Result<coap::Method, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_coap_size(t: Tree) -> Result<coap::BlockSize, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_coap_block(t: Tree) -> Result<coap::BlockWiseTransferParameters, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_coap_form(t: Tree) -> Result<coap::Form, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_coap_resp(t: Tree) -> Result<coap::ExpectedResponse, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_coap_proto(t: Tree) -> Result<coap::CoapProtocol, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_http_method(t: Tree) -> Result<http::Method, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_http_header(t: Tree) -> Result<http::MessageHeader, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_http_resp(t: Tree) -> Result<http::Response, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_http_form(t: Tree) -> Result<http::Form, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_http_proto(t: Tree) -> Result<http::HttpProtocol, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_mqtt_packet(t: Tree) -> Result<mqtt::ControlPacket, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_mqtt_qos(t: Tree) -> Result<mqtt::QoS, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_mqtt_form(t: Tree) -> Result<mqtt::Form, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_de_mqtt_proto(t: Tree) -> Result<mqtt::MqttProtocol, E> { Deserialize::deserialize(TreeDe(t)) }
pub fn root_fmt_op(a: &FormOperation, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(a, f) }
