// Generated by tools/mkroots.py from engine/values.py.  Each function only calls one operation.
#![allow(clippy::all, unused_imports, dead_code)]
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cmp::Ordering;
use wot_td::{builder::*, extend::*, hlist::*, protocol::{coap, http, mqtt}, thing::*};

// Extension types: what their operations do is not known to the verifier.
macro_rules! opaque { ($($n:ident),*) => { $(
    pub struct $n(pub u64);
    impl Serialize for $n { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u64(self.0) } }
    impl<'de> Deserialize<'de> for $n { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { u64::deserialize(d).map($n) } }
    impl Clone for $n { fn clone(&self) -> Self { $n(self.0) } }
    impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl Default for $n { fn default() -> Self { $n(0) } }
)* } }
opaque!(Ext, XInter, XProp, XAct, XEvt, XForm, XResp, XData, XObj, XArr);
impl ExtendableThing for Ext {
    type InteractionAffordance = XInter;
    type PropertyAffordance = XProp;
    type ActionAffordance = XAct;
    type EventAffordance = XEvt;
    type Form = XForm;
    type ExpectedResponse = XResp;
    type DataSchema = XData;
    type ObjectSchema = XObj;
    type ArraySchema = XArr;
}

// Elements and an arbitrary non-empty tail of a list.
macro_rules! elems { ($($n:ident),*) => { $( pub struct $n(u64); )* } }
elems!(E0, E1, E2, E3, E4, E5, Tail, TLast, TInit, TInitLast, TRef, TMut);
pub fn abs_tail_split(t: Tail) -> (TLast, TInit) { let _ = t; loop {} }
pub fn abs_init_split(t: TInit) -> (TInitLast, Nil) { let _ = t; loop {} }
pub fn abs_tail_reverse(t: Tail) -> TRef { let _ = t; loop {} }
pub fn abs_init_reverse(t: TInit) -> Nil { let _ = t; loop {} }
pub fn abs_tail_ref(t: &'static Tail) -> TRef { let _ = t; loop {} }
impl NonEmptyHList for Tail {
    type Init = TInit; type Last = TLast; type Reversed = TRef;
    fn split_last(self) -> (TLast, TInit) { abs_tail_split(self) }
    fn reverse(self) -> TRef { abs_tail_reverse(self) }
}
impl NonEmptyHList for TInit {
    type Init = Nil; type Last = TInitLast; type Reversed = Nil;
    fn split_last(self) -> (TInitLast, Nil) { abs_init_split(self) }
    fn reverse(self) -> Nil { abs_init_reverse(self) }
}
pub fn abs_tail_mut(t: &'static mut Tail) -> TMut { let _ = t; loop {} }
impl HListMut for &'static mut Tail { type Target = TMut; fn to_mut(self) -> TMut { abs_tail_mut(self) } }
impl HListRef for &'static Tail { type Target = TRef; fn to_ref(self) -> TRef { abs_tail_ref(self) } }

pub fn root_eq_thing(a: &Thing<Ext>, b: &Thing<Ext>) -> bool { a == b }
pub fn root_ne_thing(a: &Thing<Ext>, b: &Thing<Ext>) -> bool { a != b }
pub fn root_default_thing() -> Thing<Ext> { Default::default() }
pub fn root_eq_inter(a: &InteractionAffordance<Ext>, b: &InteractionAffordance<Ext>) -> bool { a == b }
pub fn root_ne_inter(a: &InteractionAffordance<Ext>, b: &InteractionAffordance<Ext>) -> bool { a != b }
pub fn root_default_inter() -> InteractionAffordance<Ext> { Default::default() }
pub fn root_eq_prop(a: &PropertyAffordance<Ext>, b: &PropertyAffordance<Ext>) -> bool { a == b }
pub fn root_ne_prop(a: &PropertyAffordance<Ext>, b: &PropertyAffordance<Ext>) -> bool { a != b }
pub fn root_default_prop() -> PropertyAffordance<Ext> { Default::default() }
pub fn root_eq_act(a: &ActionAffordance<Ext>, b: &ActionAffordance<Ext>) -> bool { a == b }
pub fn root_ne_act(a: &ActionAffordance<Ext>, b: &ActionAffordance<Ext>) -> bool { a != b }
pub fn root_default_act() -> ActionAffordance<Ext> { Default::default() }
pub fn root_eq_evt(a: &EventAffordance<Ext>, b: &EventAffordance<Ext>) -> bool { a == b }
pub fn root_ne_evt(a: &EventAffordance<Ext>, b: &EventAffordance<Ext>) -> bool { a != b }
pub fn root_default_evt() -> EventAffordance<Ext> { Default::default() }
pub fn root_eq_version(a: &VersionInfo, b: &VersionInfo) -> bool { a == b }
pub fn root_ne_version(a: &VersionInfo, b: &VersionInfo) -> bool { a != b }
pub fn root_clone_version(a: &VersionInfo) -> VersionInfo { a.clone() }
pub fn root_clonefrom_version(mut a: VersionInfo, b: &VersionInfo) -> VersionInfo { { a.clone_from(b); a } }
pub fn root_default_version() -> VersionInfo { Default::default() }
pub fn root_eq_ds(a: &DataSchema<XData, XArr, XObj>, b: &DataSchema<XData, XArr, XObj>) -> bool { a == b }
pub fn root_ne_ds(a: &DataSchema<XData, XArr, XObj>, b: &DataSchema<XData, XArr, XObj>) -> bool { a != b }
pub fn root_clone_ds(a: &DataSchema<XData, XArr, XObj>) -> DataSchema<XData, XArr, XObj> { a.clone() }
pub fn root_clonefrom_ds(mut a: DataSchema<XData, XArr, XObj>, b: &DataSchema<XData, XArr, XObj>) -> DataSchema<XData, XArr, XObj> { { a.clone_from(b); a } }
pub fn root_default_ds() -> DataSchema<XData, XArr, XObj> { Default::default() }
pub fn root_eq_dsub(a: &DataSchemaSubtype<XData, XArr, XObj>, b: &DataSchemaSubtype<XData, XArr, XObj>) -> bool { a == b }
pub fn root_ne_dsub(a: &DataSchemaSubtype<XData, XArr, XObj>, b: &DataSchemaSubtype<XData, XArr, XObj>) -> bool { a != b }
pub fn root_clone_dsub(a: &DataSchemaSubtype<XData, XArr, XObj>) -> DataSchemaSubtype<XData, XArr, XObj> { a.clone() }
pub fn root_clonefrom_dsub(mut a: DataSchemaSubtype<XData, XArr, XObj>, b: &DataSchemaSubtype<XData, XArr, XObj>) -> DataSchemaSubtype<XData, XArr, XObj> { { a.clone_from(b); a } }
pub fn root_default_dsub() -> DataSchemaSubtype<XData, XArr, XObj> { Default::default() }
pub fn root_eq_arr(a: &ArraySchema<XData, XArr, XObj>, b: &ArraySchema<XData, XArr, XObj>) -> bool { a == b }
pub fn root_ne_arr(a: &ArraySchema<XData, XArr, XObj>, b: &ArraySchema<XData, XArr, XObj>) -> bool { a != b }
pub fn root_clone_arr(a: &ArraySchema<XData, XArr, XObj>) -> ArraySchema<XData, XArr, XObj> { a.clone() }
pub fn root_clonefrom_arr(mut a: ArraySchema<XData, XArr, XObj>, b: &ArraySchema<XData, XArr, XObj>) -> ArraySchema<XData, XArr, XObj> { { a.clone_from(b); a } }
pub fn root_default_arr() -> ArraySchema<XData, XArr, XObj> { Default::default() }
pub fn root_eq_elems(a: &BoxedElemOrVec<DataSchema<XData, XArr, XObj>>, b: &BoxedElemOrVec<DataSchema<XData, XArr, XObj>>) -> bool { a == b }
pub fn root_ne_elems(a: &BoxedElemOrVec<DataSchema<XData, XArr, XObj>>, b: &BoxedElemOrVec<DataSchema<XData, XArr, XObj>>) -> bool { a != b }
pub fn root_clone_elems(a: &BoxedElemOrVec<DataSchema<XData, XArr, XObj>>) -> BoxedElemOrVec<DataSchema<XData, XArr, XObj>> { a.clone() }
pub fn root_clonefrom_elems(mut a: BoxedElemOrVec<DataSchema<XData, XArr, XObj>>, b: &BoxedElemOrVec<DataSchema<XData, XArr, XObj>>) -> BoxedElemOrVec<DataSchema<XData, XArr, XObj>> { { a.clone_from(b); a } }
pub fn root_eq_minf(a: &Minimum<f64>, b: &Minimum<f64>) -> bool { a == b }
pub fn root_ne_minf(a: &Minimum<f64>, b: &Minimum<f64>) -> bool { a != b }
pub fn root_clone_minf(a: &Minimum<f64>) -> Minimum<f64> { a.clone() }
pub fn root_clonefrom_minf(mut a: Minimum<f64>, b: &Minimum<f64>) -> Minimum<f64> { { a.clone_from(b); a } }
pub fn root_eq_maxf(a: &Maximum<f64>, b: &Maximum<f64>) -> bool { a == b }
pub fn root_ne_maxf(a: &Maximum<f64>, b: &Maximum<f64>) -> bool { a != b }
pub fn root_clone_maxf(a: &Maximum<f64>) -> Maximum<f64> { a.clone() }
pub fn root_clonefrom_maxf(mut a: Maximum<f64>, b: &Maximum<f64>) -> Maximum<f64> { { a.clone_from(b); a } }
pub fn root_eq_mini(a: &Minimum<i64>, b: &Minimum<i64>) -> bool { a == b }
pub fn root_ne_mini(a: &Minimum<i64>, b: &Minimum<i64>) -> bool { a != b }
pub fn root_clone_mini(a: &Minimum<i64>) -> Minimum<i64> { a.clone() }
pub fn root_clonefrom_mini(mut a: Minimum<i64>, b: &Minimum<i64>) -> Minimum<i64> { { a.clone_from(b); a } }
pub fn root_eq_maxi(a: &Maximum<i64>, b: &Maximum<i64>) -> bool { a == b }
pub fn root_ne_maxi(a: &Maximum<i64>, b: &Maximum<i64>) -> bool { a != b }
pub fn root_clone_maxi(a: &Maximum<i64>) -> Maximum<i64> { a.clone() }
pub fn root_clonefrom_maxi(mut a: Maximum<i64>, b: &Maximum<i64>) -> Maximum<i64> { { a.clone_from(b); a } }
pub fn root_eq_num(a: &NumberSchema, b: &NumberSchema) -> bool { a == b }
pub fn root_ne_num(a: &NumberSchema, b: &NumberSchema) -> bool { a != b }
pub fn root_clone_num(a: &NumberSchema) -> NumberSchema { a.clone() }
pub fn root_clonefrom_num(mut a: NumberSchema, b: &NumberSchema) -> NumberSchema { { a.clone_from(b); a } }
pub fn root_default_num() -> NumberSchema { Default::default() }
pub fn root_eq_int(a: &IntegerSchema, b: &IntegerSchema) -> bool { a == b }
pub fn root_ne_int(a: &IntegerSchema, b: &IntegerSchema) -> bool { a != b }
pub fn root_clone_int(a: &IntegerSchema) -> IntegerSchema { a.clone() }
pub fn root_clonefrom_int(mut a: IntegerSchema, b: &IntegerSchema) -> IntegerSchema { { a.clone_from(b); a } }
pub fn root_default_int() -> IntegerSchema { Default::default() }
pub fn root_eq_obj(a: &ObjectSchema<XData, XArr, XObj>, b: &ObjectSchema<XData, XArr, XObj>) -> bool { a == b }
pub fn root_ne_obj(a: &ObjectSchema<XData, XArr, XObj>, b: &ObjectSchema<XData, XArr, XObj>) -> bool { a != b }
pub fn root_clone_obj(a: &ObjectSchema<XData, XArr, XObj>) -> ObjectSchema<XData, XArr, XObj> { a.clone() }
pub fn root_clonefrom_obj(mut a: ObjectSchema<XData, XArr, XObj>, b: &ObjectSchema<XData, XArr, XObj>) -> ObjectSchema<XData, XArr, XObj> { { a.clone_from(b); a } }
pub fn root_default_obj() -> ObjectSchema<XData, XArr, XObj> { Default::default() }
pub fn root_eq_str(a: &StringSchema, b: &StringSchema) -> bool { a == b }
pub fn root_ne_str(a: &StringSchema, b: &StringSchema) -> bool { a != b }
pub fn root_clone_str(a: &StringSchema) -> StringSchema { a.clone() }
pub fn root_clonefrom_str(mut a: StringSchema, b: &StringSchema) -> StringSchema { { a.clone_from(b); a } }
pub fn root_default_str() -> StringSchema { Default::default() }
pub fn root_eq_sec(a: &SecurityScheme, b: &SecurityScheme) -> bool { a == b }
pub fn root_ne_sec(a: &SecurityScheme, b: &SecurityScheme) -> bool { a != b }
pub fn root_clone_sec(a: &SecurityScheme) -> SecurityScheme { a.clone() }
pub fn root_clonefrom_sec(mut a: SecurityScheme, b: &SecurityScheme) -> SecurityScheme { { a.clone_from(b); a } }
pub fn root_default_sec() -> SecurityScheme { Default::default() }
pub fn root_eq_known(a: &KnownSecuritySchemeSubtype, b: &KnownSecuritySchemeSubtype) -> bool { a == b }
pub fn root_ne_known(a: &KnownSecuritySchemeSubtype, b: &KnownSecuritySchemeSubtype) -> bool { a != b }
pub fn root_clone_known(a: &KnownSecuritySchemeSubtype) -> KnownSecuritySchemeSubtype { a.clone() }
pub fn root_clonefrom_known(mut a: KnownSecuritySchemeSubtype, b: &KnownSecuritySchemeSubtype) -> KnownSecuritySchemeSubtype { { a.clone_from(b); a } }
pub fn root_default_known() -> KnownSecuritySchemeSubtype { Default::default() }
pub fn root_eq_unknown(a: &UnknownSecuritySchemeSubtype, b: &UnknownSecuritySchemeSubtype) -> bool { a == b }
pub fn root_ne_unknown(a: &UnknownSecuritySchemeSubtype, b: &UnknownSecuritySchemeSubtype) -> bool { a != b }
pub fn root_clone_unknown(a: &UnknownSecuritySchemeSubtype) -> UnknownSecuritySchemeSubtype { a.clone() }
pub fn root_clonefrom_unknown(mut a: UnknownSecuritySchemeSubtype, b: &UnknownSecuritySchemeSubtype) -> UnknownSecuritySchemeSubtype { { a.clone_from(b); a } }
pub fn root_default_unknown() -> UnknownSecuritySchemeSubtype { Default::default() }
pub fn root_eq_secsub(a: &SecuritySchemeSubtype, b: &SecuritySchemeSubtype) -> bool { a == b }
pub fn root_ne_secsub(a: &SecuritySchemeSubtype, b: &SecuritySchemeSubtype) -> bool { a != b }
pub fn root_clone_secsub(a: &SecuritySchemeSubtype) -> SecuritySchemeSubtype { a.clone() }
pub fn root_clonefrom_secsub(mut a: SecuritySchemeSubtype, b: &SecuritySchemeSubtype) -> SecuritySchemeSubtype { { a.clone_from(b); a } }
pub fn root_default_secsub() -> SecuritySchemeSubtype { Default::default() }
pub fn root_eq_combo(a: &ComboSecurityScheme, b: &ComboSecurityScheme) -> bool { a == b }
pub fn root_ne_combo(a: &ComboSecurityScheme, b: &ComboSecurityScheme) -> bool { a != b }
pub fn root_clone_combo(a: &ComboSecurityScheme) -> ComboSecurityScheme { a.clone() }
pub fn root_clonefrom_combo(mut a: ComboSecurityScheme, b: &ComboSecurityScheme) -> ComboSecurityScheme { { a.clone_from(b); a } }
pub fn root_eq_basic(a: &BasicSecurityScheme, b: &BasicSecurityScheme) -> bool { a == b }
pub fn root_ne_basic(a: &BasicSecurityScheme, b: &BasicSecurityScheme) -> bool { a != b }
pub fn root_clone_basic(a: &BasicSecurityScheme) -> BasicSecurityScheme { a.clone() }
pub fn root_clonefrom_basic(mut a: BasicSecurityScheme, b: &BasicSecurityScheme) -> BasicSecurityScheme { { a.clone_from(b); a } }
pub fn root_default_basic() -> BasicSecurityScheme { Default::default() }
pub fn root_eq_loc(a: &SecurityAuthenticationLocation, b: &SecurityAuthenticationLocation) -> bool { a == b }
pub fn root_ne_loc(a: &SecurityAuthenticationLocation, b: &SecurityAuthenticationLocation) -> bool { a != b }
pub fn root_clone_loc(a: &SecurityAuthenticationLocation) -> SecurityAuthenticationLocation { a.clone() }
pub fn root_clonefrom_loc(mut a: SecurityAuthenticationLocation, b: &SecurityAuthenticationLocation) -> SecurityAuthenticationLocation { { a.clone_from(b); a } }
pub fn root_eq_digest(a: &DigestSecurityScheme, b: &DigestSecurityScheme) -> bool { a == b }
pub fn root_ne_digest(a: &DigestSecurityScheme, b: &DigestSecurityScheme) -> bool { a != b }
pub fn root_clone_digest(a: &DigestSecurityScheme) -> DigestSecurityScheme { a.clone() }
pub fn root_clonefrom_digest(mut a: DigestSecurityScheme, b: &DigestSecurityScheme) -> DigestSecurityScheme { { a.clone_from(b); a } }
pub fn root_default_digest() -> DigestSecurityScheme { Default::default() }
pub fn root_eq_qop(a: &QualityOfProtection, b: &QualityOfProtection) -> bool { a == b }
pub fn root_ne_qop(a: &QualityOfProtection, b: &QualityOfProtection) -> bool { a != b }
pub fn root_clone_qop(a: &QualityOfProtection) -> QualityOfProtection { a.clone() }
pub fn root_clonefrom_qop(mut a: QualityOfProtection, b: &QualityOfProtection) -> QualityOfProtection { { a.clone_from(b); a } }
pub fn root_default_qop() -> QualityOfProtection { Default::default() }
pub fn root_eq_apikey(a: &ApiKeySecurityScheme, b: &ApiKeySecurityScheme) -> bool { a == b }
pub fn root_ne_apikey(a: &ApiKeySecurityScheme, b: &ApiKeySecurityScheme) -> bool { a != b }
pub fn root_clone_apikey(a: &ApiKeySecurityScheme) -> ApiKeySecurityScheme { a.clone() }
pub fn root_clonefrom_apikey(mut a: ApiKeySecurityScheme, b: &ApiKeySecurityScheme) -> ApiKeySecurityScheme { { a.clone_from(b); a } }
pub fn root_default_apikey() -> ApiKeySecurityScheme { Default::default() }
pub fn root_eq_bearer(a: &BearerSecurityScheme, b: &BearerSecurityScheme) -> bool { a == b }
pub fn root_ne_bearer(a: &BearerSecurityScheme, b: &BearerSecurityScheme) -> bool { a != b }
pub fn root_clone_bearer(a: &BearerSecurityScheme) -> BearerSecurityScheme { a.clone() }
pub fn root_clonefrom_bearer(mut a: BearerSecurityScheme, b: &BearerSecurityScheme) -> BearerSecurityScheme { { a.clone_from(b); a } }
pub fn root_default_bearer() -> BearerSecurityScheme { Default::default() }
pub fn root_eq_psk(a: &PskSecurityScheme, b: &PskSecurityScheme) -> bool { a == b }
pub fn root_ne_psk(a: &PskSecurityScheme, b: &PskSecurityScheme) -> bool { a != b }
pub fn root_clone_psk(a: &PskSecurityScheme) -> PskSecurityScheme { a.clone() }
pub fn root_clonefrom_psk(mut a: PskSecurityScheme, b: &PskSecurityScheme) -> PskSecurityScheme { { a.clone_from(b); a } }
pub fn root_default_psk() -> PskSecurityScheme { Default::default() }
pub fn root_eq_oauth2(a: &OAuth2SecurityScheme, b: &OAuth2SecurityScheme) -> bool { a == b }
pub fn root_ne_oauth2(a: &OAuth2SecurityScheme, b: &OAuth2SecurityScheme) -> bool { a != b }
pub fn root_clone_oauth2(a: &OAuth2SecurityScheme) -> OAuth2SecurityScheme { a.clone() }
pub fn root_clonefrom_oauth2(mut a: OAuth2SecurityScheme, b: &OAuth2SecurityScheme) -> OAuth2SecurityScheme { { a.clone_from(b); a } }
pub fn root_default_oauth2() -> OAuth2SecurityScheme { Default::default() }
pub fn root_eq_link(a: &Link, b: &Link) -> bool { a == b }
pub fn root_ne_link(a: &Link, b: &Link) -> bool { a != b }
pub fn root_clone_link(a: &Link) -> Link { a.clone() }
pub fn root_clonefrom_link(mut a: Link, b: &Link) -> Link { { a.clone_from(b); a } }
pub fn root_default_link() -> Link { Default::default() }
pub fn root_eq_form(a: &Form<Ext>, b: &Form<Ext>) -> bool { a == b }
pub fn root_ne_form(a: &Form<Ext>, b: &Form<Ext>) -> bool { a != b }
pub fn root_clone_form(a: &Form<Ext>) -> Form<Ext> { a.clone() }
pub fn root_clonefrom_form(mut a: Form<Ext>, b: &Form<Ext>) -> Form<Ext> { { a.clone_from(b); a } }
pub fn root_default_form() -> Form<Ext> { Default::default() }
pub fn root_eq_op(a: &FormOperation, b: &FormOperation) -> bool { a == b }
pub fn root_ne_op(a: &FormOperation, b: &FormOperation) -> bool { a != b }
pub fn root_clone_op(a: &FormOperation) -> FormOperation { a.clone() }
pub fn root_clonefrom_op(mut a: FormOperation, b: &FormOperation) -> FormOperation { { a.clone_from(b); a } }
pub fn root_eq_ops(a: &DefaultedFormOperations, b: &DefaultedFormOperations) -> bool { a == b }
pub fn root_ne_ops(a: &DefaultedFormOperations, b: &DefaultedFormOperations) -> bool { a != b }
pub fn root_clone_ops(a: &DefaultedFormOperations) -> DefaultedFormOperations { a.clone() }
pub fn root_clonefrom_ops(mut a: DefaultedFormOperations, b: &DefaultedFormOperations) -> DefaultedFormOperations { { a.clone_from(b); a } }
pub fn root_default_ops() -> DefaultedFormOperations { Default::default() }
pub fn root_eq_resp(a: &ExpectedResponse<XResp>, b: &ExpectedResponse<XResp>) -> bool { a == b }
pub fn root_ne_resp(a: &ExpectedResponse<XResp>, b: &ExpectedResponse<XResp>) -> bool { a != b }
pub fn root_clone_resp(a: &ExpectedResponse<XResp>) -> ExpectedResponse<XResp> { a.clone() }
pub fn root_clonefrom_resp(mut a: ExpectedResponse<XResp>, b: &ExpectedResponse<XResp>) -> ExpectedResponse<XResp> { { a.clone_from(b); a } }
pub fn root_default_resp() -> ExpectedResponse<XResp> { Default::default() }
pub fn root_eq_addresp(a: &AdditionalExpectedResponse, b: &AdditionalExpectedResponse) -> bool { a == b }
pub fn root_ne_addresp(a: &AdditionalExpectedResponse, b: &AdditionalExpectedResponse) -> bool { a != b }
pub fn root_clone_addresp(a: &AdditionalExpectedResponse) -> AdditionalExpectedResponse { a.clone() }
pub fn root_clonefrom_addresp(mut a: AdditionalExpectedResponse, b: &AdditionalExpectedResponse) -> AdditionalExpectedResponse { { a.clone_from(b); a } }
pub fn root_default_addresp() -> AdditionalExpectedResponse { Default::default() }
pub fn root_eq_nil(a: &Nil, b: &Nil) -> bool { a == b }
pub fn root_ne_nil(a: &Nil, b: &Nil) -> bool { a != b }
pub fn root_clone_nil(a: &Nil) -> Nil { a.clone() }
pub fn root_clonefrom_nil(mut a: Nil, b: &Nil) -> Nil { { a.clone_from(b); a } }
pub fn root_default_nil() -> Nil { Default::default() }
pub fn root_eq_cons(a: &Cons<XData, XArr>, b: &Cons<XData, XArr>) -> bool { a == b }
pub fn root_ne_cons(a: &Cons<XData, XArr>, b: &Cons<XData, XArr>) -> bool { a != b }
pub fn root_clone_cons(a: &Cons<XData, XArr>) -> Cons<XData, XArr> { a.clone() }
pub fn root_clonefrom_cons(mut a: Cons<XData, XArr>, b: &Cons<XData, XArr>) -> Cons<XData, XArr> { { a.clone_from(b); a } }
pub fn root_default_cons() -> Cons<XData, XArr> { Default::default() }
pub fn root_eq_coap_method(a: &coap::Method, b: &coap::Method) -> bool { a == b }
pub fn root_ne_coap_method(a: &coap::Method, b: &coap::Method) -> bool { a != b }
pub fn root_clone_coap_method(a: &coap::Method) -> coap::Method { a.clone() }
pub fn root_clonefrom_coap_method(mut a: coap::Method, b: &coap::Method) -> coap::Method { { a.clone_from(b); a } }
pub fn root_eq_coap_size(a: &coap::BlockSize, b: &coap::BlockSize) -> bool { a == b }
pub fn root_ne_coap_size(a: &coap::BlockSize, b: &coap::BlockSize) -> bool { a != b }
pub fn root_clone_coap_size(a: &coap::BlockSize) -> coap::BlockSize { a.clone() }
pub fn root_clonefrom_coap_size(mut a: coap::BlockSize, b: &coap::BlockSize) -> coap::BlockSize { { a.clone_from(b); a } }
pub fn root_eq_coap_block(a: &coap::BlockWiseTransferParameters, b: &coap::BlockWiseTransferParameters) -> bool { a == b }
pub fn root_ne_coap_block(a: &coap::BlockWiseTransferParameters, b: &coap::BlockWiseTransferParameters) -> bool { a != b }
pub fn root_clone_coap_block(a: &coap::BlockWiseTransferParameters) -> coap::BlockWiseTransferParameters { a.clone() }
pub fn root_clonefrom_coap_block(mut a: coap::BlockWiseTransferParameters, b: &coap::BlockWiseTransferParameters) -> coap::BlockWiseTransferParameters { { a.clone_from(b); a } }
pub fn root_default_coap_block() -> coap::BlockWiseTransferParameters { Default::default() }
pub fn root_eq_coap_form(a: &coap::Form, b: &coap::Form) -> bool { a == b }
pub fn root_ne_coap_form(a: &coap::Form, b: &coap::Form) -> bool { a != b }
pub fn root_clone_coap_form(a: &coap::Form) -> coap::Form { a.clone() }
pub fn root_clonefrom_coap_form(mut a: coap::Form, b: &coap::Form) -> coap::Form { { a.clone_from(b); a } }
pub fn root_default_coap_form() -> coap::Form { Default::default() }
pub fn root_eq_coap_resp(a: &coap::ExpectedResponse, b: &coap::ExpectedResponse) -> bool { a == b }
pub fn root_ne_coap_resp(a: &coap::ExpectedResponse, b: &coap::ExpectedResponse) -> bool { a != b }
pub fn root_clone_coap_resp(a: &coap::ExpectedResponse) -> coap::ExpectedResponse { a.clone() }
pub fn root_clonefrom_coap_resp(mut a: coap::ExpectedResponse, b: &coap::ExpectedResponse) -> coap::ExpectedResponse { { a.clone_from(b); a } }
pub fn root_default_coap_resp() -> coap::ExpectedResponse { Default::default() }
pub fn root_eq_coap_proto(a: &coap::CoapProtocol, b: &coap::CoapProtocol) -> bool { a == b }
pub fn root_ne_coap_proto(a: &coap::CoapProtocol, b: &coap::CoapProtocol) -> bool { a != b }
pub fn root_clone_coap_proto(a: &coap::CoapProtocol) -> coap::CoapProtocol { a.clone() }
pub fn root_clonefrom_coap_proto(mut a: coap::CoapProtocol, b: &coap::CoapProtocol) -> coap::CoapProtocol { { a.clone_from(b); a } }
pub fn root_default_coap_proto() -> coap::CoapProtocol { Default::default() }
pub fn root_eq_http_method(a: &http::Method, b: &http::Method) -> bool { a == b }
pub fn root_ne_http_method(a: &http::Method, b: &http::Method) -> bool { a != b }
pub fn root_clone_http_method(a: &http::Method) -> http::Method { a.clone() }
pub fn root_clonefrom_http_method(mut a: http::Method, b: &http::Method) -> http::Method { { a.clone_from(b); a } }
pub fn root_eq_http_header(a: &http::MessageHeader, b: &http::MessageHeader) -> bool { a == b }
pub fn root_ne_http_header(a: &http::MessageHeader, b: &http::MessageHeader) -> bool { a != b }
pub fn root_clone_http_header(a: &http::MessageHeader) -> http::MessageHeader { a.clone() }
pub fn root_clonefrom_http_header(mut a: http::MessageHeader, b: &http::MessageHeader) -> http::MessageHeader { { a.clone_from(b); a } }
pub fn root_default_http_header() -> http::MessageHeader { Default::default() }
pub fn root_eq_http_resp(a: &http::Response, b: &http::Response) -> bool { a == b }
pub fn root_ne_http_resp(a: &http::Response, b: &http::Response) -> bool { a != b }
pub fn root_clone_http_resp(a: &http::Response) -> http::Response { a.clone() }
pub fn root_clonefrom_http_resp(mut a: http::Response, b: &http::Response) -> http::Response { { a.clone_from(b); a } }
pub fn root_default_http_resp() -> http::Response { Default::default() }
pub fn root_eq_http_form(a: &http::Form, b: &http::Form) -> bool { a == b }
pub fn root_ne_http_form(a: &http::Form, b: &http::Form) -> bool { a != b }
pub fn root_clone_http_form(a: &http::Form) -> http::Form { a.clone() }
pub fn root_clonefrom_http_form(mut a: http::Form, b: &http::Form) -> http::Form { { a.clone_from(b); a } }
pub fn root_default_http_form() -> http::Form { Default::default() }
pub fn root_eq_http_proto(a: &http::HttpProtocol, b: &http::HttpProtocol) -> bool { a == b }
pub fn root_ne_http_proto(a: &http::HttpProtocol, b: &http::HttpProtocol) -> bool { a != b }
pub fn root_clone_http_proto(a: &http::HttpProtocol) -> http::HttpProtocol { a.clone() }
pub fn root_clonefrom_http_proto(mut a: http::HttpProtocol, b: &http::HttpProtocol) -> http::HttpProtocol { { a.clone_from(b); a } }
pub fn root_default_http_proto() -> http::HttpProtocol { Default::default() }
pub fn root_eq_mqtt_packet(a: &mqtt::ControlPacket, b: &mqtt::ControlPacket) -> bool { a == b }
pub fn root_ne_mqtt_packet(a: &mqtt::ControlPacket, b: &mqtt::ControlPacket) -> bool { a != b }
pub fn root_clone_mqtt_packet(a: &mqtt::ControlPacket) -> mqtt::ControlPacket { a.clone() }
pub fn root_clonefrom_mqtt_packet(mut a: mqtt::ControlPacket, b: &mqtt::ControlPacket) -> mqtt::ControlPacket { { a.clone_from(b); a } }
pub fn root_eq_mqtt_qos(a: &mqtt::QoS, b: &mqtt::QoS) -> bool { a == b }
pub fn root_ne_mqtt_qos(a: &mqtt::QoS, b: &mqtt::QoS) -> bool { a != b }
pub fn root_clone_mqtt_qos(a: &mqtt::QoS) -> mqtt::QoS { a.clone() }
pub fn root_clonefrom_mqtt_qos(mut a: mqtt::QoS, b: &mqtt::QoS) -> mqtt::QoS { { a.clone_from(b); a } }
pub fn root_eq_mqtt_form(a: &mqtt::Form, b: &mqtt::Form) -> bool { a == b }
pub fn root_ne_mqtt_form(a: &mqtt::Form, b: &mqtt::Form) -> bool { a != b }
pub fn root_clone_mqtt_form(a: &mqtt::Form) -> mqtt::Form { a.clone() }
pub fn root_clonefrom_mqtt_form(mut a: mqtt::Form, b: &mqtt::Form) -> mqtt::Form { { a.clone_from(b); a } }
pub fn root_default_mqtt_form() -> mqtt::Form { Default::default() }
pub fn root_eq_mqtt_proto(a: &mqtt::MqttProtocol, b: &mqtt::MqttProtocol) -> bool { a == b }
pub fn root_ne_mqtt_proto(a: &mqtt::MqttProtocol, b: &mqtt::MqttProtocol) -> bool { a != b }
pub fn root_clone_mqtt_proto(a: &mqtt::MqttProtocol) -> mqtt::MqttProtocol { a.clone() }
pub fn root_clonefrom_mqtt_proto(mut a: mqtt::MqttProtocol, b: &mqtt::MqttProtocol) -> mqtt::MqttProtocol { { a.clone_from(b); a } }
pub fn root_default_mqtt_proto() -> mqtt::MqttProtocol { Default::default() }
pub fn root_cmp_min_min_i64(a: &Minimum<i64>, b: &Minimum<i64>) -> Option<Ordering> { a.partial_cmp(b) }
pub fn root_eq_min_min_i64(a: &Minimum<i64>, b: &Minimum<i64>) -> bool { a == b }
pub fn root_ne_min_min_i64(a: &Minimum<i64>, b: &Minimum<i64>) -> bool { a != b }
pub fn root_lt_min_min_i64(a: &Minimum<i64>, b: &Minimum<i64>) -> bool { a < b }
pub fn root_le_min_min_i64(a: &Minimum<i64>, b: &Minimum<i64>) -> bool { a <= b }
pub fn root_gt_min_min_i64(a: &Minimum<i64>, b: &Minimum<i64>) -> bool { a > b }
pub fn root_ge_min_min_i64(a: &Minimum<i64>, b: &Minimum<i64>) -> bool { a >= b }
pub fn root_cmp_min_max_i64(a: &Minimum<i64>, b: &Maximum<i64>) -> Option<Ordering> { a.partial_cmp(b) }
pub fn root_eq_min_max_i64(a: &Minimum<i64>, b: &Maximum<i64>) -> bool { a == b }
pub fn root_ne_min_max_i64(a: &Minimum<i64>, b: &Maximum<i64>) -> bool { a != b }
pub fn root_lt_min_max_i64(a: &Minimum<i64>, b: &Maximum<i64>) -> bool { a < b }
pub fn root_le_min_max_i64(a: &Minimum<i64>, b: &Maximum<i64>) -> bool { a <= b }
pub fn root_gt_min_max_i64(a: &Minimum<i64>, b: &Maximum<i64>) -> bool { a > b }
pub fn root_ge_min_max_i64(a: &Minimum<i64>, b: &Maximum<i64>) -> bool { a >= b }
pub fn root_cmp_max_min_i64(a: &Maximum<i64>, b: &Minimum<i64>) -> Option<Ordering> { a.partial_cmp(b) }
pub fn root_eq_max_min_i64(a: &Maximum<i64>, b: &Minimum<i64>) -> bool { a == b }
pub fn root_ne_max_min_i64(a: &Maximum<i64>, b: &Minimum<i64>) -> bool { a != b }
pub fn root_lt_max_min_i64(a: &Maximum<i64>, b: &Minimum<i64>) -> bool { a < b }
pub fn root_le_max_min_i64(a: &Maximum<i64>, b: &Minimum<i64>) -> bool { a <= b }
pub fn root_gt_max_min_i64(a: &Maximum<i64>, b: &Minimum<i64>) -> bool { a > b }
pub fn root_ge_max_min_i64(a: &Maximum<i64>, b: &Minimum<i64>) -> bool { a >= b }
pub fn root_cmp_max_max_i64(a: &Maximum<i64>, b: &Maximum<i64>) -> Option<Ordering> { a.partial_cmp(b) }
pub fn root_eq_max_max_i64(a: &Maximum<i64>, b: &Maximum<i64>) -> bool { a == b }
pub fn root_ne_max_max_i64(a: &Maximum<i64>, b: &Maximum<i64>) -> bool { a != b }
pub fn root_lt_max_max_i64(a: &Maximum<i64>, b: &Maximum<i64>) -> bool { a < b }
pub fn root_le_max_max_i64(a: &Maximum<i64>, b: &Maximum<i64>) -> bool { a <= b }
pub fn root_gt_max_max_i64(a: &Maximum<i64>, b: &Maximum<i64>) -> bool { a > b }
pub fn root_ge_max_max_i64(a: &Maximum<i64>, b: &Maximum<i64>) -> bool { a >= b }
pub fn root_cmp_min_min_f64(a: &Minimum<f64>, b: &Minimum<f64>) -> Option<Ordering> { a.partial_cmp(b) }
pub fn root_eq_min_min_f64(a: &Minimum<f64>, b: &Minimum<f64>) -> bool { a == b }
pub fn root_ne_min_min_f64(a: &Minimum<f64>, b: &Minimum<f64>) -> bool { a != b }
pub fn root_lt_min_min_f64(a: &Minimum<f64>, b: &Minimum<f64>) -> bool { a < b }
pub fn root_le_min_min_f64(a: &Minimum<f64>, b: &Minimum<f64>) -> bool { a <= b }
pub fn root_gt_min_min_f64(a: &Minimum<f64>, b: &Minimum<f64>) -> bool { a > b }
pub fn root_ge_min_min_f64(a: &Minimum<f64>, b: &Minimum<f64>) -> bool { a >= b }
pub fn root_cmp_min_max_f64(a: &Minimum<f64>, b: &Maximum<f64>) -> Option<Ordering> { a.partial_cmp(b) }
pub fn root_eq_min_max_f64(a: &Minimum<f64>, b: &Maximum<f64>) -> bool { a == b }
pub fn root_ne_min_max_f64(a: &Minimum<f64>, b: &Maximum<f64>) -> bool { a != b }
pub fn root_lt_min_max_f64(a: &Minimum<f64>, b: &Maximum<f64>) -> bool { a < b }
pub fn root_le_min_max_f64(a: &Minimum<f64>, b: &Maximum<f64>) -> bool { a <= b }
pub fn root_gt_min_max_f64(a: &Minimum<f64>, b: &Maximum<f64>) -> bool { a > b }
pub fn root_ge_min_max_f64(a: &Minimum<f64>, b: &Maximum<f64>) -> bool { a >= b }
pub fn root_nan_min_f64(a: &Minimum<f64>) -> bool { a.is_nan() }
pub fn root_cmp_max_min_f64(a: &Maximum<f64>, b: &Minimum<f64>) -> Option<Ordering> { a.partial_cmp(b) }
pub fn root_eq_max_min_f64(a: &Maximum<f64>, b: &Minimum<f64>) -> bool { a == b }
pub fn root_ne_max_min_f64(a: &Maximum<f64>, b: &Minimum<f64>) -> bool { a != b }
pub fn root_lt_max_min_f64(a: &Maximum<f64>, b: &Minimum<f64>) -> bool { a < b }
pub fn root_le_max_min_f64(a: &Maximum<f64>, b: &Minimum<f64>) -> bool { a <= b }
pub fn root_gt_max_min_f64(a: &Maximum<f64>, b: &Minimum<f64>) -> bool { a > b }
pub fn root_ge_max_min_f64(a: &Maximum<f64>, b: &Minimum<f64>) -> bool { a >= b }
pub fn root_cmp_max_max_f64(a: &Maximum<f64>, b: &Maximum<f64>) -> Option<Ordering> { a.partial_cmp(b) }
pub fn root_eq_max_max_f64(a: &Maximum<f64>, b: &Maximum<f64>) -> bool { a == b }
pub fn root_ne_max_max_f64(a: &Maximum<f64>, b: &Maximum<f64>) -> bool { a != b }
pub fn root_lt_max_max_f64(a: &Maximum<f64>, b: &Maximum<f64>) -> bool { a < b }
pub fn root_le_max_max_f64(a: &Maximum<f64>, b: &Maximum<f64>) -> bool { a <= b }
pub fn root_gt_max_max_f64(a: &Maximum<f64>, b: &Maximum<f64>) -> bool { a > b }
pub fn root_ge_max_max_f64(a: &Maximum<f64>, b: &Maximum<f64>) -> bool { a >= b }
pub fn root_nan_max_f64(a: &Maximum<f64>) -> bool { a.is_nan() }
pub fn root_cmp_min_min_f32(a: &Minimum<f32>, b: &Minimum<f32>) -> Option<Ordering> { a.partial_cmp(b) }
pub fn root_eq_min_min_f32(a: &Minimum<f32>, b: &Minimum<f32>) -> bool { a == b }
pub fn root_ne_min_min_f32(a: &Minimum<f32>, b: &Minimum<f32>) -> bool { a != b }
pub fn root_lt_min_min_f32(a: &Minimum<f32>, b: &Minimum<f32>) -> bool { a < b }
pub fn root_le_min_min_f32(a: &Minimum<f32>, b: &Minimum<f32>) -> bool { a <= b }
pub fn root_gt_min_min_f32(a: &Minimum<f32>, b: &Minimum<f32>) -> bool { a > b }
pub fn root_ge_min_min_f32(a: &Minimum<f32>, b: &Minimum<f32>) -> bool { a >= b }
pub fn root_cmp_min_max_f32(a: &Minimum<f32>, b: &Maximum<f32>) -> Option<Ordering> { a.partial_cmp(b) }
pub fn root_eq_min_max_f32(a: &Minimum<f32>, b: &Maximum<f32>) -> bool { a == b }
pub fn root_ne_min_max_f32(a: &Minimum<f32>, b: &Maximum<f32>) -> bool { a != b }
pub fn root_lt_min_max_f32(a: &Minimum<f32>, b: &Maximum<f32>) -> bool { a < b }
pub fn root_le_min_max_f32(a: &Minimum<f32>, b: &Maximum<f32>) -> bool { a <= b }
pub fn root_gt_min_max_f32(a: &Minimum<f32>, b: &Maximum<f32>) -> bool { a > b }
pub fn root_ge_min_max_f32(a: &Minimum<f32>, b: &Maximum<f32>) -> bool { a >= b }
pub fn root_nan_min_f32(a: &Minimum<f32>) -> bool { a.is_nan() }
pub fn root_cmp_max_min_f32(a: &Maximum<f32>, b: &Minimum<f32>) -> Option<Ordering> { a.partial_cmp(b) }
pub fn root_eq_max_min_f32(a: &Maximum<f32>, b: &Minimum<f32>) -> bool { a == b }
pub fn root_ne_max_min_f32(a: &Maximum<f32>, b: &Minimum<f32>) -> bool { a != b }
pub fn root_lt_max_min_f32(a: &Maximum<f32>, b: &Minimum<f32>) -> bool { a < b }
pub fn root_le_max_min_f32(a: &Maximum<f32>, b: &Minimum<f32>) -> bool { a <= b }
pub fn root_gt_max_min_f32(a: &Maximum<f32>, b: &Minimum<f32>) -> bool { a > b }
pub fn root_ge_max_min_f32(a: &Maximum<f32>, b: &Minimum<f32>) -> bool { a >= b }
pub fn root_cmp_max_max_f32(a: &Maximum<f32>, b: &Maximum<f32>) -> Option<Ordering> { a.partial_cmp(b) }
pub fn root_eq_max_max_f32(a: &Maximum<f32>, b: &Maximum<f32>) -> bool { a == b }
pub fn root_ne_max_max_f32(a: &Maximum<f32>, b: &Maximum<f32>) -> bool { a != b }
pub fn root_lt_max_max_f32(a: &Maximum<f32>, b: &Maximum<f32>) -> bool { a < b }
pub fn root_le_max_max_f32(a: &Maximum<f32>, b: &Maximum<f32>) -> bool { a <= b }
pub fn root_gt_max_max_f32(a: &Maximum<f32>, b: &Maximum<f32>) -> bool { a > b }
pub fn root_ge_max_max_f32(a: &Maximum<f32>, b: &Maximum<f32>) -> bool { a >= b }
pub fn root_nan_max_f32(a: &Maximum<f32>) -> bool { a.is_nan() }
pub fn root_cmp_min_min_u64(a: &Minimum<u64>, b: &Minimum<u64>) -> Option<Ordering> { a.partial_cmp(b) }
pub fn root_eq_min_min_u64(a: &Minimum<u64>, b: &Minimum<u64>) -> bool { a == b }
pub fn root_ne_min_min_u64(a: &Minimum<u64>, b: &Minimum<u64>) -> bool { a != b }
pub fn root_lt_min_min_u64(a: &Minimum<u64>, b: &Minimum<u64>) -> bool { a < b }
pub fn root_le_min_min_u64(a: &Minimum<u64>, b: &Minimum<u64>) -> bool { a <= b }
pub fn root_gt_min_min_u64(a: &Minimum<u64>, b: &Minimum<u64>) -> bool { a > b }
pub fn root_ge_min_min_u64(a: &Minimum<u64>, b: &Minimum<u64>) -> bool { a >= b }
pub fn root_cmp_min_max_u64(a: &Minimum<u64>, b: &Maximum<u64>) -> Option<Ordering> { a.partial_cmp(b) }
pub fn root_eq_min_max_u64(a: &Minimum<u64>, b: &Maximum<u64>) -> bool { a == b }
pub fn root_ne_min_max_u64(a: &Minimum<u64>, b: &Maximum<u64>) -> bool { a != b }
pub fn root_lt_min_max_u64(a: &Minimum<u64>, b: &Maximum<u64>) -> bool { a < b }
pub fn root_le_min_max_u64(a: &Minimum<u64>, b: &Maximum<u64>) -> bool { a <= b }
pub fn root_gt_min_max_u64(a: &Minimum<u64>, b: &Maximum<u64>) -> bool { a > b }
pub fn root_ge_min_max_u64(a: &Minimum<u64>, b: &Maximum<u64>) -> bool { a >= b }
pub fn root_cmp_max_min_u64(a: &Maximum<u64>, b: &Minimum<u64>) -> Option<Ordering> { a.partial_cmp(b) }
pub fn root_eq_max_min_u64(a: &Maximum<u64>, b: &Minimum<u64>) -> bool { a == b }
pub fn root_ne_max_min_u64(a: &Maximum<u64>, b: &Minimum<u64>) -> bool { a != b }
pub fn root_lt_max_min_u64(a: &Maximum<u64>, b: &Minimum<u64>) -> bool { a < b }
pub fn root_le_max_min_u64(a: &Maximum<u64>, b: &Minimum<u64>) -> bool { a <= b }
pub fn root_gt_max_min_u64(a: &Maximum<u64>, b: &Minimum<u64>) -> bool { a > b }
pub fn root_ge_max_min_u64(a: &Maximum<u64>, b: &Minimum<u64>) -> bool { a >= b }
pub fn root_cmp_max_max_u64(a: &Maximum<u64>, b: &Maximum<u64>) -> Option<Ordering> { a.partial_cmp(b) }
pub fn root_eq_max_max_u64(a: &Maximum<u64>, b: &Maximum<u64>) -> bool { a == b }
pub fn root_ne_max_max_u64(a: &Maximum<u64>, b: &Maximum<u64>) -> bool { a != b }
pub fn root_lt_max_max_u64(a: &Maximum<u64>, b: &Maximum<u64>) -> bool { a < b }
pub fn root_le_max_max_u64(a: &Maximum<u64>, b: &Maximum<u64>) -> bool { a <= b }
pub fn root_gt_max_max_u64(a: &Maximum<u64>, b: &Maximum<u64>) -> bool { a > b }
pub fn root_ge_max_max_u64(a: &Maximum<u64>, b: &Maximum<u64>) -> bool { a >= b }
pub fn root_nil_cons(x: E0) -> Cons<E0, Nil> { Nil::cons(x) }
pub fn root_cons(l: Cons<E1, Tail>, x: E0) -> Cons<E0, Cons<E1, Tail>> { l.cons(x) }
pub fn root_split_head(l: Cons<E0, Tail>) -> (E0, Tail) { l.split_head() }
pub fn root_last_one(l: Cons<E0, Nil>) -> (<Cons<E0, Nil> as NonEmptyHList>::Last, <Cons<E0, Nil> as NonEmptyHList>::Init) { l.split_last() }
pub fn root_last_step(l: Cons<E0, Tail>) -> (<Cons<E0, Tail> as NonEmptyHList>::Last, <Cons<E0, Tail> as NonEmptyHList>::Init) { l.split_last() }
pub fn root_rev_one(l: Cons<E0, Nil>) -> <Cons<E0, Nil> as NonEmptyHList>::Reversed { l.reverse() }
pub fn root_rev_step(l: Cons<E0, Tail>) -> <Cons<E0, Tail> as NonEmptyHList>::Reversed { l.reverse() }
pub fn root_ref_nil(l: &'static Nil) -> <&'static Nil as HListRef>::Target { l.to_ref() }
pub fn root_ref_step(l: &'static Cons<E0, Tail>) -> <&'static Cons<E0, Tail> as HListRef>::Target { l.to_ref() }
pub fn root_mutstep_head(l: &'static mut Cons<E0, Tail>, x: E0) { *l.to_mut().head = x }
pub fn root_mutstep_tail(l: &'static mut Cons<E0, Tail>) -> TMut { l.to_mut().tail }
pub fn root_ext_nil(x: E0) -> Cons<E0, Nil> { Extend::ext(Nil, x) }
pub fn root_ext_cons(l: Cons<E1, Tail>, x: E0) -> Cons<E0, Cons<E1, Tail>> { l.ext(x) }
pub fn root_ext_with_nil(x: E0) -> Cons<E0, Nil> { Nil.ext_with(|| x) }
pub fn root_ext_with_cons(l: Cons<E1, Tail>, x: E0) -> Cons<E0, Cons<E1, Tail>> { l.ext_with(|| x) }
pub fn root_empty_nil() -> Nil { <Nil as Extendable>::empty() }
pub fn root_empty_cons() -> Nil { <Cons<E0, Tail> as Extendable>::empty() }
pub fn root_unit_nil() -> Nil { Nil::from(()) }
pub fn root_rev_1(l: Cons<E0, Nil>) -> <Cons<E0, Nil> as NonEmptyHList>::Reversed { l.reverse() }
pub fn root_revrev_1(l: Cons<E0, Nil>) -> <<Cons<E0, Nil> as NonEmptyHList>::Reversed as NonEmptyHList>::Reversed { l.reverse().reverse() }
pub fn root_last_1(l: Cons<E0, Nil>) -> (<Cons<E0, Nil> as NonEmptyHList>::Last, <Cons<E0, Nil> as NonEmptyHList>::Init) { l.split_last() }
pub fn root_ref_1(l: &'static Cons<E0, Nil>) -> <&'static Cons<E0, Nil> as HListRef>::Target { l.to_ref() }
pub fn root_mut_1(l: &mut Cons<E0, Nil>, x0: E0) { { let m = l.to_mut(); *m.head = x0; } }
pub fn root_mut_1_0(l: &mut Cons<E0, Nil>, x: E0) { { let m = l.to_mut(); *m.head = x; } }
pub fn root_rev_2(l: Cons<E0, Cons<E1, Nil>>) -> <Cons<E0, Cons<E1, Nil>> as NonEmptyHList>::Reversed { l.reverse() }
pub fn root_revrev_2(l: Cons<E0, Cons<E1, Nil>>) -> <<Cons<E0, Cons<E1, Nil>> as NonEmptyHList>::Reversed as NonEmptyHList>::Reversed { l.reverse().reverse() }
pub fn root_last_2(l: Cons<E0, Cons<E1, Nil>>) -> (<Cons<E0, Cons<E1, Nil>> as NonEmptyHList>::Last, <Cons<E0, Cons<E1, Nil>> as NonEmptyHList>::Init) { l.split_last() }
pub fn root_ref_2(l: &'static Cons<E0, Cons<E1, Nil>>) -> <&'static Cons<E0, Cons<E1, Nil>> as HListRef>::Target { l.to_ref() }
pub fn root_mut_2(l: &mut Cons<E0, Cons<E0, Nil>>, x0: E0, x1: E0) { { let m = l.to_mut(); *m.head = x0; *m.tail.head = x1; } }
pub fn root_mut_2_0(l: &mut Cons<E0, Cons<E0, Nil>>, x: E0) { { let m = l.to_mut(); *m.head = x; } }
pub fn root_mut_2_1(l: &mut Cons<E0, Cons<E0, Nil>>, x: E0) { { let m = l.to_mut(); *m.tail.head = x; } }
pub fn root_rev_3(l: Cons<E0, Cons<E1, Cons<E2, Nil>>>) -> <Cons<E0, Cons<E1, Cons<E2, Nil>>> as NonEmptyHList>::Reversed { l.reverse() }
pub fn root_revrev_3(l: Cons<E0, Cons<E1, Cons<E2, Nil>>>) -> <<Cons<E0, Cons<E1, Cons<E2, Nil>>> as NonEmptyHList>::Reversed as NonEmptyHList>::Reversed { l.reverse().reverse() }
pub fn root_last_3(l: Cons<E0, Cons<E1, Cons<E2, Nil>>>) -> (<Cons<E0, Cons<E1, Cons<E2, Nil>>> as NonEmptyHList>::Last, <Cons<E0, Cons<E1, Cons<E2, Nil>>> as NonEmptyHList>::Init) { l.split_last() }
pub fn root_ref_3(l: &'static Cons<E0, Cons<E1, Cons<E2, Nil>>>) -> <&'static Cons<E0, Cons<E1, Cons<E2, Nil>>> as HListRef>::Target { l.to_ref() }
pub fn root_mut_3(l: &mut Cons<E0, Cons<E0, Cons<E0, Nil>>>, x0: E0, x1: E0, x2: E0) { { let m = l.to_mut(); *m.head = x0; *m.tail.head = x1; *m.tail.tail.head = x2; } }
pub fn root_mut_3_0(l: &mut Cons<E0, Cons<E0, Cons<E0, Nil>>>, x: E0) { { let m = l.to_mut(); *m.head = x; } }
pub fn root_mut_3_1(l: &mut Cons<E0, Cons<E0, Cons<E0, Nil>>>, x: E0) { { let m = l.to_mut(); *m.tail.head = x; } }
pub fn root_mut_3_2(l: &mut Cons<E0, Cons<E0, Cons<E0, Nil>>>, x: E0) { { let m = l.to_mut(); *m.tail.tail.head = x; } }
pub fn root_rev_4(l: Cons<E0, Cons<E1, Cons<E2, Cons<E3, Nil>>>>) -> <Cons<E0, Cons<E1, Cons<E2, Cons<E3, Nil>>>> as NonEmptyHList>::Reversed { l.reverse() }
pub fn root_revrev_4(l: Cons<E0, Cons<E1, Cons<E2, Cons<E3, Nil>>>>) -> <<Cons<E0, Cons<E1, Cons<E2, Cons<E3, Nil>>>> as NonEmptyHList>::Reversed as NonEmptyHList>::Reversed { l.reverse().reverse() }
pub fn root_last_4(l: Cons<E0, Cons<E1, Cons<E2, Cons<E3, Nil>>>>) -> (<Cons<E0, Cons<E1, Cons<E2, Cons<E3, Nil>>>> as NonEmptyHList>::Last, <Cons<E0, Cons<E1, Cons<E2, Cons<E3, Nil>>>> as NonEmptyHList>::Init) { l.split_last() }
pub fn root_ref_4(l: &'static Cons<E0, Cons<E1, Cons<E2, Cons<E3, Nil>>>>) -> <&'static Cons<E0, Cons<E1, Cons<E2, Cons<E3, Nil>>>> as HListRef>::Target { l.to_ref() }
pub fn root_mut_4(l: &mut Cons<E0, Cons<E0, Cons<E0, Cons<E0, Nil>>>>, x0: E0, x1: E0, x2: E0, x3: E0) { { let m = l.to_mut(); *m.head = x0; *m.tail.head = x1; *m.tail.tail.head = x2; *m.tail.tail.tail.head = x3; } }
pub fn root_mut_4_0(l: &mut Cons<E0, Cons<E0, Cons<E0, Cons<E0, Nil>>>>, x: E0) { { let m = l.to_mut(); *m.head = x; } }
pub fn root_mut_4_1(l: &mut Cons<E0, Cons<E0, Cons<E0, Cons<E0, Nil>>>>, x: E0) { { let m = l.to_mut(); *m.tail.head = x; } }
pub fn root_mut_4_2(l: &mut Cons<E0, Cons<E0, Cons<E0, Cons<E0, Nil>>>>, x: E0) { { let m = l.to_mut(); *m.tail.tail.head = x; } }
pub fn root_mut_4_3(l: &mut Cons<E0, Cons<E0, Cons<E0, Cons<E0, Nil>>>>, x: E0) { { let m = l.to_mut(); *m.tail.tail.tail.head = x; } }
pub fn root_rev_5(l: Cons<E0, Cons<E1, Cons<E2, Cons<E3, Cons<E4, Nil>>>>>) -> <Cons<E0, Cons<E1, Cons<E2, Cons<E3, Cons<E4, Nil>>>>> as NonEmptyHList>::Reversed { l.reverse() }
pub fn root_revrev_5(l: Cons<E0, Cons<E1, Cons<E2, Cons<E3, Cons<E4, Nil>>>>>) -> <<Cons<E0, Cons<E1, Cons<E2, Cons<E3, Cons<E4, Nil>>>>> as NonEmptyHList>::Reversed as NonEmptyHList>::Reversed { l.reverse().reverse() }
pub fn root_last_5(l: Cons<E0, Cons<E1, Cons<E2, Cons<E3, Cons<E4, Nil>>>>>) -> (<Cons<E0, Cons<E1, Cons<E2, Cons<E3, Cons<E4, Nil>>>>> as NonEmptyHList>::Last, <Cons<E0, Cons<E1, Cons<E2, Cons<E3, Cons<E4, Nil>>>>> as NonEmptyHList>::Init) { l.split_last() }
pub fn root_ref_5(l: &'static Cons<E0, Cons<E1, Cons<E2, Cons<E3, Cons<E4, Nil>>>>>) -> <&'static Cons<E0, Cons<E1, Cons<E2, Cons<E3, Cons<E4, Nil>>>>> as HListRef>::Target { l.to_ref() }
pub fn root_mut_5(l: &mut Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Nil>>>>>, x0: E0, x1: E0, x2: E0, x3: E0, x4: E0) { { let m = l.to_mut(); *m.head = x0; *m.tail.head = x1; *m.tail.tail.head = x2; *m.tail.tail.tail.head = x3; *m.tail.tail.tail.tail.head = x4; } }
pub fn root_mut_5_0(l: &mut Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Nil>>>>>, x: E0) { { let m = l.to_mut(); *m.head = x; } }
pub fn root_mut_5_1(l: &mut Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Nil>>>>>, x: E0) { { let m = l.to_mut(); *m.tail.head = x; } }
pub fn root_mut_5_2(l: &mut Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Nil>>>>>, x: E0) { { let m = l.to_mut(); *m.tail.tail.head = x; } }
pub fn root_mut_5_3(l: &mut Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Nil>>>>>, x: E0) { { let m = l.to_mut(); *m.tail.tail.tail.head = x; } }
pub fn root_mut_5_4(l: &mut Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Nil>>>>>, x: E0) { { let m = l.to_mut(); *m.tail.tail.tail.tail.head = x; } }
pub fn root_rev_6(l: Cons<E0, Cons<E1, Cons<E2, Cons<E3, Cons<E4, Cons<E5, Nil>>>>>>) -> <Cons<E0, Cons<E1, Cons<E2, Cons<E3, Cons<E4, Cons<E5, Nil>>>>>> as NonEmptyHList>::Reversed { l.reverse() }
pub fn root_revrev_6(l: Cons<E0, Cons<E1, Cons<E2, Cons<E3, Cons<E4, Cons<E5, Nil>>>>>>) -> <<Cons<E0, Cons<E1, Cons<E2, Cons<E3, Cons<E4, Cons<E5, Nil>>>>>> as NonEmptyHList>::Reversed as NonEmptyHList>::Reversed { l.reverse().reverse() }
pub fn root_last_6(l: Cons<E0, Cons<E1, Cons<E2, Cons<E3, Cons<E4, Cons<E5, Nil>>>>>>) -> (<Cons<E0, Cons<E1, Cons<E2, Cons<E3, Cons<E4, Cons<E5, Nil>>>>>> as NonEmptyHList>::Last, <Cons<E0, Cons<E1, Cons<E2, Cons<E3, Cons<E4, Cons<E5, Nil>>>>>> as NonEmptyHList>::Init) { l.split_last() }
pub fn root_ref_6(l: &'static Cons<E0, Cons<E1, Cons<E2, Cons<E3, Cons<E4, Cons<E5, Nil>>>>>>) -> <&'static Cons<E0, Cons<E1, Cons<E2, Cons<E3, Cons<E4, Cons<E5, Nil>>>>>> as HListRef>::Target { l.to_ref() }
pub fn root_mut_6(l: &mut Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Nil>>>>>>, x0: E0, x1: E0, x2: E0, x3: E0, x4: E0, x5: E0) { { let m = l.to_mut(); *m.head = x0; *m.tail.head = x1; *m.tail.tail.head = x2; *m.tail.tail.tail.head = x3; *m.tail.tail.tail.tail.head = x4; *m.tail.tail.tail.tail.tail.head = x5; } }
pub fn root_mut_6_0(l: &mut Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Nil>>>>>>, x: E0) { { let m = l.to_mut(); *m.head = x; } }
pub fn root_mut_6_1(l: &mut Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Nil>>>>>>, x: E0) { { let m = l.to_mut(); *m.tail.head = x; } }
pub fn root_mut_6_2(l: &mut Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Nil>>>>>>, x: E0) { { let m = l.to_mut(); *m.tail.tail.head = x; } }
pub fn root_mut_6_3(l: &mut Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Nil>>>>>>, x: E0) { { let m = l.to_mut(); *m.tail.tail.tail.head = x; } }
pub fn root_mut_6_4(l: &mut Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Nil>>>>>>, x: E0) { { let m = l.to_mut(); *m.tail.tail.tail.tail.head = x; } }
pub fn root_mut_6_5(l: &mut Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Cons<E0, Nil>>>>>>, x: E0) { { let m = l.to_mut(); *m.tail.tail.tail.tail.tail.head = x; } }
