// Generated by tools/mkroots.py from engine/setters.py.  Each function only calls one method.
#![allow(clippy::all, unused_imports)]
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_json::Value;
use std::borrow::Cow;
use time::OffsetDateTime;
use wot_td::{builder::*, extend::*, hlist::*, thing::*};

macro_rules! opaque { ($($n:ident = $k:literal),*) => { $(
    #[derive(Default)]
    pub struct $n(pub u64);
    impl Serialize for $n { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u64(self.0) } }
    impl<'de> Deserialize<'de> for $n { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { u64::deserialize(d).map($n) } }
    impl Extendable for $n { type Empty = $n; fn empty() -> $n { $n($k) } }
    impl Extend<XNew> for $n { type Target = X2<$n>; fn ext(self, t: XNew) -> X2<$n> { X2 { old: self, new: t } } }
)* } }
opaque!(XInter = 101, XProp = 102, XAct = 103, XEvt = 104, XForm = 105, XResp = 106, XData = 107, XObj = 108, XArr = 109, XNew = 110);
#[derive(Default, Serialize, Deserialize)]
pub struct X2<T> { pub old: T, pub new: XNew }
#[derive(Default, Serialize, Deserialize)]
pub struct Ext { pub tag: u64 }
#[derive(Serialize, Deserialize)]
pub struct Ext2 { pub old: Ext, pub new: XNew }
macro_rules! thing { ($($t:ty),*) => { $(
    impl ExtendableThing for $t {
        type InteractionAffordance = XInter;
        type PropertyAffordance = XProp;
        type ActionAffordance = XAct;
        type EventAffordance = XEvt;
        type Form = XForm;
        type ExpectedResponse = XResp;
        type DataSchema = XData;
        type ObjectSchema = XObj;
        type ArraySchema = XArr;
    }
)* } }
thing!(Ext, Ext2);
impl Extendable for Ext { type Empty = Ext; fn empty() -> Ext { Ext { tag: 101 } } }
impl Extend<XNew> for Ext { type Target = Ext2; fn ext(self, t: XNew) -> Ext2 { Ext2 { old: self, new: t } } }

pub fn root_ml_add(b: MultiLanguageBuilder<String>, k: String, v: String) -> MultiLanguageBuilder<String> { { let mut b = b; b.add(k, v); b } }
pub fn root_ctx_map_add(b: ThingBuilder<Ext, Extended>, k: String, v: String) -> ThingBuilder<Ext, Extended> { b.context_map(|m| m.context(k, v)) }
pub fn root_ctx_map_two(b: ThingBuilder<Ext, Extended>, k: String, v: String, l: String, w: String) -> ThingBuilder<Ext, Extended> { b.context_map(|m| m.context(k, v).context(l, w)) }
pub fn root_tb_new(t: String) -> ThingBuilder<Ext, ToExtend> { ThingBuilder::<Ext, ToExtend>::new(t) }
pub fn root_tb_new_empty(t: String) -> ThingBuilder<Ext, ToExtend> { ThingBuilder::<Ext, ToExtend>::new_empty(t) }
pub fn root_tb_thing_builder(t: String) -> ThingBuilder<Nil, ToExtend> { wot_td::Thing::<Nil>::builder(t) }
pub fn root_tb_finish(b: ThingBuilder<Ext, ToExtend>) -> ThingBuilder<Ext, Extended> { b.finish_extend() }
pub fn root_tb_id(b: ThingBuilder<Ext, Extended>, x: String) -> ThingBuilder<Ext, Extended> { b.id(x) }
pub fn root_tb_description(b: ThingBuilder<Ext, Extended>, x: String) -> ThingBuilder<Ext, Extended> { b.description(x) }
pub fn root_tb_support(b: ThingBuilder<Ext, Extended>, x: String) -> ThingBuilder<Ext, Extended> { b.support(x) }
pub fn root_tb_base(b: ThingBuilder<Ext, Extended>, x: String) -> ThingBuilder<Ext, Extended> { b.base(x) }
pub fn root_tb_version(b: ThingBuilder<Ext, Extended>, x: VersionInfo) -> ThingBuilder<Ext, Extended> { b.version(x) }
pub fn root_tb_version_text(b: ThingBuilder<Ext, Extended>, x: String) -> ThingBuilder<Ext, Extended> { b.version(x) }
pub fn root_tb_created(b: ThingBuilder<Ext, Extended>, x: OffsetDateTime) -> ThingBuilder<Ext, Extended> { b.created(x) }
pub fn root_tb_modified(b: ThingBuilder<Ext, Extended>, x: OffsetDateTime) -> ThingBuilder<Ext, Extended> { b.modified(x) }
pub fn root_tb_context(b: ThingBuilder<Ext, Extended>, x: String) -> ThingBuilder<Ext, Extended> { b.context(x) }
pub fn root_tb_attype(b: ThingBuilder<Ext, Extended>, x: String) -> ThingBuilder<Ext, Extended> { b.attype(x) }
pub fn root_tb_titles(b: ThingBuilder<Ext, Extended>, m: MultiLanguageBuilder<String>) -> ThingBuilder<Ext, Extended> { b.titles(|x| { *x = m; x }) }
pub fn root_tb_descriptions(b: ThingBuilder<Ext, Extended>, m: MultiLanguageBuilder<String>) -> ThingBuilder<Ext, Extended> { b.descriptions(|x| { *x = m; x }) }
pub fn root_tb_titles_fresh(b: ThingBuilder<Ext, Extended>, k: String, v: String) -> ThingBuilder<Ext, Extended> { b.titles(|x| x.add(k, v)) }
pub fn root_tb_descriptions_fresh(b: ThingBuilder<Ext, Extended>, k: String, v: String) -> ThingBuilder<Ext, Extended> { b.descriptions(|x| x.add(k, v)) }
pub fn root_tb_link(b: ThingBuilder<Ext, Extended>, x: String) -> ThingBuilder<Ext, Extended> { b.link(x) }
pub fn root_tb_link_with(b: ThingBuilder<Ext, Extended>, l: LinkBuilder<String>) -> ThingBuilder<Ext, Extended> { b.link_with(|_| l) }
pub fn root_tb_link_with_fresh(b: ThingBuilder<Ext, Extended>, h: String) -> ThingBuilder<Ext, Extended> { b.link_with(|x| x.href(h)) }
pub fn root_tb_profile(b: ThingBuilder<Ext, Extended>, x: String) -> ThingBuilder<Ext, Extended> { b.profile(x) }
pub fn root_tb_security_nosec(b: ThingBuilder<Ext, Extended>, s: SecuritySchemeBuilder<SecuritySchemeNoSecTag>) -> ThingBuilder<Ext, Extended> { b.security(|_| s) }
pub fn root_tb_security_auto(b: ThingBuilder<Ext, Extended>, s: SecuritySchemeBuilder<SecuritySchemeAutoTag>) -> ThingBuilder<Ext, Extended> { b.security(|_| s) }
pub fn root_tb_security_allof(b: ThingBuilder<Ext, Extended>, s: SecuritySchemeBuilder<(AllOfComboSecuritySchemeTag, Vec<String>)>) -> ThingBuilder<Ext, Extended> { b.security(|_| s) }
pub fn root_tb_security_oneof(b: ThingBuilder<Ext, Extended>, s: SecuritySchemeBuilder<(OneOfComboSecuritySchemeTag, Vec<String>)>) -> ThingBuilder<Ext, Extended> { b.security(|_| s) }
pub fn root_tb_security_basic(b: ThingBuilder<Ext, Extended>, s: SecuritySchemeBuilder<BasicSecurityScheme>) -> ThingBuilder<Ext, Extended> { b.security(|_| s) }
pub fn root_tb_security_digest(b: ThingBuilder<Ext, Extended>, s: SecuritySchemeBuilder<DigestSecurityScheme>) -> ThingBuilder<Ext, Extended> { b.security(|_| s) }
pub fn root_tb_security_bearer(b: ThingBuilder<Ext, Extended>, s: SecuritySchemeBuilder<BearerSecurityScheme>) -> ThingBuilder<Ext, Extended> { b.security(|_| s) }
pub fn root_tb_security_psk(b: ThingBuilder<Ext, Extended>, s: SecuritySchemeBuilder<PskSecurityScheme>) -> ThingBuilder<Ext, Extended> { b.security(|_| s) }
pub fn root_tb_security_oauth2(b: ThingBuilder<Ext, Extended>, s: SecuritySchemeBuilder<OAuth2SecurityScheme>) -> ThingBuilder<Ext, Extended> { b.security(|_| s) }
pub fn root_tb_security_apikey(b: ThingBuilder<Ext, Extended>, s: SecuritySchemeBuilder<ApiKeySecurityScheme>) -> ThingBuilder<Ext, Extended> { b.security(|_| s) }
pub fn root_tb_security_custom(b: ThingBuilder<Ext, Extended>, s: SecuritySchemeBuilder<UnknownSecuritySchemeSubtype>) -> ThingBuilder<Ext, Extended> { b.security(|_| s) }
pub fn root_tb_security_fresh(b: ThingBuilder<Ext, Extended>) -> ThingBuilder<Ext, Extended> { b.security(|x| x.no_sec()) }
pub fn root_tb_security_fresh_required(b: ThingBuilder<Ext, Extended>) -> ThingBuilder<Ext, Extended> { b.security(|x| x.auto().required()) }
pub fn root_tb0_id(b: ThingBuilder<Ext, ToExtend>, x: String) -> ThingBuilder<Ext, ToExtend> { b.id(x) }
pub fn root_tb0_description(b: ThingBuilder<Ext, ToExtend>, x: String) -> ThingBuilder<Ext, ToExtend> { b.description(x) }
pub fn root_tb0_support(b: ThingBuilder<Ext, ToExtend>, x: String) -> ThingBuilder<Ext, ToExtend> { b.support(x) }
pub fn root_tb0_base(b: ThingBuilder<Ext, ToExtend>, x: String) -> ThingBuilder<Ext, ToExtend> { b.base(x) }
pub fn root_tb0_version(b: ThingBuilder<Ext, ToExtend>, x: VersionInfo) -> ThingBuilder<Ext, ToExtend> { b.version(x) }
pub fn root_tb0_version_text(b: ThingBuilder<Ext, ToExtend>, x: String) -> ThingBuilder<Ext, ToExtend> { b.version(x) }
pub fn root_tb0_created(b: ThingBuilder<Ext, ToExtend>, x: OffsetDateTime) -> ThingBuilder<Ext, ToExtend> { b.created(x) }
pub fn root_tb0_modified(b: ThingBuilder<Ext, ToExtend>, x: OffsetDateTime) -> ThingBuilder<Ext, ToExtend> { b.modified(x) }
pub fn root_tb0_context(b: ThingBuilder<Ext, ToExtend>, x: String) -> ThingBuilder<Ext, ToExtend> { b.context(x) }
pub fn root_tb0_attype(b: ThingBuilder<Ext, ToExtend>, x: String) -> ThingBuilder<Ext, ToExtend> { b.attype(x) }
pub fn root_tb0_titles(b: ThingBuilder<Ext, ToExtend>, m: MultiLanguageBuilder<String>) -> ThingBuilder<Ext, ToExtend> { b.titles(|x| { *x = m; x }) }
pub fn root_tb0_descriptions(b: ThingBuilder<Ext, ToExtend>, m: MultiLanguageBuilder<String>) -> ThingBuilder<Ext, ToExtend> { b.descriptions(|x| { *x = m; x }) }
pub fn root_tb0_titles_fresh(b: ThingBuilder<Ext, ToExtend>, k: String, v: String) -> ThingBuilder<Ext, ToExtend> { b.titles(|x| x.add(k, v)) }
pub fn root_tb0_descriptions_fresh(b: ThingBuilder<Ext, ToExtend>, k: String, v: String) -> ThingBuilder<Ext, ToExtend> { b.descriptions(|x| x.add(k, v)) }
pub fn root_tb0_link(b: ThingBuilder<Ext, ToExtend>, x: String) -> ThingBuilder<Ext, ToExtend> { b.link(x) }
pub fn root_tb0_link_with(b: ThingBuilder<Ext, ToExtend>, l: LinkBuilder<String>) -> ThingBuilder<Ext, ToExtend> { b.link_with(|_| l) }
pub fn root_tb0_link_with_fresh(b: ThingBuilder<Ext, ToExtend>, h: String) -> ThingBuilder<Ext, ToExtend> { b.link_with(|x| x.href(h)) }
pub fn root_tb0_profile(b: ThingBuilder<Ext, ToExtend>, x: String) -> ThingBuilder<Ext, ToExtend> { b.profile(x) }
pub fn root_tb0_security_nosec(b: ThingBuilder<Ext, ToExtend>, s: SecuritySchemeBuilder<SecuritySchemeNoSecTag>) -> ThingBuilder<Ext, ToExtend> { b.security(|_| s) }
pub fn root_tb0_security_auto(b: ThingBuilder<Ext, ToExtend>, s: SecuritySchemeBuilder<SecuritySchemeAutoTag>) -> ThingBuilder<Ext, ToExtend> { b.security(|_| s) }
pub fn root_tb0_security_allof(b: ThingBuilder<Ext, ToExtend>, s: SecuritySchemeBuilder<(AllOfComboSecuritySchemeTag, Vec<String>)>) -> ThingBuilder<Ext, ToExtend> { b.security(|_| s) }
pub fn root_tb0_security_oneof(b: ThingBuilder<Ext, ToExtend>, s: SecuritySchemeBuilder<(OneOfComboSecuritySchemeTag, Vec<String>)>) -> ThingBuilder<Ext, ToExtend> { b.security(|_| s) }
pub fn root_tb0_security_basic(b: ThingBuilder<Ext, ToExtend>, s: SecuritySchemeBuilder<BasicSecurityScheme>) -> ThingBuilder<Ext, ToExtend> { b.security(|_| s) }
pub fn root_tb0_security_digest(b: ThingBuilder<Ext, ToExtend>, s: SecuritySchemeBuilder<DigestSecurityScheme>) -> ThingBuilder<Ext, ToExtend> { b.security(|_| s) }
pub fn root_tb0_security_bearer(b: ThingBuilder<Ext, ToExtend>, s: SecuritySchemeBuilder<BearerSecurityScheme>) -> ThingBuilder<Ext, ToExtend> { b.security(|_| s) }
pub fn root_tb0_security_psk(b: ThingBuilder<Ext, ToExtend>, s: SecuritySchemeBuilder<PskSecurityScheme>) -> ThingBuilder<Ext, ToExtend> { b.security(|_| s) }
pub fn root_tb0_security_oauth2(b: ThingBuilder<Ext, ToExtend>, s: SecuritySchemeBuilder<OAuth2SecurityScheme>) -> ThingBuilder<Ext, ToExtend> { b.security(|_| s) }
pub fn root_tb0_security_apikey(b: ThingBuilder<Ext, ToExtend>, s: SecuritySchemeBuilder<ApiKeySecurityScheme>) -> ThingBuilder<Ext, ToExtend> { b.security(|_| s) }
pub fn root_tb0_security_custom(b: ThingBuilder<Ext, ToExtend>, s: SecuritySchemeBuilder<UnknownSecuritySchemeSubtype>) -> ThingBuilder<Ext, ToExtend> { b.security(|_| s) }
pub fn root_tb0_security_fresh(b: ThingBuilder<Ext, ToExtend>) -> ThingBuilder<Ext, ToExtend> { b.security(|x| x.no_sec()) }
pub fn root_tb0_security_fresh_required(b: ThingBuilder<Ext, ToExtend>) -> ThingBuilder<Ext, ToExtend> { b.security(|x| x.auto().required()) }
pub fn root_tb_ext(b: ThingBuilder<Ext, ToExtend>, t: XNew) -> ThingBuilder<Ext2, ToExtend> { b.ext(t) }
pub fn root_tb_ext_with(b: ThingBuilder<Ext, ToExtend>, t: XNew) -> ThingBuilder<Ext2, ToExtend> { b.ext_with(|| t) }
pub fn root_tb_form(b: ThingBuilder<Ext, Extended>, f: FormBuilder<Ext, String, XForm>) -> ThingBuilder<Ext, Extended> { b.form(|_| f) }
pub fn root_tb_form_fresh(b: ThingBuilder<Ext, Extended>, h: String) -> ThingBuilder<Ext, Extended> { b.form(|x| x.href(h)) }
pub fn root_tb_uri_variable(b: ThingBuilder<Ext, Extended>, k: String, u: UncheckedDataSchema<XData, XArr, XObj>) -> ThingBuilder<Ext, Extended> { b.uri_variable(k, |_| u) }
pub fn root_tb_schema_definition(b: ThingBuilder<Ext, Extended>, k: String, u: UncheckedDataSchema<XData, XArr, XObj>) -> ThingBuilder<Ext, Extended> { b.schema_definition(k, |_| u) }
pub fn root_tb_uri_variable_fresh(b: ThingBuilder<Ext, Extended>, k: String) -> ThingBuilder<Ext, Extended> { b.uri_variable(k, |d| d.finish_extend().string()) }
pub fn root_tb_schema_definition_fresh(b: ThingBuilder<Ext, Extended>, k: String) -> ThingBuilder<Ext, Extended> { b.schema_definition(k, |d| d.finish_extend().string()) }
pub fn root_tb_property(b: ThingBuilder<Ext, Extended>, k: String, p: PropertyAffordanceBuilder<Ext, PartialDataSchema<XData, XArr, XObj>, XInter, XProp>) -> ThingBuilder<Ext, Extended> { b.property(k, |_| p) }
pub fn root_tb_action(b: ThingBuilder<Ext, Extended>, k: String, p: ActionAffordanceBuilder<Ext, XInter, XAct>) -> ThingBuilder<Ext, Extended> { b.action(k, |_| p) }
pub fn root_tb_event(b: ThingBuilder<Ext, Extended>, k: String, p: EventAffordanceBuilder<Ext, XInter, XEvt>) -> ThingBuilder<Ext, Extended> { b.event(k, |_| p) }
pub fn root_tb_property_fresh(b: ThingBuilder<Ext, Extended>, k: String) -> ThingBuilder<Ext, Extended> { b.property(k, |p| p.finish_extend_data_schema().string()) }
pub fn root_tb_action_fresh(b: ThingBuilder<Ext, Extended>, k: String) -> ThingBuilder<Ext, Extended> { b.action(k, |p| p) }
pub fn root_tb_event_fresh(b: ThingBuilder<Ext, Extended>, k: String) -> ThingBuilder<Ext, Extended> { b.event(k, |p| p) }
pub fn root_lb_href(b: LinkBuilder<()>, x: String) -> LinkBuilder<String> { b.href(x) }
pub fn root_lb_u_ty(b: LinkBuilder<()>, x: String) -> LinkBuilder<()> { b.ty(x) }
pub fn root_lb_u_rel(b: LinkBuilder<()>, x: String) -> LinkBuilder<()> { b.rel(x) }
pub fn root_lb_u_anchor(b: LinkBuilder<()>, x: String) -> LinkBuilder<()> { b.anchor(x) }
pub fn root_lb_u_sizes(b: LinkBuilder<()>, x: String) -> LinkBuilder<()> { b.sizes(x) }
pub fn root_lb_u_hreflang(b: LinkBuilder<()>, x: String) -> LinkBuilder<()> { b.hreflang(x) }
pub fn root_lb_s_ty(b: LinkBuilder<String>, x: String) -> LinkBuilder<String> { b.ty(x) }
pub fn root_lb_s_rel(b: LinkBuilder<String>, x: String) -> LinkBuilder<String> { b.rel(x) }
pub fn root_lb_s_anchor(b: LinkBuilder<String>, x: String) -> LinkBuilder<String> { b.anchor(x) }
pub fn root_lb_s_sizes(b: LinkBuilder<String>, x: String) -> LinkBuilder<String> { b.sizes(x) }
pub fn root_lb_s_hreflang(b: LinkBuilder<String>, x: String) -> LinkBuilder<String> { b.hreflang(x) }
pub fn root_sb_no_sec(b: SecuritySchemeBuilder<()>) -> SecuritySchemeBuilder<SecuritySchemeNoSecTag> { b.no_sec() }
pub fn root_sb_auto(b: SecuritySchemeBuilder<()>) -> SecuritySchemeBuilder<SecuritySchemeAutoTag> { b.auto() }
pub fn root_sb_combo(b: SecuritySchemeBuilder<()>) -> SecuritySchemeBuilder<EmptyComboSecuritySchemeTag> { b.combo() }
pub fn root_sb_basic(b: SecuritySchemeBuilder<()>) -> SecuritySchemeBuilder<BasicSecurityScheme> { b.basic() }
pub fn root_sb_digest(b: SecuritySchemeBuilder<()>) -> SecuritySchemeBuilder<DigestSecurityScheme> { b.digest() }
pub fn root_sb_bearer(b: SecuritySchemeBuilder<()>) -> SecuritySchemeBuilder<BearerSecurityScheme> { b.bearer() }
pub fn root_sb_psk(b: SecuritySchemeBuilder<()>) -> SecuritySchemeBuilder<PskSecurityScheme> { b.psk() }
pub fn root_sb_apikey(b: SecuritySchemeBuilder<()>) -> SecuritySchemeBuilder<ApiKeySecurityScheme> { b.apikey() }
pub fn root_sb_oauth2(b: SecuritySchemeBuilder<()>, x: String) -> SecuritySchemeBuilder<OAuth2SecurityScheme> { b.oauth2(x) }
pub fn root_sb_custom(b: SecuritySchemeBuilder<()>, x: String) -> SecuritySchemeBuilder<UnknownSecuritySchemeSubtype> { b.custom(x) }
pub fn root_sb_description(b: SecuritySchemeBuilder<XData>, x: String) -> SecuritySchemeBuilder<XData> { b.description(x) }
pub fn root_sb_proxy(b: SecuritySchemeBuilder<XData>, x: String) -> SecuritySchemeBuilder<XData> { b.proxy(x) }
pub fn root_sb_attype(b: SecuritySchemeBuilder<XData>, x: String) -> SecuritySchemeBuilder<XData> { b.attype(x) }
pub fn root_sb_descriptions(b: SecuritySchemeBuilder<XData>, m: MultiLanguageBuilder<String>) -> SecuritySchemeBuilder<XData> { b.descriptions(|x| { *x = m; x }) }
pub fn root_sb_descriptions_fresh(b: SecuritySchemeBuilder<XData>, k: String, v: String) -> SecuritySchemeBuilder<XData> { b.descriptions(|x| x.add(k, v)) }
pub fn root_sb_with_key(b: SecuritySchemeBuilder<XData>, x: String) -> SecuritySchemeBuilder<XData> { b.with_key(x) }
pub fn root_sb_required(b: SecuritySchemeBuilder<XData>) -> SecuritySchemeBuilder<XData> { b.required() }
pub fn root_sb_basic_name(b: SecuritySchemeBuilder<BasicSecurityScheme>, x: String) -> SecuritySchemeBuilder<BasicSecurityScheme> { b.name(x) }
pub fn root_sb_basic_location(b: SecuritySchemeBuilder<BasicSecurityScheme>, x: SecurityAuthenticationLocation) -> SecuritySchemeBuilder<BasicSecurityScheme> { b.location(x) }
pub fn root_sb_digest_name(b: SecuritySchemeBuilder<DigestSecurityScheme>, x: String) -> SecuritySchemeBuilder<DigestSecurityScheme> { b.name(x) }
pub fn root_sb_digest_location(b: SecuritySchemeBuilder<DigestSecurityScheme>, x: SecurityAuthenticationLocation) -> SecuritySchemeBuilder<DigestSecurityScheme> { b.location(x) }
pub fn root_sb_apikey_name(b: SecuritySchemeBuilder<ApiKeySecurityScheme>, x: String) -> SecuritySchemeBuilder<ApiKeySecurityScheme> { b.name(x) }
pub fn root_sb_apikey_location(b: SecuritySchemeBuilder<ApiKeySecurityScheme>, x: SecurityAuthenticationLocation) -> SecuritySchemeBuilder<ApiKeySecurityScheme> { b.location(x) }
pub fn root_sb_bearer_name(b: SecuritySchemeBuilder<BearerSecurityScheme>, x: String) -> SecuritySchemeBuilder<BearerSecurityScheme> { b.name(x) }
pub fn root_sb_bearer_location(b: SecuritySchemeBuilder<BearerSecurityScheme>, x: SecurityAuthenticationLocation) -> SecuritySchemeBuilder<BearerSecurityScheme> { b.location(x) }
pub fn root_sb_combo_name(b: SecuritySchemeBuilder<EmptyComboSecuritySchemeTag>, x: String) -> SecuritySchemeBuilder<EmptyComboSecuritySchemeTag> { b.name(x) }
pub fn root_sb_all_of(b: SecuritySchemeBuilder<EmptyComboSecuritySchemeTag>, x: Vec<String>) -> SecuritySchemeBuilder<(AllOfComboSecuritySchemeTag, Vec<String>)> { b.all_of(x) }
pub fn root_sb_all_of_push(b: SecuritySchemeBuilder<(AllOfComboSecuritySchemeTag, Vec<String>)>, x: String) -> SecuritySchemeBuilder<(AllOfComboSecuritySchemeTag, Vec<String>)> { b.push(x) }
pub fn root_sb_all_of_extend(b: SecuritySchemeBuilder<(AllOfComboSecuritySchemeTag, Vec<String>)>, x: Vec<String>) -> SecuritySchemeBuilder<(AllOfComboSecuritySchemeTag, Vec<String>)> { b.extend(x) }
pub fn root_sb_all_of_name(b: SecuritySchemeBuilder<(AllOfComboSecuritySchemeTag, Vec<String>)>, x: String) -> SecuritySchemeBuilder<(AllOfComboSecuritySchemeTag, Vec<String>)> { b.name(x) }
pub fn root_sb_one_of(b: SecuritySchemeBuilder<EmptyComboSecuritySchemeTag>, x: Vec<String>) -> SecuritySchemeBuilder<(OneOfComboSecuritySchemeTag, Vec<String>)> { b.one_of(x) }
pub fn root_sb_one_of_push(b: SecuritySchemeBuilder<(OneOfComboSecuritySchemeTag, Vec<String>)>, x: String) -> SecuritySchemeBuilder<(OneOfComboSecuritySchemeTag, Vec<String>)> { b.push(x) }
pub fn root_sb_one_of_extend(b: SecuritySchemeBuilder<(OneOfComboSecuritySchemeTag, Vec<String>)>, x: Vec<String>) -> SecuritySchemeBuilder<(OneOfComboSecuritySchemeTag, Vec<String>)> { b.extend(x) }
pub fn root_sb_one_of_name(b: SecuritySchemeBuilder<(OneOfComboSecuritySchemeTag, Vec<String>)>, x: String) -> SecuritySchemeBuilder<(OneOfComboSecuritySchemeTag, Vec<String>)> { b.name(x) }
pub fn root_sb_qop(b: SecuritySchemeBuilder<DigestSecurityScheme>, x: QualityOfProtection) -> SecuritySchemeBuilder<DigestSecurityScheme> { b.qop(x) }
pub fn root_sb_bearer_authorization(b: SecuritySchemeBuilder<BearerSecurityScheme>, x: String) -> SecuritySchemeBuilder<BearerSecurityScheme> { b.authorization(x) }
pub fn root_sb_bearer_alg(b: SecuritySchemeBuilder<BearerSecurityScheme>, x: Cow<'static, str>) -> SecuritySchemeBuilder<BearerSecurityScheme> { b.alg(x) }
pub fn root_sb_bearer_format(b: SecuritySchemeBuilder<BearerSecurityScheme>, x: Cow<'static, str>) -> SecuritySchemeBuilder<BearerSecurityScheme> { b.format(x) }
pub fn root_sb_oauth2_authorization(b: SecuritySchemeBuilder<OAuth2SecurityScheme>, x: String) -> SecuritySchemeBuilder<OAuth2SecurityScheme> { b.authorization(x) }
pub fn root_sb_oauth2_token(b: SecuritySchemeBuilder<OAuth2SecurityScheme>, x: String) -> SecuritySchemeBuilder<OAuth2SecurityScheme> { b.token(x) }
pub fn root_sb_oauth2_refresh(b: SecuritySchemeBuilder<OAuth2SecurityScheme>, x: String) -> SecuritySchemeBuilder<OAuth2SecurityScheme> { b.refresh(x) }
pub fn root_sb_oauth2_scope(b: SecuritySchemeBuilder<OAuth2SecurityScheme>, x: String) -> SecuritySchemeBuilder<OAuth2SecurityScheme> { b.scope(x) }
pub fn root_sb_custom_data(b: SecuritySchemeBuilder<UnknownSecuritySchemeSubtype>, x: Value) -> SecuritySchemeBuilder<UnknownSecuritySchemeSubtype> { b.data(x) }
pub fn root_fb_href(b: FormBuilder<Ext, (), XForm>, x: String) -> FormBuilder<Ext, String, XForm> { b.href(x) }
pub fn root_fb_u_content_type(b: FormBuilder<Ext, (), XForm>, x: String) -> FormBuilder<Ext, (), XForm> { b.content_type(x) }
pub fn root_fb_u_content_coding(b: FormBuilder<Ext, (), XForm>, x: String) -> FormBuilder<Ext, (), XForm> { b.content_coding(x) }
pub fn root_fb_u_subprotocol(b: FormBuilder<Ext, (), XForm>, x: String) -> FormBuilder<Ext, (), XForm> { b.subprotocol(x) }
pub fn root_fb_u_op(b: FormBuilder<Ext, (), XForm>, x: FormOperation) -> FormBuilder<Ext, (), XForm> { b.op(x) }
pub fn root_fb_u_security(b: FormBuilder<Ext, (), XForm>, x: String) -> FormBuilder<Ext, (), XForm> { b.security(x) }
pub fn root_fb_u_scope(b: FormBuilder<Ext, (), XForm>, x: String) -> FormBuilder<Ext, (), XForm> { b.scope(x) }
pub fn root_fb_u_response_default(b: FormBuilder<Ext, (), XForm>, x: String) -> FormBuilder<Ext, (), XForm> { b.response_default_ext(x) }
pub fn root_fb_u_response(b: FormBuilder<Ext, (), XForm>, x: String, o: XResp) -> FormBuilder<Ext, (), XForm> { b.response(x, |_| o) }
pub fn root_fb_u_response_fresh(b: FormBuilder<Ext, (), XForm>, x: String) -> FormBuilder<Ext, (), XForm> { b.response(x, |o| o) }
pub fn root_fb_u_additional(b: FormBuilder<Ext, (), XForm>, r: AdditionalExpectedResponseBuilder) -> FormBuilder<Ext, (), XForm> { b.additional_response(|x| { *x = r; x }) }
pub fn root_fb_u_additional_fresh(b: FormBuilder<Ext, (), XForm>) -> FormBuilder<Ext, (), XForm> { b.additional_response(|x| x) }
pub fn root_fb_u_ext(b: FormBuilder<Ext, (), XForm>, x: XNew) -> FormBuilder<Ext, (), X2<XForm>> { b.ext(x) }
pub fn root_fb_u_ext_with(b: FormBuilder<Ext, (), XForm>, x: XNew) -> FormBuilder<Ext, (), X2<XForm>> { b.ext_with(|| x) }
pub fn root_fb_s_content_type(b: FormBuilder<Ext, String, XForm>, x: String) -> FormBuilder<Ext, String, XForm> { b.content_type(x) }
pub fn root_fb_s_content_coding(b: FormBuilder<Ext, String, XForm>, x: String) -> FormBuilder<Ext, String, XForm> { b.content_coding(x) }
pub fn root_fb_s_subprotocol(b: FormBuilder<Ext, String, XForm>, x: String) -> FormBuilder<Ext, String, XForm> { b.subprotocol(x) }
pub fn root_fb_s_op(b: FormBuilder<Ext, String, XForm>, x: FormOperation) -> FormBuilder<Ext, String, XForm> { b.op(x) }
pub fn root_fb_s_security(b: FormBuilder<Ext, String, XForm>, x: String) -> FormBuilder<Ext, String, XForm> { b.security(x) }
pub fn root_fb_s_scope(b: FormBuilder<Ext, String, XForm>, x: String) -> FormBuilder<Ext, String, XForm> { b.scope(x) }
pub fn root_fb_s_response_default(b: FormBuilder<Ext, String, XForm>, x: String) -> FormBuilder<Ext, String, XForm> { b.response_default_ext(x) }
pub fn root_fb_s_response(b: FormBuilder<Ext, String, XForm>, x: String, o: XResp) -> FormBuilder<Ext, String, XForm> { b.response(x, |_| o) }
pub fn root_fb_s_response_fresh(b: FormBuilder<Ext, String, XForm>, x: String) -> FormBuilder<Ext, String, XForm> { b.response(x, |o| o) }
pub fn root_fb_s_additional(b: FormBuilder<Ext, String, XForm>, r: AdditionalExpectedResponseBuilder) -> FormBuilder<Ext, String, XForm> { b.additional_response(|x| { *x = r; x }) }
pub fn root_fb_s_additional_fresh(b: FormBuilder<Ext, String, XForm>) -> FormBuilder<Ext, String, XForm> { b.additional_response(|x| x) }
pub fn root_fb_s_ext(b: FormBuilder<Ext, String, XForm>, x: XNew) -> FormBuilder<Ext, String, X2<XForm>> { b.ext(x) }
pub fn root_fb_s_ext_with(b: FormBuilder<Ext, String, XForm>, x: XNew) -> FormBuilder<Ext, String, X2<XForm>> { b.ext_with(|| x) }
pub fn root_fb_into_form(b: FormBuilder<Ext, String, XForm>) -> Form<Ext> { b.into() }
pub fn root_ar_success(b: AdditionalExpectedResponseBuilder) -> AdditionalExpectedResponseBuilder { { let mut b = b; b.success(); b } }
pub fn root_ar_content_type(b: AdditionalExpectedResponseBuilder, x: String) -> AdditionalExpectedResponseBuilder { { let mut b = b; b.content_type(x); b } }
pub fn root_ar_schema(b: AdditionalExpectedResponseBuilder, x: String) -> AdditionalExpectedResponseBuilder { { let mut b = b; b.schema(x); b } }
pub fn root_hr_attype(b: HumanReadableInfo, x: String) -> HumanReadableInfo { BuildableHumanReadableInfo::attype(b, x) }
pub fn root_hr_title(b: HumanReadableInfo, x: String) -> HumanReadableInfo { BuildableHumanReadableInfo::title(b, x) }
pub fn root_hr_titles(b: HumanReadableInfo, m: MultiLanguageBuilder<String>) -> HumanReadableInfo { BuildableHumanReadableInfo::titles(b, |x| { *x = m; x }) }
pub fn root_hr_description(b: HumanReadableInfo, x: String) -> HumanReadableInfo { BuildableHumanReadableInfo::description(b, x) }
pub fn root_hr_descriptions(b: HumanReadableInfo, m: MultiLanguageBuilder<String>) -> HumanReadableInfo { BuildableHumanReadableInfo::descriptions(b, |x| { *x = m; x }) }
pub fn root_hr_titles_fresh(b: HumanReadableInfo, k: String, v: String) -> HumanReadableInfo { b.titles(|x| x.add(k, v)) }
pub fn root_hr_descriptions_fresh(b: HumanReadableInfo, k: String, v: String) -> HumanReadableInfo { b.descriptions(|x| x.add(k, v)) }
pub fn root_hr_d_attype(b: DataSchemaBuilder<XData, XArr, XObj, Extended>, x: String) -> DataSchemaBuilder<XData, XArr, XObj, Extended> { BuildableHumanReadableInfo::attype(b, x) }
pub fn root_hr_d_title(b: DataSchemaBuilder<XData, XArr, XObj, Extended>, x: String) -> DataSchemaBuilder<XData, XArr, XObj, Extended> { BuildableHumanReadableInfo::title(b, x) }
pub fn root_hr_d_titles(b: DataSchemaBuilder<XData, XArr, XObj, Extended>, m: MultiLanguageBuilder<String>) -> DataSchemaBuilder<XData, XArr, XObj, Extended> { BuildableHumanReadableInfo::titles(b, |x| { *x = m; x }) }
pub fn root_hr_d_description(b: DataSchemaBuilder<XData, XArr, XObj, Extended>, x: String) -> DataSchemaBuilder<XData, XArr, XObj, Extended> { BuildableHumanReadableInfo::description(b, x) }
pub fn root_hr_d_descriptions(b: DataSchemaBuilder<XData, XArr, XObj, Extended>, m: MultiLanguageBuilder<String>) -> DataSchemaBuilder<XData, XArr, XObj, Extended> { BuildableHumanReadableInfo::descriptions(b, |x| { *x = m; x }) }
pub fn root_hr_d0_attype(b: DataSchemaBuilder<XData, XArr, XObj, ToExtend>, x: String) -> DataSchemaBuilder<XData, XArr, XObj, ToExtend> { BuildableHumanReadableInfo::attype(b, x) }
pub fn root_hr_d0_title(b: DataSchemaBuilder<XData, XArr, XObj, ToExtend>, x: String) -> DataSchemaBuilder<XData, XArr, XObj, ToExtend> { BuildableHumanReadableInfo::title(b, x) }
pub fn root_hr_d0_titles(b: DataSchemaBuilder<XData, XArr, XObj, ToExtend>, m: MultiLanguageBuilder<String>) -> DataSchemaBuilder<XData, XArr, XObj, ToExtend> { BuildableHumanReadableInfo::titles(b, |x| { *x = m; x }) }
pub fn root_hr_d0_description(b: DataSchemaBuilder<XData, XArr, XObj, ToExtend>, x: String) -> DataSchemaBuilder<XData, XArr, XObj, ToExtend> { BuildableHumanReadableInfo::description(b, x) }
pub fn root_hr_d0_descriptions(b: DataSchemaBuilder<XData, XArr, XObj, ToExtend>, m: MultiLanguageBuilder<String>) -> DataSchemaBuilder<XData, XArr, XObj, ToExtend> { BuildableHumanReadableInfo::descriptions(b, |x| { *x = m; x }) }
pub fn root_hr_pa_attype(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>, x: String) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp> { BuildableHumanReadableInfo::attype(b, x) }
pub fn root_hr_pa_title(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>, x: String) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp> { BuildableHumanReadableInfo::title(b, x) }
pub fn root_hr_pa_titles(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>, m: MultiLanguageBuilder<String>) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp> { BuildableHumanReadableInfo::titles(b, |x| { *x = m; x }) }
pub fn root_hr_pa_description(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>, x: String) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp> { BuildableHumanReadableInfo::description(b, x) }
pub fn root_hr_pa_descriptions(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>, m: MultiLanguageBuilder<String>) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp> { BuildableHumanReadableInfo::descriptions(b, |x| { *x = m; x }) }
pub fn root_hr_aa_attype(b: ActionAffordanceBuilder<Ext, XInter, XAct>, x: String) -> ActionAffordanceBuilder<Ext, XInter, XAct> { BuildableHumanReadableInfo::attype(b, x) }
pub fn root_hr_aa_title(b: ActionAffordanceBuilder<Ext, XInter, XAct>, x: String) -> ActionAffordanceBuilder<Ext, XInter, XAct> { BuildableHumanReadableInfo::title(b, x) }
pub fn root_hr_aa_titles(b: ActionAffordanceBuilder<Ext, XInter, XAct>, m: MultiLanguageBuilder<String>) -> ActionAffordanceBuilder<Ext, XInter, XAct> { BuildableHumanReadableInfo::titles(b, |x| { *x = m; x }) }
pub fn root_hr_aa_description(b: ActionAffordanceBuilder<Ext, XInter, XAct>, x: String) -> ActionAffordanceBuilder<Ext, XInter, XAct> { BuildableHumanReadableInfo::description(b, x) }
pub fn root_hr_aa_descriptions(b: ActionAffordanceBuilder<Ext, XInter, XAct>, m: MultiLanguageBuilder<String>) -> ActionAffordanceBuilder<Ext, XInter, XAct> { BuildableHumanReadableInfo::descriptions(b, |x| { *x = m; x }) }
pub fn root_hr_ea_attype(b: EventAffordanceBuilder<Ext, XInter, XEvt>, x: String) -> EventAffordanceBuilder<Ext, XInter, XEvt> { BuildableHumanReadableInfo::attype(b, x) }
pub fn root_hr_ea_title(b: EventAffordanceBuilder<Ext, XInter, XEvt>, x: String) -> EventAffordanceBuilder<Ext, XInter, XEvt> { BuildableHumanReadableInfo::title(b, x) }
pub fn root_hr_ea_titles(b: EventAffordanceBuilder<Ext, XInter, XEvt>, m: MultiLanguageBuilder<String>) -> EventAffordanceBuilder<Ext, XInter, XEvt> { BuildableHumanReadableInfo::titles(b, |x| { *x = m; x }) }
pub fn root_hr_ea_description(b: EventAffordanceBuilder<Ext, XInter, XEvt>, x: String) -> EventAffordanceBuilder<Ext, XInter, XEvt> { BuildableHumanReadableInfo::description(b, x) }
pub fn root_hr_ea_descriptions(b: EventAffordanceBuilder<Ext, XInter, XEvt>, m: MultiLanguageBuilder<String>) -> EventAffordanceBuilder<Ext, XInter, XEvt> { BuildableHumanReadableInfo::descriptions(b, |x| { *x = m; x }) }
pub fn root_hr_tuple_attype(b: TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: String) -> TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableHumanReadableInfo::attype(b, x) }
pub fn root_hr_tuple_title(b: TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: String) -> TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableHumanReadableInfo::title(b, x) }
pub fn root_hr_tuple_titles(b: TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, m: MultiLanguageBuilder<String>) -> TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableHumanReadableInfo::titles(b, |x| { *x = m; x }) }
pub fn root_hr_tuple_description(b: TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: String) -> TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableHumanReadableInfo::description(b, x) }
pub fn root_hr_tuple_descriptions(b: TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, m: MultiLanguageBuilder<String>) -> TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableHumanReadableInfo::descriptions(b, |x| { *x = m; x }) }
pub fn root_hr_vec_attype(b: VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: String) -> VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableHumanReadableInfo::attype(b, x) }
pub fn root_hr_vec_title(b: VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: String) -> VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableHumanReadableInfo::title(b, x) }
pub fn root_hr_vec_titles(b: VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, m: MultiLanguageBuilder<String>) -> VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableHumanReadableInfo::titles(b, |x| { *x = m; x }) }
pub fn root_hr_vec_description(b: VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: String) -> VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableHumanReadableInfo::description(b, x) }
pub fn root_hr_vec_descriptions(b: VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, m: MultiLanguageBuilder<String>) -> VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableHumanReadableInfo::descriptions(b, |x| { *x = m; x }) }
pub fn root_hr_number_attype(b: NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::attype(b, x) }
pub fn root_hr_number_title(b: NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::title(b, x) }
pub fn root_hr_number_titles(b: NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, m: MultiLanguageBuilder<String>) -> NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::titles(b, |x| { *x = m; x }) }
pub fn root_hr_number_description(b: NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::description(b, x) }
pub fn root_hr_number_descriptions(b: NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, m: MultiLanguageBuilder<String>) -> NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::descriptions(b, |x| { *x = m; x }) }
pub fn root_hr_integer_attype(b: IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::attype(b, x) }
pub fn root_hr_integer_title(b: IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::title(b, x) }
pub fn root_hr_integer_titles(b: IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, m: MultiLanguageBuilder<String>) -> IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::titles(b, |x| { *x = m; x }) }
pub fn root_hr_integer_description(b: IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::description(b, x) }
pub fn root_hr_integer_descriptions(b: IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, m: MultiLanguageBuilder<String>) -> IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::descriptions(b, |x| { *x = m; x }) }
pub fn root_hr_object_attype(b: ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: String) -> ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableHumanReadableInfo::attype(b, x) }
pub fn root_hr_object_title(b: ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: String) -> ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableHumanReadableInfo::title(b, x) }
pub fn root_hr_object_titles(b: ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, m: MultiLanguageBuilder<String>) -> ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableHumanReadableInfo::titles(b, |x| { *x = m; x }) }
pub fn root_hr_object_description(b: ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: String) -> ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableHumanReadableInfo::description(b, x) }
pub fn root_hr_object_descriptions(b: ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, m: MultiLanguageBuilder<String>) -> ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableHumanReadableInfo::descriptions(b, |x| { *x = m; x }) }
pub fn root_hr_string_attype(b: StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::attype(b, x) }
pub fn root_hr_string_title(b: StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::title(b, x) }
pub fn root_hr_string_titles(b: StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, m: MultiLanguageBuilder<String>) -> StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::titles(b, |x| { *x = m; x }) }
pub fn root_hr_string_description(b: StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::description(b, x) }
pub fn root_hr_string_descriptions(b: StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, m: MultiLanguageBuilder<String>) -> StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::descriptions(b, |x| { *x = m; x }) }
pub fn root_hr_enum_attype(b: EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::attype(b, x) }
pub fn root_hr_enum_title(b: EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::title(b, x) }
pub fn root_hr_enum_titles(b: EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, m: MultiLanguageBuilder<String>) -> EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::titles(b, |x| { *x = m; x }) }
pub fn root_hr_enum_description(b: EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::description(b, x) }
pub fn root_hr_enum_descriptions(b: EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, m: MultiLanguageBuilder<String>) -> EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::descriptions(b, |x| { *x = m; x }) }
pub fn root_hr_oneof_attype(b: OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::attype(b, x) }
pub fn root_hr_oneof_title(b: OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::title(b, x) }
pub fn root_hr_oneof_titles(b: OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, m: MultiLanguageBuilder<String>) -> OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::titles(b, |x| { *x = m; x }) }
pub fn root_hr_oneof_description(b: OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::description(b, x) }
pub fn root_hr_oneof_descriptions(b: OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, m: MultiLanguageBuilder<String>) -> OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::descriptions(b, |x| { *x = m; x }) }
pub fn root_hr_stateless_attype(b: StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::attype(b, x) }
pub fn root_hr_stateless_title(b: StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::title(b, x) }
pub fn root_hr_stateless_titles(b: StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, m: MultiLanguageBuilder<String>) -> StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::titles(b, |x| { *x = m; x }) }
pub fn root_hr_stateless_description(b: StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::description(b, x) }
pub fn root_hr_stateless_descriptions(b: StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, m: MultiLanguageBuilder<String>) -> StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableHumanReadableInfo::descriptions(b, |x| { *x = m; x }) }
pub fn root_hr_ro_attype(b: ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: String) -> ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { BuildableHumanReadableInfo::attype(b, x) }
pub fn root_hr_ro_title(b: ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: String) -> ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { BuildableHumanReadableInfo::title(b, x) }
pub fn root_hr_ro_titles(b: ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, m: MultiLanguageBuilder<String>) -> ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { BuildableHumanReadableInfo::titles(b, |x| { *x = m; x }) }
pub fn root_hr_ro_description(b: ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: String) -> ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { BuildableHumanReadableInfo::description(b, x) }
pub fn root_hr_ro_descriptions(b: ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, m: MultiLanguageBuilder<String>) -> ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { BuildableHumanReadableInfo::descriptions(b, |x| { *x = m; x }) }
pub fn root_hr_wo_attype(b: WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: String) -> WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { BuildableHumanReadableInfo::attype(b, x) }
pub fn root_hr_wo_title(b: WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: String) -> WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { BuildableHumanReadableInfo::title(b, x) }
pub fn root_hr_wo_titles(b: WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, m: MultiLanguageBuilder<String>) -> WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { BuildableHumanReadableInfo::titles(b, |x| { *x = m; x }) }
pub fn root_hr_wo_description(b: WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: String) -> WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { BuildableHumanReadableInfo::description(b, x) }
pub fn root_hr_wo_descriptions(b: WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, m: MultiLanguageBuilder<String>) -> WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { BuildableHumanReadableInfo::descriptions(b, |x| { *x = m; x }) }
pub fn root_ds_p_unit(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, x: String) -> PartialDataSchemaBuilder<XData, XArr, XObj, Extended> { BuildableDataSchema::<XData, XArr, XObj, Extended>::unit(b, x) }
pub fn root_ds_p_format(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, x: String) -> PartialDataSchemaBuilder<XData, XArr, XObj, Extended> { BuildableDataSchema::<XData, XArr, XObj, Extended>::format(b, x) }
pub fn root_ds_p_default(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, x: Value) -> PartialDataSchemaBuilder<XData, XArr, XObj, Extended> { BuildableDataSchema::<XData, XArr, XObj, Extended>::default_value(b, x) }
pub fn root_ds_p0_unit(b: PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, x: String) -> PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend> { BuildableDataSchema::<XData, XArr, XObj, ToExtend>::unit(b, x) }
pub fn root_ds_p0_format(b: PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, x: String) -> PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend> { BuildableDataSchema::<XData, XArr, XObj, ToExtend>::format(b, x) }
pub fn root_ds_p0_default(b: PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, x: Value) -> PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend> { BuildableDataSchema::<XData, XArr, XObj, ToExtend>::default_value(b, x) }
pub fn root_ds_d_unit(b: DataSchemaBuilder<XData, XArr, XObj, Extended>, x: String) -> DataSchemaBuilder<XData, XArr, XObj, Extended> { BuildableDataSchema::<XData, XArr, XObj, Extended>::unit(b, x) }
pub fn root_ds_d_format(b: DataSchemaBuilder<XData, XArr, XObj, Extended>, x: String) -> DataSchemaBuilder<XData, XArr, XObj, Extended> { BuildableDataSchema::<XData, XArr, XObj, Extended>::format(b, x) }
pub fn root_ds_d_default(b: DataSchemaBuilder<XData, XArr, XObj, Extended>, x: Value) -> DataSchemaBuilder<XData, XArr, XObj, Extended> { BuildableDataSchema::<XData, XArr, XObj, Extended>::default_value(b, x) }
pub fn root_ds_d0_unit(b: DataSchemaBuilder<XData, XArr, XObj, ToExtend>, x: String) -> DataSchemaBuilder<XData, XArr, XObj, ToExtend> { BuildableDataSchema::<XData, XArr, XObj, ToExtend>::unit(b, x) }
pub fn root_ds_d0_format(b: DataSchemaBuilder<XData, XArr, XObj, ToExtend>, x: String) -> DataSchemaBuilder<XData, XArr, XObj, ToExtend> { BuildableDataSchema::<XData, XArr, XObj, ToExtend>::format(b, x) }
pub fn root_ds_d0_default(b: DataSchemaBuilder<XData, XArr, XObj, ToExtend>, x: Value) -> DataSchemaBuilder<XData, XArr, XObj, ToExtend> { BuildableDataSchema::<XData, XArr, XObj, ToExtend>::default_value(b, x) }
pub fn root_ds_tuple_d_unit(b: TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: String) -> TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableDataSchema::<XData, XArr, XObj, Extended>::unit(b, x) }
pub fn root_ds_tuple_d_format(b: TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: String) -> TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableDataSchema::<XData, XArr, XObj, Extended>::format(b, x) }
pub fn root_ds_tuple_d_default(b: TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: Value) -> TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableDataSchema::<XData, XArr, XObj, Extended>::default_value(b, x) }
pub fn root_ds_vec_d_unit(b: VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: String) -> VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableDataSchema::<XData, XArr, XObj, Extended>::unit(b, x) }
pub fn root_ds_vec_d_format(b: VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: String) -> VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableDataSchema::<XData, XArr, XObj, Extended>::format(b, x) }
pub fn root_ds_vec_d_default(b: VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: Value) -> VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableDataSchema::<XData, XArr, XObj, Extended>::default_value(b, x) }
pub fn root_ds_number_d_unit(b: NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::unit(b, x) }
pub fn root_ds_number_d_format(b: NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::format(b, x) }
pub fn root_ds_number_d_default(b: NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: Value) -> NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::default_value(b, x) }
pub fn root_ds_integer_d_unit(b: IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::unit(b, x) }
pub fn root_ds_integer_d_format(b: IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::format(b, x) }
pub fn root_ds_integer_d_default(b: IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: Value) -> IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::default_value(b, x) }
pub fn root_ds_object_d_unit(b: ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: String) -> ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableDataSchema::<XData, XArr, XObj, Extended>::unit(b, x) }
pub fn root_ds_object_d_format(b: ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: String) -> ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableDataSchema::<XData, XArr, XObj, Extended>::format(b, x) }
pub fn root_ds_object_d_default(b: ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: Value) -> ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { BuildableDataSchema::<XData, XArr, XObj, Extended>::default_value(b, x) }
pub fn root_ds_string_d_unit(b: StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::unit(b, x) }
pub fn root_ds_string_d_format(b: StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::format(b, x) }
pub fn root_ds_string_d_default(b: StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: Value) -> StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::default_value(b, x) }
pub fn root_ds_enum_d_unit(b: EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::unit(b, x) }
pub fn root_ds_enum_d_format(b: EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::format(b, x) }
pub fn root_ds_enum_d_default(b: EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: Value) -> EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::default_value(b, x) }
pub fn root_ds_oneof_d_unit(b: OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::unit(b, x) }
pub fn root_ds_oneof_d_format(b: OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::format(b, x) }
pub fn root_ds_oneof_d_default(b: OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: Value) -> OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::default_value(b, x) }
pub fn root_ds_stateless_d_unit(b: StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::unit(b, x) }
pub fn root_ds_stateless_d_format(b: StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::format(b, x) }
pub fn root_ds_stateless_d_default(b: StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: Value) -> StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::default_value(b, x) }
pub fn root_ds_number_p_unit(b: NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::unit(b, x) }
pub fn root_ds_number_p_format(b: NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::format(b, x) }
pub fn root_ds_number_p_default(b: NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: Value) -> NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::default_value(b, x) }
pub fn root_ds_ro_unit(b: ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: String) -> ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::unit(b, x) }
pub fn root_ds_ro_format(b: ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: String) -> ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::format(b, x) }
pub fn root_ds_ro_default(b: ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: Value) -> ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::default_value(b, x) }
pub fn root_ds_wo_unit(b: WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: String) -> WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::unit(b, x) }
pub fn root_ds_wo_format(b: WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: String) -> WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::format(b, x) }
pub fn root_ds_wo_default(b: WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: Value) -> WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { BuildableDataSchema::<XData, XArr, XObj, Extended>::default_value(b, x) }
pub fn root_ds_pa_unit(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>, x: String) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp> { BuildableDataSchema::<XData, XArr, XObj, Extended>::unit(b, x) }
pub fn root_ds_pa_format(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>, x: String) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp> { BuildableDataSchema::<XData, XArr, XObj, Extended>::format(b, x) }
pub fn root_ds_pa_default(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>, x: Value) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp> { BuildableDataSchema::<XData, XArr, XObj, Extended>::default_value(b, x) }
pub fn root_ds_pa_number_unit(b: PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp>, x: String) -> PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { BuildableDataSchema::<XData, XArr, XObj, Extended>::unit(b, x) }
pub fn root_ds_pa_number_format(b: PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp>, x: String) -> PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { BuildableDataSchema::<XData, XArr, XObj, Extended>::format(b, x) }
pub fn root_ds_pa_number_default(b: PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp>, x: Value) -> PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { BuildableDataSchema::<XData, XArr, XObj, Extended>::default_value(b, x) }
pub fn root_d_ext(b: DataSchemaBuilder<XData, XArr, XObj, ToExtend>, x: XNew) -> DataSchemaBuilder<X2<XData>, XArr, XObj, ToExtend> { b.ext(x) }
pub fn root_d_ext_with(b: DataSchemaBuilder<XData, XArr, XObj, ToExtend>, x: XNew) -> DataSchemaBuilder<X2<XData>, XArr, XObj, ToExtend> { b.ext_with(|| x) }
pub fn root_p_ext(b: PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, x: XNew) -> PartialDataSchemaBuilder<X2<XData>, XArr, XObj, ToExtend> { b.ext(x) }
pub fn root_p_ext_with(b: PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, x: XNew) -> PartialDataSchemaBuilder<X2<XData>, XArr, XObj, ToExtend> { b.ext_with(|| x) }
pub fn root_d_finish(b: DataSchemaBuilder<XData, XArr, XObj, ToExtend>) -> DataSchemaBuilder<XData, XArr, XObj, Extended> { b.finish_extend() }
pub fn root_p_finish(b: PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>) -> PartialDataSchemaBuilder<XData, XArr, XObj, Extended> { b.finish_extend() }
pub fn root_d_default() -> DataSchemaBuilder<XData, XArr, XObj, Extended> { Default::default() }
pub fn root_p_default() -> PartialDataSchemaBuilder<XData, XArr, XObj, Extended> { Default::default() }
pub fn root_hr_default() -> HumanReadableInfo { Default::default() }
pub fn root_ml_default() -> MultiLanguageBuilder<String> { Default::default() }
pub fn root_kind_d_bool(b: DataSchemaBuilder<XData, XArr, XObj, Extended>) -> StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { SpecializableDataSchema::<XData, XArr, XObj>::bool(b) }
pub fn root_kind_d_null(b: DataSchemaBuilder<XData, XArr, XObj, Extended>) -> StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { SpecializableDataSchema::<XData, XArr, XObj>::null(b) }
pub fn root_kind_d_number(b: DataSchemaBuilder<XData, XArr, XObj, Extended>) -> NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { SpecializableDataSchema::<XData, XArr, XObj>::number(b) }
pub fn root_kind_d_integer(b: DataSchemaBuilder<XData, XArr, XObj, Extended>) -> IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { SpecializableDataSchema::<XData, XArr, XObj>::integer(b) }
pub fn root_kind_d_string(b: DataSchemaBuilder<XData, XArr, XObj, Extended>) -> StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { SpecializableDataSchema::<XData, XArr, XObj>::string(b) }
pub fn root_kind_d_tuple(b: DataSchemaBuilder<XData, XArr, XObj, Extended>) -> TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { SpecializableDataSchema::<XData, XArr, XObj>::tuple(b) }
pub fn root_kind_d_tuple_ext(b: DataSchemaBuilder<XData, XArr, XObj, Extended>, x: XArr) -> TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { SpecializableDataSchema::<XData, XArr, XObj>::tuple_ext(b, |_| x) }
pub fn root_kind_d_tuple_ext_fresh(b: DataSchemaBuilder<XData, XArr, XObj, Extended>) -> TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { SpecializableDataSchema::<XData, XArr, XObj>::tuple_ext(b, |x| x) }
pub fn root_kind_d_vec(b: DataSchemaBuilder<XData, XArr, XObj, Extended>) -> VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { SpecializableDataSchema::<XData, XArr, XObj>::vec(b) }
pub fn root_kind_d_vec_ext(b: DataSchemaBuilder<XData, XArr, XObj, Extended>, x: XArr) -> VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { SpecializableDataSchema::<XData, XArr, XObj>::vec_ext(b, |_| x) }
pub fn root_kind_d_vec_ext_fresh(b: DataSchemaBuilder<XData, XArr, XObj, Extended>) -> VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { SpecializableDataSchema::<XData, XArr, XObj>::vec_ext(b, |x| x) }
pub fn root_kind_d_object(b: DataSchemaBuilder<XData, XArr, XObj, Extended>) -> ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { SpecializableDataSchema::<XData, XArr, XObj>::object(b) }
pub fn root_kind_d_object_ext(b: DataSchemaBuilder<XData, XArr, XObj, Extended>, x: XObj) -> ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { SpecializableDataSchema::<XData, XArr, XObj>::object_ext(b, |_| x) }
pub fn root_kind_d_object_ext_fresh(b: DataSchemaBuilder<XData, XArr, XObj, Extended>) -> ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { SpecializableDataSchema::<XData, XArr, XObj>::object_ext(b, |x| x) }
pub fn root_kind_d_constant(b: DataSchemaBuilder<XData, XArr, XObj, Extended>, x: Value) -> ReadOnly<StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { SpecializableDataSchema::<XData, XArr, XObj>::constant(b, x) }
pub fn root_kind_d_enumeration(b: DataSchemaBuilder<XData, XArr, XObj, Extended>, x: Value) -> EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { b.enumeration(x) }
pub fn root_kind_d_one_of(b: DataSchemaBuilder<XData, XArr, XObj, Extended>, x: UncheckedDataSchema<XData, XArr, XObj>) -> OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { b.one_of(|_| x) }
pub fn root_kind_d_one_of_fresh(b: DataSchemaBuilder<XData, XArr, XObj, Extended>) -> OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { b.one_of(|d| d.finish_extend().string()) }
pub fn root_enum_d_enumeration(b: EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: Value) -> EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { b.enumeration(x) }
pub fn root_oneof_d_one_of(b: OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: UncheckedDataSchema<XData, XArr, XObj>) -> OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { b.one_of(|_| x) }
pub fn root_r_d_enum_enumeration(b: ReadOnly<EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: Value) -> ReadOnly<EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { b.enumeration(x) }
pub fn root_w_d_enum_enumeration(b: WriteOnly<EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: Value) -> WriteOnly<EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { b.enumeration(x) }
pub fn root_rw_d_tuple_read_only(b: TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> ReadOnly<TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::read_only(b) }
pub fn root_rw_d_tuple_write_only(b: TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> WriteOnly<TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::write_only(b) }
pub fn root_rw_d_vec_read_only(b: VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> ReadOnly<VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::read_only(b) }
pub fn root_rw_d_vec_write_only(b: VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> WriteOnly<VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::write_only(b) }
pub fn root_rw_d_number_read_only(b: NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::read_only(b) }
pub fn root_rw_d_number_write_only(b: NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::write_only(b) }
pub fn root_rw_d_integer_read_only(b: IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> ReadOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::read_only(b) }
pub fn root_rw_d_integer_write_only(b: IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> WriteOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::write_only(b) }
pub fn root_rw_d_object_read_only(b: ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> ReadOnly<ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::read_only(b) }
pub fn root_rw_d_object_write_only(b: ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> WriteOnly<ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::write_only(b) }
pub fn root_rw_d_string_read_only(b: StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> ReadOnly<StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::read_only(b) }
pub fn root_rw_d_string_write_only(b: StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> WriteOnly<StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::write_only(b) }
pub fn root_rw_d_enum_read_only(b: EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> ReadOnly<EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::read_only(b) }
pub fn root_rw_d_enum_write_only(b: EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> WriteOnly<EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::write_only(b) }
pub fn root_rw_d_stateless_read_only(b: StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> ReadOnly<StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::read_only(b) }
pub fn root_rw_d_stateless_write_only(b: StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> WriteOnly<StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::write_only(b) }
pub fn root_kind_p_bool(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>) -> StatelessDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { SpecializableDataSchema::<XData, XArr, XObj>::bool(b) }
pub fn root_kind_p_null(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>) -> StatelessDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { SpecializableDataSchema::<XData, XArr, XObj>::null(b) }
pub fn root_kind_p_number(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>) -> NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { SpecializableDataSchema::<XData, XArr, XObj>::number(b) }
pub fn root_kind_p_integer(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>) -> IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { SpecializableDataSchema::<XData, XArr, XObj>::integer(b) }
pub fn root_kind_p_string(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>) -> StringDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { SpecializableDataSchema::<XData, XArr, XObj>::string(b) }
pub fn root_kind_p_tuple(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>) -> TupleDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { SpecializableDataSchema::<XData, XArr, XObj>::tuple(b) }
pub fn root_kind_p_tuple_ext(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, x: XArr) -> TupleDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { SpecializableDataSchema::<XData, XArr, XObj>::tuple_ext(b, |_| x) }
pub fn root_kind_p_tuple_ext_fresh(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>) -> TupleDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { SpecializableDataSchema::<XData, XArr, XObj>::tuple_ext(b, |x| x) }
pub fn root_kind_p_vec(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>) -> VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { SpecializableDataSchema::<XData, XArr, XObj>::vec(b) }
pub fn root_kind_p_vec_ext(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, x: XArr) -> VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { SpecializableDataSchema::<XData, XArr, XObj>::vec_ext(b, |_| x) }
pub fn root_kind_p_vec_ext_fresh(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>) -> VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { SpecializableDataSchema::<XData, XArr, XObj>::vec_ext(b, |x| x) }
pub fn root_kind_p_object(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>) -> ObjectDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { SpecializableDataSchema::<XData, XArr, XObj>::object(b) }
pub fn root_kind_p_object_ext(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, x: XObj) -> ObjectDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { SpecializableDataSchema::<XData, XArr, XObj>::object_ext(b, |_| x) }
pub fn root_kind_p_object_ext_fresh(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>) -> ObjectDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { SpecializableDataSchema::<XData, XArr, XObj>::object_ext(b, |x| x) }
pub fn root_kind_p_constant(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, x: Value) -> ReadOnly<StatelessDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>> { SpecializableDataSchema::<XData, XArr, XObj>::constant(b, x) }
pub fn root_kind_p_enumeration(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, x: Value) -> EnumDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { b.enumeration(x) }
pub fn root_kind_p_one_of(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, x: UncheckedDataSchema<XData, XArr, XObj>) -> OneOfDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { b.one_of(|_| x) }
pub fn root_kind_p_one_of_fresh(b: PartialDataSchemaBuilder<XData, XArr, XObj, Extended>) -> OneOfDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { b.one_of(|d| d.finish_extend().string()) }
pub fn root_enum_p_enumeration(b: EnumDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: Value) -> EnumDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { b.enumeration(x) }
pub fn root_oneof_p_one_of(b: OneOfDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: UncheckedDataSchema<XData, XArr, XObj>) -> OneOfDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { b.one_of(|_| x) }
pub fn root_r_p_enum_enumeration(b: ReadOnly<EnumDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: Value) -> ReadOnly<EnumDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>> { b.enumeration(x) }
pub fn root_w_p_enum_enumeration(b: WriteOnly<EnumDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: Value) -> WriteOnly<EnumDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>> { b.enumeration(x) }
pub fn root_rw_p_tuple_read_only(b: TupleDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> ReadOnly<TupleDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::read_only(b) }
pub fn root_rw_p_tuple_write_only(b: TupleDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> WriteOnly<TupleDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::write_only(b) }
pub fn root_rw_p_vec_read_only(b: VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> ReadOnly<VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::read_only(b) }
pub fn root_rw_p_vec_write_only(b: VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> WriteOnly<VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::write_only(b) }
pub fn root_rw_p_number_read_only(b: NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>) -> ReadOnly<NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::read_only(b) }
pub fn root_rw_p_number_write_only(b: NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>) -> WriteOnly<NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::write_only(b) }
pub fn root_rw_p_integer_read_only(b: IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>) -> ReadOnly<IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::read_only(b) }
pub fn root_rw_p_integer_write_only(b: IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>) -> WriteOnly<IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::write_only(b) }
pub fn root_rw_p_object_read_only(b: ObjectDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> ReadOnly<ObjectDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::read_only(b) }
pub fn root_rw_p_object_write_only(b: ObjectDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> WriteOnly<ObjectDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::write_only(b) }
pub fn root_rw_p_string_read_only(b: StringDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>) -> ReadOnly<StringDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::read_only(b) }
pub fn root_rw_p_string_write_only(b: StringDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>) -> WriteOnly<StringDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::write_only(b) }
pub fn root_rw_p_enum_read_only(b: EnumDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>) -> ReadOnly<EnumDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::read_only(b) }
pub fn root_rw_p_enum_write_only(b: EnumDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>) -> WriteOnly<EnumDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::write_only(b) }
pub fn root_rw_p_stateless_read_only(b: StatelessDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>) -> ReadOnly<StatelessDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::read_only(b) }
pub fn root_rw_p_stateless_write_only(b: StatelessDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>) -> WriteOnly<StatelessDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::write_only(b) }
pub fn root_k_d_number_minimum(b: NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: f64) -> NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::minimum(b, x) }
pub fn root_k_d_number_maximum(b: NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: f64) -> NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::maximum(b, x) }
pub fn root_k_d_number_xminimum(b: NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: f64) -> NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_minimum(b, x) }
pub fn root_k_d_number_xmaximum(b: NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: f64) -> NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_maximum(b, x) }
pub fn root_k_d_number_multiple(b: NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: f64) -> NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::multiple_of(b, x) }
pub fn root_k_d_integer_minimum(b: IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: i64) -> IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::minimum(b, x) }
pub fn root_k_d_integer_maximum(b: IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: i64) -> IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::maximum(b, x) }
pub fn root_k_d_integer_xminimum(b: IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: i64) -> IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_minimum(b, x) }
pub fn root_k_d_integer_xmaximum(b: IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: i64) -> IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_maximum(b, x) }
pub fn root_k_d_integer_multiple(b: IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: std::num::NonZeroU64) -> IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::multiple_of(b, x) }
pub fn root_k_d_string_min_length(b: StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: u32) -> StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { StringDataSchemaBuilderLike::<XData, XArr, XObj>::min_length(b, x) }
pub fn root_k_d_string_max_length(b: StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: u32) -> StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { StringDataSchemaBuilderLike::<XData, XArr, XObj>::max_length(b, x) }
pub fn root_k_d_string_pattern(b: StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { StringDataSchemaBuilderLike::<XData, XArr, XObj>::pattern(b, x) }
pub fn root_k_d_string_content_encoding(b: StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { StringDataSchemaBuilderLike::<XData, XArr, XObj>::content_encoding(b, x) }
pub fn root_k_d_string_content_media_type(b: StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>> { StringDataSchemaBuilderLike::<XData, XArr, XObj>::content_media_type(b, x) }
pub fn root_k_d_object_property(b: ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, k: String, r: bool, u: UncheckedDataSchema<XData, XArr, XObj>) -> ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { ObjectDataSchemaBuilderLike::<XData, XArr, XObj>::property(b, k, r, |_| u) }
pub fn root_k_d_vec_min_items(b: VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: u32) -> VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { VecDataSchemaBuilderLike::<XData, XArr, XObj>::min_items(b, x) }
pub fn root_k_d_vec_max_items(b: VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: u32) -> VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { VecDataSchemaBuilderLike::<XData, XArr, XObj>::max_items(b, x) }
pub fn root_k_d_vec_item(b: VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, u: UncheckedDataSchema<XData, XArr, XObj>) -> VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { VecDataSchemaBuilderLike::<XData, XArr, XObj>::set_item(b, |_| u) }
pub fn root_k_d_tuple_append(b: TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, u: UncheckedDataSchema<XData, XArr, XObj>) -> TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { TupleDataSchemaBuilderLike::<XData, XArr, XObj>::append(b, |_| u) }
pub fn root_k_p_number_minimum(b: NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: f64) -> NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::minimum(b, x) }
pub fn root_k_p_number_maximum(b: NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: f64) -> NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::maximum(b, x) }
pub fn root_k_p_number_xminimum(b: NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: f64) -> NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_minimum(b, x) }
pub fn root_k_p_number_xmaximum(b: NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: f64) -> NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_maximum(b, x) }
pub fn root_k_p_number_multiple(b: NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: f64) -> NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::multiple_of(b, x) }
pub fn root_k_p_integer_minimum(b: IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: i64) -> IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::minimum(b, x) }
pub fn root_k_p_integer_maximum(b: IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: i64) -> IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::maximum(b, x) }
pub fn root_k_p_integer_xminimum(b: IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: i64) -> IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_minimum(b, x) }
pub fn root_k_p_integer_xmaximum(b: IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: i64) -> IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_maximum(b, x) }
pub fn root_k_p_integer_multiple(b: IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: std::num::NonZeroU64) -> IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::multiple_of(b, x) }
pub fn root_k_p_string_min_length(b: StringDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: u32) -> StringDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { StringDataSchemaBuilderLike::<XData, XArr, XObj>::min_length(b, x) }
pub fn root_k_p_string_max_length(b: StringDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: u32) -> StringDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { StringDataSchemaBuilderLike::<XData, XArr, XObj>::max_length(b, x) }
pub fn root_k_p_string_pattern(b: StringDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> StringDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { StringDataSchemaBuilderLike::<XData, XArr, XObj>::pattern(b, x) }
pub fn root_k_p_string_content_encoding(b: StringDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> StringDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { StringDataSchemaBuilderLike::<XData, XArr, XObj>::content_encoding(b, x) }
pub fn root_k_p_string_content_media_type(b: StringDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, x: String) -> StringDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>> { StringDataSchemaBuilderLike::<XData, XArr, XObj>::content_media_type(b, x) }
pub fn root_k_p_object_property(b: ObjectDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, k: String, r: bool, u: UncheckedDataSchema<XData, XArr, XObj>) -> ObjectDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { ObjectDataSchemaBuilderLike::<XData, XArr, XObj>::property(b, k, r, |_| u) }
pub fn root_k_p_vec_min_items(b: VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: u32) -> VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { VecDataSchemaBuilderLike::<XData, XArr, XObj>::min_items(b, x) }
pub fn root_k_p_vec_max_items(b: VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, x: u32) -> VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { VecDataSchemaBuilderLike::<XData, XArr, XObj>::max_items(b, x) }
pub fn root_k_p_vec_item(b: VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, u: UncheckedDataSchema<XData, XArr, XObj>) -> VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { VecDataSchemaBuilderLike::<XData, XArr, XObj>::set_item(b, |_| u) }
pub fn root_k_p_tuple_append(b: TupleDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, u: UncheckedDataSchema<XData, XArr, XObj>) -> TupleDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { TupleDataSchemaBuilderLike::<XData, XArr, XObj>::append(b, |_| u) }
pub fn root_k_ro_number_minimum(b: ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: f64) -> ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::minimum(b, x) }
pub fn root_k_ro_number_maximum(b: ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: f64) -> ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::maximum(b, x) }
pub fn root_k_ro_number_xminimum(b: ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: f64) -> ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_minimum(b, x) }
pub fn root_k_ro_number_xmaximum(b: ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: f64) -> ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_maximum(b, x) }
pub fn root_k_ro_number_multiple(b: ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: f64) -> ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::multiple_of(b, x) }
pub fn root_k_ro_integer_minimum(b: ReadOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: i64) -> ReadOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::minimum(b, x) }
pub fn root_k_ro_integer_maximum(b: ReadOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: i64) -> ReadOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::maximum(b, x) }
pub fn root_k_ro_integer_xminimum(b: ReadOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: i64) -> ReadOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_minimum(b, x) }
pub fn root_k_ro_integer_xmaximum(b: ReadOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: i64) -> ReadOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_maximum(b, x) }
pub fn root_k_ro_integer_multiple(b: ReadOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: std::num::NonZeroU64) -> ReadOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::multiple_of(b, x) }
pub fn root_k_ro_object_property(b: ReadOnly<ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>, k: String, r: bool, u: UncheckedDataSchema<XData, XArr, XObj>) -> ReadOnly<ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { ObjectDataSchemaBuilderLike::<XData, XArr, XObj>::property(b, k, r, |_| u) }
pub fn root_k_ro_vec_min_items(b: ReadOnly<VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>, x: u32) -> ReadOnly<VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { VecDataSchemaBuilderLike::<XData, XArr, XObj>::min_items(b, x) }
pub fn root_k_ro_vec_max_items(b: ReadOnly<VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>, x: u32) -> ReadOnly<VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { VecDataSchemaBuilderLike::<XData, XArr, XObj>::max_items(b, x) }
pub fn root_k_ro_vec_item(b: ReadOnly<VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>, u: UncheckedDataSchema<XData, XArr, XObj>) -> ReadOnly<VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { VecDataSchemaBuilderLike::<XData, XArr, XObj>::set_item(b, |_| u) }
pub fn root_k_ro_tuple_append(b: ReadOnly<TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>, u: UncheckedDataSchema<XData, XArr, XObj>) -> ReadOnly<TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { TupleDataSchemaBuilderLike::<XData, XArr, XObj>::append(b, |_| u) }
pub fn root_k_wo_number_minimum(b: WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: f64) -> WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::minimum(b, x) }
pub fn root_k_wo_number_maximum(b: WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: f64) -> WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::maximum(b, x) }
pub fn root_k_wo_number_xminimum(b: WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: f64) -> WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_minimum(b, x) }
pub fn root_k_wo_number_xmaximum(b: WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: f64) -> WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_maximum(b, x) }
pub fn root_k_wo_number_multiple(b: WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: f64) -> WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::multiple_of(b, x) }
pub fn root_k_wo_integer_minimum(b: WriteOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: i64) -> WriteOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::minimum(b, x) }
pub fn root_k_wo_integer_maximum(b: WriteOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: i64) -> WriteOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::maximum(b, x) }
pub fn root_k_wo_integer_xminimum(b: WriteOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: i64) -> WriteOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_minimum(b, x) }
pub fn root_k_wo_integer_xmaximum(b: WriteOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: i64) -> WriteOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_maximum(b, x) }
pub fn root_k_wo_integer_multiple(b: WriteOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>, x: std::num::NonZeroU64) -> WriteOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::multiple_of(b, x) }
pub fn root_k_wo_object_property(b: WriteOnly<ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>, k: String, r: bool, u: UncheckedDataSchema<XData, XArr, XObj>) -> WriteOnly<ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { ObjectDataSchemaBuilderLike::<XData, XArr, XObj>::property(b, k, r, |_| u) }
pub fn root_k_wo_vec_min_items(b: WriteOnly<VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>, x: u32) -> WriteOnly<VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { VecDataSchemaBuilderLike::<XData, XArr, XObj>::min_items(b, x) }
pub fn root_k_wo_vec_max_items(b: WriteOnly<VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>, x: u32) -> WriteOnly<VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { VecDataSchemaBuilderLike::<XData, XArr, XObj>::max_items(b, x) }
pub fn root_k_wo_vec_item(b: WriteOnly<VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>, u: UncheckedDataSchema<XData, XArr, XObj>) -> WriteOnly<VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { VecDataSchemaBuilderLike::<XData, XArr, XObj>::set_item(b, |_| u) }
pub fn root_k_wo_tuple_append(b: WriteOnly<TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>, u: UncheckedDataSchema<XData, XArr, XObj>) -> WriteOnly<TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>> { TupleDataSchemaBuilderLike::<XData, XArr, XObj>::append(b, |_| u) }
pub fn root_k_pa_number_minimum(b: PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp>, x: f64) -> PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::minimum(b, x) }
pub fn root_k_pa_number_maximum(b: PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp>, x: f64) -> PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::maximum(b, x) }
pub fn root_k_pa_number_xminimum(b: PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp>, x: f64) -> PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_minimum(b, x) }
pub fn root_k_pa_number_xmaximum(b: PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp>, x: f64) -> PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_maximum(b, x) }
pub fn root_k_pa_number_multiple(b: PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp>, x: f64) -> PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { NumberDataSchemaBuilderLike::<XData, XArr, XObj>::multiple_of(b, x) }
pub fn root_k_pa_integer_minimum(b: PropertyAffordanceBuilder<Ext, IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp>, x: i64) -> PropertyAffordanceBuilder<Ext, IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::minimum(b, x) }
pub fn root_k_pa_integer_maximum(b: PropertyAffordanceBuilder<Ext, IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp>, x: i64) -> PropertyAffordanceBuilder<Ext, IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::maximum(b, x) }
pub fn root_k_pa_integer_xminimum(b: PropertyAffordanceBuilder<Ext, IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp>, x: i64) -> PropertyAffordanceBuilder<Ext, IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_minimum(b, x) }
pub fn root_k_pa_integer_xmaximum(b: PropertyAffordanceBuilder<Ext, IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp>, x: i64) -> PropertyAffordanceBuilder<Ext, IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::exclusive_maximum(b, x) }
pub fn root_k_pa_integer_multiple(b: PropertyAffordanceBuilder<Ext, IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp>, x: std::num::NonZeroU64) -> PropertyAffordanceBuilder<Ext, IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { IntegerDataSchemaBuilderLike::<XData, XArr, XObj>::multiple_of(b, x) }
pub fn root_k_pa_object_property(b: PropertyAffordanceBuilder<Ext, ObjectDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, XInter, XProp>, k: String, r: bool, u: UncheckedDataSchema<XData, XArr, XObj>) -> PropertyAffordanceBuilder<Ext, ObjectDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, XInter, XProp> { ObjectDataSchemaBuilderLike::<XData, XArr, XObj>::property(b, k, r, |_| u) }
pub fn root_k_pa_vec_min_items(b: PropertyAffordanceBuilder<Ext, VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, XInter, XProp>, x: u32) -> PropertyAffordanceBuilder<Ext, VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, XInter, XProp> { VecDataSchemaBuilderLike::<XData, XArr, XObj>::min_items(b, x) }
pub fn root_k_pa_vec_max_items(b: PropertyAffordanceBuilder<Ext, VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, XInter, XProp>, x: u32) -> PropertyAffordanceBuilder<Ext, VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, XInter, XProp> { VecDataSchemaBuilderLike::<XData, XArr, XObj>::max_items(b, x) }
pub fn root_k_pa_vec_item(b: PropertyAffordanceBuilder<Ext, VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, XInter, XProp>, u: UncheckedDataSchema<XData, XArr, XObj>) -> PropertyAffordanceBuilder<Ext, VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, XInter, XProp> { VecDataSchemaBuilderLike::<XData, XArr, XObj>::set_item(b, |_| u) }
pub fn root_k_pa_tuple_append(b: PropertyAffordanceBuilder<Ext, TupleDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, XInter, XProp>, u: UncheckedDataSchema<XData, XArr, XObj>) -> PropertyAffordanceBuilder<Ext, TupleDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, XInter, XProp> { TupleDataSchemaBuilderLike::<XData, XArr, XObj>::append(b, |_| u) }
pub fn root_k_d_object_property_fresh(b: ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, k: String, r: bool) -> ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { ObjectDataSchemaBuilderLike::<XData, XArr, XObj>::property(b, k, r, |d| d.finish_extend().string()) }
pub fn root_k_d_vec_item_fresh(b: VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { VecDataSchemaBuilderLike::<XData, XArr, XObj>::set_item(b, |d| d.finish_extend().string()) }
pub fn root_k_d_tuple_append_fresh(b: TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj> { TupleDataSchemaBuilderLike::<XData, XArr, XObj>::append(b, |d| d.finish_extend().string()) }
pub fn root_conv_tuple_d(b: TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_ro_tuple_d(b: ReadOnly<TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_wo_tuple_d(b: WriteOnly<TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_tuple_p(b: TupleDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_ro_tuple_p(b: ReadOnly<TupleDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_wo_tuple_p(b: WriteOnly<TupleDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_vec_d(b: VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_ro_vec_d(b: ReadOnly<VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_wo_vec_d(b: WriteOnly<VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_vec_p(b: VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_ro_vec_p(b: ReadOnly<VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_wo_vec_p(b: WriteOnly<VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_number_d(b: NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_ro_number_d(b: ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_wo_number_d(b: WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_number_p(b: NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_ro_number_p(b: ReadOnly<NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_wo_number_p(b: WriteOnly<NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_integer_d(b: IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_ro_integer_d(b: ReadOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_wo_integer_d(b: WriteOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_integer_p(b: IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_ro_integer_p(b: ReadOnly<IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_wo_integer_p(b: WriteOnly<IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_object_d(b: ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_ro_object_d(b: ReadOnly<ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_wo_object_d(b: WriteOnly<ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_object_p(b: ObjectDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_ro_object_p(b: ReadOnly<ObjectDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_wo_object_p(b: WriteOnly<ObjectDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_string_d(b: StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_ro_string_d(b: ReadOnly<StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_wo_string_d(b: WriteOnly<StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_string_p(b: StringDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_ro_string_p(b: ReadOnly<StringDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_wo_string_p(b: WriteOnly<StringDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_enum_d(b: EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_ro_enum_d(b: ReadOnly<EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_wo_enum_d(b: WriteOnly<EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_enum_p(b: EnumDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_ro_enum_p(b: ReadOnly<EnumDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_wo_enum_p(b: WriteOnly<EnumDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_oneof_d(b: OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_oneof_p(b: OneOfDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_stateless_d(b: StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_ro_stateless_d(b: ReadOnly<StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_wo_stateless_d(b: WriteOnly<StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> UncheckedDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_stateless_p(b: StatelessDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_ro_stateless_p(b: ReadOnly<StatelessDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_conv_wo_stateless_p(b: WriteOnly<StatelessDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> PartialDataSchema<XData, XArr, XObj> { b.into() }
pub fn root_pa_observable(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>, x: bool) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp> { b.observable(x) }
pub fn root_pa_ext(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, XInter, XProp>, x: XNew) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, XInter, X2<XProp>> { b.ext(x) }
pub fn root_pa_ext_with(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, XInter, XProp>, x: XNew) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, XInter, X2<XProp>> { b.ext_with(|| x) }
pub fn root_pa_ext_interaction(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, XInter, XProp>, x: XNew) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, X2<XInter>, XProp> { b.ext_interaction(x) }
pub fn root_pa_ext_interaction_with(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, XInter, XProp>, x: XNew) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, X2<XInter>, XProp> { b.ext_interaction_with(|| x) }
pub fn root_pa_form(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, XInter, XProp>, f: FormBuilder<Ext, String, XForm>) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, XInter, XProp> { BuildableInteractionAffordance::form(b, |_| f) }
pub fn root_pa_form_fresh(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, XInter, XProp>, h: String) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, XInter, XProp> { BuildableInteractionAffordance::form(b, |x| x.href(h)) }
pub fn root_pa_uri_variable(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, XInter, XProp>, k: String, u: UncheckedDataSchema<XData, XArr, XObj>) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, XInter, XProp> { BuildableInteractionAffordance::uri_variable(b, k, |_| u) }
pub fn root_pa_uri_variable_fresh(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, XInter, XProp>, k: String) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, XInter, XProp> { BuildableInteractionAffordance::uri_variable(b, k, |d| d.finish_extend().string()) }
pub fn root_aa_ext(b: ActionAffordanceBuilder<Ext, XInter, XAct>, x: XNew) -> ActionAffordanceBuilder<Ext, XInter, X2<XAct>> { b.ext(x) }
pub fn root_aa_ext_with(b: ActionAffordanceBuilder<Ext, XInter, XAct>, x: XNew) -> ActionAffordanceBuilder<Ext, XInter, X2<XAct>> { b.ext_with(|| x) }
pub fn root_aa_ext_interaction(b: ActionAffordanceBuilder<Ext, XInter, XAct>, x: XNew) -> ActionAffordanceBuilder<Ext, X2<XInter>, XAct> { b.ext_interaction(x) }
pub fn root_aa_ext_interaction_with(b: ActionAffordanceBuilder<Ext, XInter, XAct>, x: XNew) -> ActionAffordanceBuilder<Ext, X2<XInter>, XAct> { b.ext_interaction_with(|| x) }
pub fn root_aa_form(b: ActionAffordanceBuilder<Ext, XInter, XAct>, f: FormBuilder<Ext, String, XForm>) -> ActionAffordanceBuilder<Ext, XInter, XAct> { BuildableInteractionAffordance::form(b, |_| f) }
pub fn root_aa_form_fresh(b: ActionAffordanceBuilder<Ext, XInter, XAct>, h: String) -> ActionAffordanceBuilder<Ext, XInter, XAct> { BuildableInteractionAffordance::form(b, |x| x.href(h)) }
pub fn root_aa_uri_variable(b: ActionAffordanceBuilder<Ext, XInter, XAct>, k: String, u: UncheckedDataSchema<XData, XArr, XObj>) -> ActionAffordanceBuilder<Ext, XInter, XAct> { BuildableInteractionAffordance::uri_variable(b, k, |_| u) }
pub fn root_aa_uri_variable_fresh(b: ActionAffordanceBuilder<Ext, XInter, XAct>, k: String) -> ActionAffordanceBuilder<Ext, XInter, XAct> { BuildableInteractionAffordance::uri_variable(b, k, |d| d.finish_extend().string()) }
pub fn root_ea_ext(b: EventAffordanceBuilder<Ext, XInter, XEvt>, x: XNew) -> EventAffordanceBuilder<Ext, XInter, X2<XEvt>> { b.ext(x) }
pub fn root_ea_ext_with(b: EventAffordanceBuilder<Ext, XInter, XEvt>, x: XNew) -> EventAffordanceBuilder<Ext, XInter, X2<XEvt>> { b.ext_with(|| x) }
pub fn root_ea_ext_interaction(b: EventAffordanceBuilder<Ext, XInter, XEvt>, x: XNew) -> EventAffordanceBuilder<Ext, X2<XInter>, XEvt> { b.ext_interaction(x) }
pub fn root_ea_ext_interaction_with(b: EventAffordanceBuilder<Ext, XInter, XEvt>, x: XNew) -> EventAffordanceBuilder<Ext, X2<XInter>, XEvt> { b.ext_interaction_with(|| x) }
pub fn root_ea_form(b: EventAffordanceBuilder<Ext, XInter, XEvt>, f: FormBuilder<Ext, String, XForm>) -> EventAffordanceBuilder<Ext, XInter, XEvt> { BuildableInteractionAffordance::form(b, |_| f) }
pub fn root_ea_form_fresh(b: EventAffordanceBuilder<Ext, XInter, XEvt>, h: String) -> EventAffordanceBuilder<Ext, XInter, XEvt> { BuildableInteractionAffordance::form(b, |x| x.href(h)) }
pub fn root_ea_uri_variable(b: EventAffordanceBuilder<Ext, XInter, XEvt>, k: String, u: UncheckedDataSchema<XData, XArr, XObj>) -> EventAffordanceBuilder<Ext, XInter, XEvt> { BuildableInteractionAffordance::uri_variable(b, k, |_| u) }
pub fn root_ea_uri_variable_fresh(b: EventAffordanceBuilder<Ext, XInter, XEvt>, k: String) -> EventAffordanceBuilder<Ext, XInter, XEvt> { BuildableInteractionAffordance::uri_variable(b, k, |d| d.finish_extend().string()) }
pub fn root_pa_ext_schema(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, XInter, XProp>, x: XNew) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<X2<XData>, XArr, XObj, ToExtend>, XInter, XProp> { b.ext_data_schema(x) }
pub fn root_pa_ext_schema_with(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, XInter, XProp>, x: XNew) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<X2<XData>, XArr, XObj, ToExtend>, XInter, XProp> { b.ext_data_schema_with(|| x) }
pub fn root_pa_finish(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, ToExtend>, XInter, XProp>) -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp> { b.finish_extend_data_schema() }
pub fn root_pa_d_ext_schema(b: PropertyAffordanceBuilder<Ext, DataSchemaBuilder<XData, XArr, XObj, ToExtend>, XInter, XProp>, x: XNew) -> PropertyAffordanceBuilder<Ext, DataSchemaBuilder<X2<XData>, XArr, XObj, ToExtend>, XInter, XProp> { b.ext_data_schema(x) }
pub fn root_pa_d_finish(b: PropertyAffordanceBuilder<Ext, DataSchemaBuilder<XData, XArr, XObj, ToExtend>, XInter, XProp>) -> PropertyAffordanceBuilder<Ext, DataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp> { b.finish_extend_data_schema() }
pub fn root_pa_kind_bool(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>) -> PropertyAffordanceBuilder<Ext, StatelessDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { SpecializableDataSchema::<XData, XArr, XObj>::bool(b) }
pub fn root_pa_kind_null(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>) -> PropertyAffordanceBuilder<Ext, StatelessDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { SpecializableDataSchema::<XData, XArr, XObj>::null(b) }
pub fn root_pa_kind_number(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>) -> PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { SpecializableDataSchema::<XData, XArr, XObj>::number(b) }
pub fn root_pa_kind_integer(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>) -> PropertyAffordanceBuilder<Ext, IntegerDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { SpecializableDataSchema::<XData, XArr, XObj>::integer(b) }
pub fn root_pa_kind_string(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>) -> PropertyAffordanceBuilder<Ext, StringDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { SpecializableDataSchema::<XData, XArr, XObj>::string(b) }
pub fn root_pa_kind_tuple(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>) -> PropertyAffordanceBuilder<Ext, TupleDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, XInter, XProp> { SpecializableDataSchema::<XData, XArr, XObj>::tuple(b) }
pub fn root_pa_kind_vec(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>) -> PropertyAffordanceBuilder<Ext, VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, XInter, XProp> { SpecializableDataSchema::<XData, XArr, XObj>::vec(b) }
pub fn root_pa_kind_object(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>) -> PropertyAffordanceBuilder<Ext, ObjectDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, XInter, XProp> { SpecializableDataSchema::<XData, XArr, XObj>::object(b) }
pub fn root_pa_kind_tuple_ext(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>, x: XArr) -> PropertyAffordanceBuilder<Ext, TupleDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, XInter, XProp> { SpecializableDataSchema::<XData, XArr, XObj>::tuple_ext(b, |_| x) }
pub fn root_pa_kind_vec_ext(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>, x: XArr) -> PropertyAffordanceBuilder<Ext, VecDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, XInter, XProp> { SpecializableDataSchema::<XData, XArr, XObj>::vec_ext(b, |_| x) }
pub fn root_pa_kind_object_ext(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>, x: XObj) -> PropertyAffordanceBuilder<Ext, ObjectDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>, XInter, XProp> { SpecializableDataSchema::<XData, XArr, XObj>::object_ext(b, |_| x) }
pub fn root_pa_kind_constant(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>, x: Value) -> PropertyAffordanceBuilder<Ext, ReadOnly<StatelessDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>>, XInter, XProp> { SpecializableDataSchema::<XData, XArr, XObj>::constant(b, x) }
pub fn root_pa_enumeration(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>, x: Value) -> PropertyAffordanceBuilder<Ext, EnumDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { b.enumeration(x) }
pub fn root_pa_enum_enumeration(b: PropertyAffordanceBuilder<Ext, EnumDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp>, x: Value) -> PropertyAffordanceBuilder<Ext, EnumDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { b.enumeration(x) }
pub fn root_pa_one_of(b: PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp>, x: UncheckedDataSchema<XData, XArr, XObj>) -> PropertyAffordanceBuilder<Ext, OneOfDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { b.one_of(|_| x) }
pub fn root_pa_oneof_one_of(b: PropertyAffordanceBuilder<Ext, OneOfDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp>, x: UncheckedDataSchema<XData, XArr, XObj>) -> PropertyAffordanceBuilder<Ext, OneOfDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp> { b.one_of(|_| x) }
pub fn root_pa_read_only(b: PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp>) -> PropertyAffordanceBuilder<Ext, ReadOnly<NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>>, XInter, XProp> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::read_only(b) }
pub fn root_pa_write_only(b: PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp>) -> PropertyAffordanceBuilder<Ext, WriteOnly<NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>>, XInter, XProp> { ReadableWriteableDataSchema::<XData, XArr, XObj, Extended>::write_only(b) }
pub fn root_pa_into_usable(b: PropertyAffordanceBuilder<Ext, NumberDataSchemaBuilder<PartialDataSchemaBuilder<XData, XArr, XObj, Extended>>, XInter, XProp>) -> PropertyAffordanceBuilder<Ext, PartialDataSchema<XData, XArr, XObj>, XInter, XProp> { b.into_usable() }
pub fn root_aa_into_usable(b: ActionAffordanceBuilder<Ext, XInter, XAct>) -> ActionAffordanceBuilder<Ext, XInter, XAct> { b.into_usable() }
pub fn root_ea_into_usable(b: EventAffordanceBuilder<Ext, XInter, XEvt>) -> EventAffordanceBuilder<Ext, XInter, XEvt> { b.into_usable() }
pub fn root_aa_input(b: ActionAffordanceBuilder<Ext, XInter, XAct>, u: UncheckedDataSchema<XData, XArr, XObj>) -> ActionAffordanceBuilder<Ext, XInter, XAct> { b.input(|_| u) }
pub fn root_aa_input_fresh(b: ActionAffordanceBuilder<Ext, XInter, XAct>) -> ActionAffordanceBuilder<Ext, XInter, XAct> { b.input(|d| d.finish_extend().string()) }
pub fn root_aa_output(b: ActionAffordanceBuilder<Ext, XInter, XAct>, u: UncheckedDataSchema<XData, XArr, XObj>) -> ActionAffordanceBuilder<Ext, XInter, XAct> { b.output(|_| u) }
pub fn root_aa_output_fresh(b: ActionAffordanceBuilder<Ext, XInter, XAct>) -> ActionAffordanceBuilder<Ext, XInter, XAct> { b.output(|d| d.finish_extend().string()) }
pub fn root_aa_safe(b: ActionAffordanceBuilder<Ext, XInter, XAct>) -> ActionAffordanceBuilder<Ext, XInter, XAct> { b.safe() }
pub fn root_aa_idempotent(b: ActionAffordanceBuilder<Ext, XInter, XAct>) -> ActionAffordanceBuilder<Ext, XInter, XAct> { b.idempotent() }
pub fn root_aa_synchronous(b: ActionAffordanceBuilder<Ext, XInter, XAct>, x: bool) -> ActionAffordanceBuilder<Ext, XInter, XAct> { b.synchronous(x) }
pub fn root_ea_subscription(b: EventAffordanceBuilder<Ext, XInter, XEvt>, u: UncheckedDataSchema<XData, XArr, XObj>) -> EventAffordanceBuilder<Ext, XInter, XEvt> { b.subscription(|_| u) }
pub fn root_ea_subscription_fresh(b: EventAffordanceBuilder<Ext, XInter, XEvt>) -> EventAffordanceBuilder<Ext, XInter, XEvt> { b.subscription(|d| d.finish_extend().string()) }
pub fn root_ea_data(b: EventAffordanceBuilder<Ext, XInter, XEvt>, u: UncheckedDataSchema<XData, XArr, XObj>) -> EventAffordanceBuilder<Ext, XInter, XEvt> { b.data(|_| u) }
pub fn root_ea_data_fresh(b: EventAffordanceBuilder<Ext, XInter, XEvt>) -> EventAffordanceBuilder<Ext, XInter, XEvt> { b.data(|d| d.finish_extend().string()) }
pub fn root_ea_cancellation(b: EventAffordanceBuilder<Ext, XInter, XEvt>, u: UncheckedDataSchema<XData, XArr, XObj>) -> EventAffordanceBuilder<Ext, XInter, XEvt> { b.cancellation(|_| u) }
pub fn root_ea_cancellation_fresh(b: EventAffordanceBuilder<Ext, XInter, XEvt>) -> EventAffordanceBuilder<Ext, XInter, XEvt> { b.cancellation(|d| d.finish_extend().string()) }
pub fn root_ea_data_response(b: EventAffordanceBuilder<Ext, XInter, XEvt>, u: UncheckedDataSchema<XData, XArr, XObj>) -> EventAffordanceBuilder<Ext, XInter, XEvt> { b.data_response(|_| u) }
pub fn root_ea_data_response_fresh(b: EventAffordanceBuilder<Ext, XInter, XEvt>) -> EventAffordanceBuilder<Ext, XInter, XEvt> { b.data_response(|d| d.finish_extend().string()) }
pub fn root_pa_default() -> PropertyAffordanceBuilder<Ext, PartialDataSchemaBuilder<XData, XArr, XObj, Extended>, XInter, XProp> { Default::default() }
pub fn root_aa_default() -> ActionAffordanceBuilder<Ext, XInter, XAct> { Default::default() }
pub fn root_tryconv_tuple_d(b: TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_ro_tuple_d(b: ReadOnly<TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_wo_tuple_d(b: WriteOnly<TupleDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_vec_d(b: VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_ro_vec_d(b: ReadOnly<VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_wo_vec_d(b: WriteOnly<VecDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_number_d(b: NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_ro_number_d(b: ReadOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_wo_number_d(b: WriteOnly<NumberDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_integer_d(b: IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_ro_integer_d(b: ReadOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_wo_integer_d(b: WriteOnly<IntegerDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_object_d(b: ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_ro_object_d(b: ReadOnly<ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_wo_object_d(b: WriteOnly<ObjectDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>, XData, XArr, XObj>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_string_d(b: StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_ro_string_d(b: ReadOnly<StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_wo_string_d(b: WriteOnly<StringDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_enum_d(b: EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_ro_enum_d(b: ReadOnly<EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_wo_enum_d(b: WriteOnly<EnumDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_oneof_d(b: OneOfDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_stateless_d(b: StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_ro_stateless_d(b: ReadOnly<StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
pub fn root_tryconv_wo_stateless_d(b: WriteOnly<StatelessDataSchemaBuilder<DataSchemaBuilder<XData, XArr, XObj, Extended>>>) -> Result<wot_td::thing::DataSchema<XData, XArr, XObj>, Error> { b.try_into() }
