"""Contracts of the builder methods, as data: one entry per method (and builder state).  The same
table generates the roots crate (tools/mkroots.py -> roots_set/src/lib.rs: functions that only call
the method) and the obligations (SetterUnit).

An entry says: the result of `body` equals the first argument field by field, except at the named
paths, where the rule given holds.  Constructors (base=None) say: every field has its default value,
except at the named paths."""

ENTRIES = []
DIRECT = []     # (root, root of the conversion it has to agree with, type of the builder)


class E:
    def __init__(self, name, params, ret, body, frame=None, base=0, props=('P10',), conv=None, where=''):
        self.name = name
        self.params = params
        self.ret = ret
        self.body = body
        self.frame = frame or {}
        self.base = base
        self.props = set(props)
        self.conv = conv
        self.where = where


def e(name, params, ret, body, frame=None, **kw):
    ps = [p.split(':', 1) for p in params]
    ENTRIES.append(E(name, [(n.strip(), t.strip()) for n, t in ps], ret, body, frame, **kw))


# rules: (kind, operands...)
def some(i): return ('some', i)
def eq(i): return ('eq', i)
def push(i): return ('push', i)
def pushopt(i): return ('pushopt', i)
def pushp(spec): return ('pushp', spec)
def pushoptp(spec): return ('pushoptp', spec)
def ins(k, v): return ('ins', k, v)
def insopt(k, v): return ('insopt', k, v)
def var(name, i): return ('var', name, i)
def somevar(name, i): return ('somevar', name, i)
def isvar(name): return ('isvar', name)
def num(n): return ('num', n)
def val(path): return ('val', path)       # same as that path of the arguments, e.g. '0.info.title'
def somep(spec): return ('somep', spec)
TRUE = ('true',)
FALSE = ('false',)
NONE = ('none',)
DEFAULT = ('default',)
UNIT = ('any',)

S = 'String'
SO = 'XData, XArr, XObj'
D0 = 'DataSchemaBuilder<%s, ToExtend>' % SO
D = 'DataSchemaBuilder<%s, Extended>' % SO
P0 = 'PartialDataSchemaBuilder<%s, ToExtend>' % SO
P = 'PartialDataSchemaBuilder<%s, Extended>' % SO
U = 'UncheckedDataSchema<%s>' % SO
PD = 'PartialDataSchema<%s>' % SO
ML = 'MultiLanguageBuilder<String>'
TB0 = 'ThingBuilder<Ext, ToExtend>'
TB = 'ThingBuilder<Ext, Extended>'
FB0 = 'FormBuilder<Ext, (), XForm>'
FB = 'FormBuilder<Ext, String, XForm>'


def PA(c, i='XInter', o='XProp'): return 'PropertyAffordanceBuilder<Ext, %s, %s, %s>' % (c, i, o)


AA = 'ActionAffordanceBuilder<Ext, XInter, XAct>'
EA = 'EventAffordanceBuilder<Ext, XInter, XEvt>'

# ---------------------------------------------------------------- language maps, contexts
e('ml_add', ['b: %s' % ML, 'k: String', 'v: String'], ML, '{ let mut b = b; b.add(k, v); b }', {'values': ins(1, 2)})
e('ctx_map_add', ['b: %s' % TB, 'k: String', 'v: String'], TB, 'b.context_map(|m| m.context(k, v))', {'context': pushp(('variant', 'Map', {'': ('map1', 1, 2)}))}, props=('P10', 'P01', 'P12'))
e('ctx_map_two', ['b: %s' % TB, 'k: String', 'v: String', 'l: String', 'w: String'], TB, 'b.context_map(|m| m.context(k, v).context(l, w))', {'context': pushp(('variant', 'Map', {'': ('map2', 1, 2, 3, 4)}))}, props=('P10', 'P01', 'P12'))

# ---------------------------------------------------------------- Thing builder
INV = ('P10', 'P01', 'P12')
TD11 = 'https://www.w3.org/2022/wot/td/v1.1'
for nm, ret, body in (('new', TB0, 'ThingBuilder::<Ext, ToExtend>::new(t)'), ('new_empty', TB0, 'ThingBuilder::<Ext, ToExtend>::new_empty(t)'), ('thing_builder', 'ThingBuilder<Nil, ToExtend>', 'wot_td::Thing::<Nil>::builder(t)')):
    e('tb_' + nm, ['t: String'], ret, body, {'title': eq(0), 'context': ('only', ('variant', 'Simple', {'': ('str', TD11)})), 'other': {'new': DEFAULT, 'new_empty': num(101), 'thing_builder': UNIT}[nm]}, base=None, props=INV)
e('tb_finish', ['b: %s' % TB0], TB, 'b.finish_extend()', {}, props=INV)
for st, ty in (('', TB), ('0', TB0)):
    for f in ('id', 'description', 'support', 'base'):
        e('tb%s_%s' % (st, f), ['b: %s' % ty, 'x: String'], ty, 'b.%s(x)' % f, {f: some(1)}, props=INV)
    e('tb%s_version' % st, ['b: %s' % ty, 'x: VersionInfo'], ty, 'b.version(x)', {'version': some(1)}, props=INV)
    e('tb%s_version_text' % st, ['b: %s' % ty, 'x: String'], ty, 'b.version(x)', {'version': somep({'instance': eq(1), '*': DEFAULT})}, props=INV)
    e('tb%s_created' % st, ['b: %s' % ty, 'x: OffsetDateTime'], ty, 'b.created(x)', {'created': some(1)}, props=INV)
    e('tb%s_modified' % st, ['b: %s' % ty, 'x: OffsetDateTime'], ty, 'b.modified(x)', {'modified': some(1)}, props=INV)
    e('tb%s_context' % st, ['b: %s' % ty, 'x: String'], ty, 'b.context(x)', {'context': ('context', 1)}, props=INV)
    e('tb%s_attype' % st, ['b: %s' % ty, 'x: String'], ty, 'b.attype(x)', {'attype': pushopt(1)}, props=INV)
    e('tb%s_titles' % st, ['b: %s' % ty, 'm: %s' % ML], ty, 'b.titles(|x| { *x = m; x })', {'titles': some(1)}, props=INV)
    e('tb%s_descriptions' % st, ['b: %s' % ty, 'm: %s' % ML], ty, 'b.descriptions(|x| { *x = m; x })', {'descriptions': some(1)}, props=INV)
    e('tb%s_titles_fresh' % st, ['b: %s' % ty, 'k: String', 'v: String'], ty, 'b.titles(|x| x.add(k, v))', {'titles': somep({'values': ('map1', 1, 2)})}, props=INV)
    e('tb%s_descriptions_fresh' % st, ['b: %s' % ty, 'k: String', 'v: String'], ty, 'b.descriptions(|x| x.add(k, v))', {'descriptions': somep({'values': ('map1', 1, 2)})}, props=INV)
    e('tb%s_link' % st, ['b: %s' % ty, 'x: String'], ty, 'b.link(x)', {'links': pushoptp({'href': eq(1), '*': DEFAULT})}, props=INV)
    LKF = {k: val('1.' + k) for k in ('href', 'ty', 'rel', 'anchor', 'sizes', 'hreflang')}
    e('tb%s_link_with' % st, ['b: %s' % ty, 'l: LinkBuilder<String>'], ty, 'b.link_with(|_| l)', {'links': pushoptp(LKF)}, props=INV)
    e('tb%s_link_with_fresh' % st, ['b: %s' % ty, 'h: String'], ty, 'b.link_with(|x| x.href(h))', {'links': pushoptp({'href': eq(1), '*': DEFAULT})}, props=INV)
    e('tb%s_profile' % st, ['b: %s' % ty, 'x: String'], ty, 'b.profile(x)', {'profile': push(1)}, props=INV)
    SEC = 'SecuritySchemeBuilder<%s>'
    SECK = [('nosec', 'SecuritySchemeNoSecTag', 'NoSec', None), ('auto', 'SecuritySchemeAutoTag', 'Auto', None), ('allof', '(AllOfComboSecuritySchemeTag, Vec<String>)', 'Combo', 'AllOf'),
            ('oneof', '(OneOfComboSecuritySchemeTag, Vec<String>)', 'Combo', 'OneOf'), ('basic', 'BasicSecurityScheme', 'Basic', 'p'), ('digest', 'DigestSecurityScheme', 'Digest', 'p'),
            ('bearer', 'BearerSecurityScheme', 'Bearer', 'p'), ('psk', 'PskSecurityScheme', 'Psk', 'p'), ('oauth2', 'OAuth2SecurityScheme', 'OAuth2', 'p'), ('apikey', 'ApiKeySecurityScheme', 'ApiKey', 'p'),
            ('custom', 'UnknownSecuritySchemeSubtype', None, None)]
    SECNAME = {'allof': 'combo', 'oneof': 'combo'}
    for k, t, v, how in SECK:
        e('tb%s_security_%s' % (st, k), ['b: %s' % ty, 's: ' + SEC % t], ty, 'b.security(|_| s)', {'security_definitions': ('secdef', SECNAME.get(k, k), v, how), 'security': ('secreq', SECNAME.get(k, k))}, props=INV)
    e('tb%s_security_fresh' % st, ['b: %s' % ty], ty, 'b.security(|x| x.no_sec())',
      {'security_definitions': pushp({'0': ('str', 'nosec'), '1': {'subtype': ('path', 'Known', 'NoSec'), '*': DEFAULT}})}, props=INV)
    e('tb%s_security_fresh_required' % st, ['b: %s' % ty], ty, 'b.security(|x| x.auto().required())',
      {'security_definitions': pushp({'0': ('str', 'auto'), '1': {'subtype': ('path', 'Known', 'Auto'), '*': DEFAULT}}), 'security': pushp(('str', 'auto'))}, props=INV)
RESET = {k: DEFAULT for k in ('properties', 'actions', 'events', 'forms', 'uri_variables', 'schema_definitions')}
e('tb_ext', ['b: %s' % TB0, 't: XNew'], 'ThingBuilder<Ext2, ToExtend>', 'b.ext(t)', dict(RESET, other=('both', 1)), props=INV)
e('tb_ext_with', ['b: %s' % TB0, 't: XNew'], 'ThingBuilder<Ext2, ToExtend>', 'b.ext_with(|| t)', dict(RESET, other=('both', 1)), props=INV)
e('tb_form', ['b: %s' % TB, 'f: %s' % FB], TB, 'b.form(|_| f)', {'forms': pushopt(1)}, props=INV)
FRESHFORM = {'href': eq(1), 'other': num(105), 'op': isvar('Default'), '*': DEFAULT}
e('tb_form_fresh', ['b: %s' % TB, 'h: String'], TB, 'b.form(|x| x.href(h))', {'forms': pushoptp(FRESHFORM)}, props=INV)
e('tb_uri_variable', ['b: %s' % TB, 'k: String', 'u: %s' % U], TB, 'b.uri_variable(k, |_| u)', {'uri_variables': insopt(1, 2)}, props=INV)
e('tb_schema_definition', ['b: %s' % TB, 'k: String', 'u: %s' % U], TB, 'b.schema_definition(k, |_| u)', {'schema_definitions': ins(1, 2)}, props=INV)
FRESHSTR = {'other': num(107), 'subtype': ('somepath', 'String', {'*': DEFAULT}), '*': DEFAULT}
e('tb_uri_variable_fresh', ['b: %s' % TB, 'k: String'], TB, 'b.uri_variable(k, |d| d.finish_extend().string())', {'uri_variables': ('insoptp', 1, FRESHSTR)}, props=INV)
e('tb_schema_definition_fresh', ['b: %s' % TB, 'k: String'], TB, 'b.schema_definition(k, |d| d.finish_extend().string())', {'schema_definitions': ('insp', 1, FRESHSTR)}, props=INV)
e('tb_property', ['b: %s' % TB, 'k: String', 'p: %s' % PA(PD)], TB, 'b.property(k, |_| p)', {'properties': pushp({'name': eq(1), 'affordance': eq(2)})}, props=INV)
e('tb_action', ['b: %s' % TB, 'k: String', 'p: %s' % AA], TB, 'b.action(k, |_| p)', {'actions': pushp({'name': eq(1), 'affordance': eq(2)})}, props=INV)
e('tb_event', ['b: %s' % TB, 'k: String', 'p: %s' % EA], TB, 'b.event(k, |_| p)', {'events': pushp({'name': eq(1), 'affordance': eq(2)})}, props=INV)
FRESHI = {'forms': DEFAULT, 'uri_variables': DEFAULT, 'other': num(101)}
e('tb_property_fresh', ['b: %s' % TB, 'k: String'], TB, 'b.property(k, |p| p.finish_extend_data_schema().string())',
  {'properties': pushp({'name': eq(1), 'affordance': {'interaction': FRESHI, 'other': num(102), 'data_schema': FRESHSTR, '*': DEFAULT}})}, props=INV)
e('tb_action_fresh', ['b: %s' % TB, 'k: String'], TB, 'b.action(k, |p| p)',
  {'actions': pushp({'name': eq(1), 'affordance': {'interaction': {'partial': FRESHI, '*': DEFAULT}, 'other': num(103), '*': DEFAULT}})}, props=INV)
e('tb_event_fresh', ['b: %s' % TB, 'k: String'], TB, 'b.event(k, |p| p)',
  {'events': pushp({'name': eq(1), 'affordance': {'interaction': {'partial': FRESHI, '*': DEFAULT}, 'other': num(104), '*': DEFAULT}})}, props=INV)

# ---------------------------------------------------------------- links
e('lb_href', ['b: LinkBuilder<()>', 'x: String'], 'LinkBuilder<String>', 'b.href(x)', {'href': eq(1)})
for h, t in (('u', 'LinkBuilder<()>'), ('s', 'LinkBuilder<String>')):
    for f in ('ty', 'rel', 'anchor', 'sizes'):
        e('lb_%s_%s' % (h, f), ['b: ' + t, 'x: String'], t, 'b.%s(x)' % f, {f: some(1)})
    e('lb_%s_hreflang' % h, ['b: ' + t, 'x: String'], t, 'b.hreflang(x)', {'hreflang': push(1)})

# ---------------------------------------------------------------- security schemes
SB = 'SecuritySchemeBuilder<%s>'
HEADER = isvar('Header')
for m, t, fr in (('no_sec', 'SecuritySchemeNoSecTag', {}), ('auto', 'SecuritySchemeAutoTag', {}), ('combo', 'EmptyComboSecuritySchemeTag', {}),
                 ('basic', 'BasicSecurityScheme', {'subtype': {'location': isvar('Header'), 'name': NONE}}),
                 ('digest', 'DigestSecurityScheme', {'subtype': {'qop': isvar('Auth'), 'location': isvar('Header'), 'name': NONE}}),
                 ('bearer', 'BearerSecurityScheme', {'subtype': {'authorization': NONE, 'alg': ('cow', 'ES256'), 'format': ('cow', 'jwt'), 'location': isvar('Header'), 'name': NONE}}),
                 ('psk', 'PskSecurityScheme', {'subtype': {'identity': NONE}}),
                 ('apikey', 'ApiKeySecurityScheme', {'subtype': {'location': isvar('Query'), 'name': NONE}})):
    e('sb_' + m, ['b: ' + SB % '()'], SB % t, 'b.%s()' % m, fr or {'subtype': UNIT})
e('sb_oauth2', ['b: ' + SB % '()', 'x: String'], SB % 'OAuth2SecurityScheme', 'b.oauth2(x)', {'subtype': {'flow': eq(1), '*': DEFAULT}})
e('sb_custom', ['b: ' + SB % '()', 'x: String'], SB % 'UnknownSecuritySchemeSubtype', 'b.custom(x)', {'subtype': {'scheme': eq(1), 'data': isvar('Null')}})
SBT = SB % 'XData'
for f in ('description', 'proxy'):
    e('sb_' + f, ['b: ' + SBT, 'x: String'], SBT, 'b.%s(x)' % f, {f: some(1)})
e('sb_attype', ['b: ' + SBT, 'x: String'], SBT, 'b.attype(x)', {'attype': pushopt(1)})
e('sb_descriptions', ['b: ' + SBT, 'm: ' + ML], SBT, 'b.descriptions(|x| { *x = m; x })', {'descriptions': some(1)})
e('sb_descriptions_fresh', ['b: ' + SBT, 'k: String', 'v: String'], SBT, 'b.descriptions(|x| x.add(k, v))', {'descriptions': somep({'values': ('map1', 1, 2)})})
e('sb_with_key', ['b: ' + SBT, 'x: String'], SBT, 'b.with_key(x)', {'name': some(1)})
e('sb_required', ['b: ' + SBT], SBT, 'b.required()', {'required': TRUE})
for k in ('Basic', 'Digest', 'ApiKey', 'Bearer'):
    t = SB % (k + 'SecurityScheme')
    e('sb_%s_name' % k.lower(), ['b: ' + t, 'x: String'], t, 'b.name(x)', {'subtype.name': some(1)})
    e('sb_%s_location' % k.lower(), ['b: ' + t, 'x: SecurityAuthenticationLocation'], t, 'b.location(x)', {'subtype.location': eq(1)})
EC = SB % 'EmptyComboSecuritySchemeTag'
e('sb_combo_name', ['b: ' + EC, 'x: String'], EC, 'b.name(x)', {'name': some(1)})
for m, tag in (('all_of', 'AllOf'), ('one_of', 'OneOf')):
    t = SB % ('(%sComboSecuritySchemeTag, Vec<String>)' % tag)
    e('sb_' + m, ['b: ' + EC, 'x: Vec<String>'], t, 'b.%s(x)' % m, {'subtype': {'0': UNIT, '1': eq(1)}})
    e('sb_%s_push' % m, ['b: ' + t, 'x: String'], t, 'b.push(x)', {'subtype.1': push(1)})
    e('sb_%s_extend' % m, ['b: ' + t, 'x: Vec<String>'], t, 'b.extend(x)', {'subtype.1': ('concat', 1)})
    e('sb_%s_name' % m, ['b: ' + t, 'x: String'], t, 'b.name(x)', {'name': some(1)})
DG = SB % 'DigestSecurityScheme'
e('sb_qop', ['b: ' + DG, 'x: QualityOfProtection'], DG, 'b.qop(x)', {'subtype.qop': eq(1)})
BR = SB % 'BearerSecurityScheme'
e('sb_bearer_authorization', ['b: ' + BR, 'x: String'], BR, 'b.authorization(x)', {'subtype.authorization': some(1)})
e('sb_bearer_alg', ['b: ' + BR, "x: Cow<'static, str>"], BR, 'b.alg(x)', {'subtype.alg': eq(1)})
e('sb_bearer_format', ['b: ' + BR, "x: Cow<'static, str>"], BR, 'b.format(x)', {'subtype.format': eq(1)})
OA = SB % 'OAuth2SecurityScheme'
for f in ('authorization', 'token', 'refresh'):
    e('sb_oauth2_' + f, ['b: ' + OA, 'x: String'], OA, 'b.%s(x)' % f, {'subtype.' + f: some(1)})
e('sb_oauth2_scope', ['b: ' + OA, 'x: String'], OA, 'b.scope(x)', {'subtype.scopes': pushopt(1)})
CU = SB % 'UnknownSecuritySchemeSubtype'
e('sb_custom_data', ['b: ' + CU, 'x: Value'], CU, 'b.data(x)', {'subtype.data': eq(1)})

# ---------------------------------------------------------------- forms
e('fb_href', ['b: ' + FB0, 'x: String'], FB, 'b.href(x)', {'href': eq(1)})
for h, t in (('u', FB0), ('s', FB)):
    for f in ('content_type', 'content_coding', 'subprotocol'):
        e('fb_%s_%s' % (h, f), ['b: ' + t, 'x: String'], t, 'b.%s(x)' % f, {f: some(1)})
    e('fb_%s_op' % h, ['b: ' + t, 'x: FormOperation'], t, 'b.op(x)', {'op': ('op', 1)})
    e('fb_%s_security' % h, ['b: ' + t, 'x: String'], t, 'b.security(x)', {'security': pushopt(1)})
    e('fb_%s_scope' % h, ['b: ' + t, 'x: String'], t, 'b.scope(x)', {'scopes': pushopt(1)})
    e('fb_%s_response_default' % h, ['b: ' + t, 'x: String'], t, 'b.response_default_ext(x)', {'response': somep({'content_type': eq(1), 'other': DEFAULT})})
    e('fb_%s_response' % h, ['b: ' + t, 'x: String', 'o: XResp'], t, 'b.response(x, |_| o)', {'response': somep({'content_type': eq(1), 'other': eq(2)})})
    e('fb_%s_response_fresh' % h, ['b: ' + t, 'x: String'], t, 'b.response(x, |o| o)', {'response': somep({'content_type': eq(1), 'other': num(106)})})
    e('fb_%s_additional' % h, ['b: ' + t, 'r: AdditionalExpectedResponseBuilder'], t, 'b.additional_response(|x| { *x = r; x })', {'additional_responses': pushp({k: val('1.' + k) for k in ('success', 'content_type', 'schema')})})
    e('fb_%s_additional_fresh' % h, ['b: ' + t], t, 'b.additional_response(|x| x)', {'additional_responses': pushp({'success': FALSE, 'content_type': NONE, 'schema': NONE})})
    t2 = t.replace('XForm', 'X2<XForm>')
    e('fb_%s_ext' % h, ['b: ' + t, 'x: XNew'], t2, 'b.ext(x)', {'other': ('both', 1)})
    e('fb_%s_ext_with' % h, ['b: ' + t, 'x: XNew'], t2, 'b.ext_with(|| x)', {'other': ('both', 1)})
e('fb_into_form', ['b: ' + FB], 'Form<Ext>', 'b.into()', {'additional_responses': ('nonempty', '0.additional_responses')})
AR = 'AdditionalExpectedResponseBuilder'
e('ar_success', ['b: ' + AR], AR, '{ let mut b = b; b.success(); b }', {'success': TRUE})
e('ar_content_type', ['b: ' + AR, 'x: String'], AR, '{ let mut b = b; b.content_type(x); b }', {'content_type': some(1)})
e('ar_schema', ['b: ' + AR, 'x: String'], AR, '{ let mut b = b; b.schema(x); b }', {'schema': some(1)})


# ---------------------------------------------------------------- human readable information
def hr(tag, t, path):
    p = path + '.' if path else ''
    e(tag + '_attype', ['b: ' + t, 'x: String'], t, 'BuildableHumanReadableInfo::attype(b, x)', {p + 'attype': pushopt(1)})
    e(tag + '_title', ['b: ' + t, 'x: String'], t, 'BuildableHumanReadableInfo::title(b, x)', {p + 'title': some(1)})
    e(tag + '_titles', ['b: ' + t, 'm: ' + ML], t, 'BuildableHumanReadableInfo::titles(b, |x| { *x = m; x })', {p + 'titles': some(1)})
    e(tag + '_description', ['b: ' + t, 'x: String'], t, 'BuildableHumanReadableInfo::description(b, x)', {p + 'description': some(1)})
    e(tag + '_descriptions', ['b: ' + t, 'm: ' + ML], t, 'BuildableHumanReadableInfo::descriptions(b, |x| { *x = m; x })', {p + 'descriptions': some(1)})


hr('hr', 'HumanReadableInfo', '')
e('hr_titles_fresh', ['b: HumanReadableInfo', 'k: String', 'v: String'], 'HumanReadableInfo', 'b.titles(|x| x.add(k, v))', {'titles': somep({'values': ('map1', 1, 2)})})
e('hr_descriptions_fresh', ['b: HumanReadableInfo', 'k: String', 'v: String'], 'HumanReadableInfo', 'b.descriptions(|x| x.add(k, v))', {'descriptions': somep({'values': ('map1', 1, 2)})})
hr('hr_d', D, 'info')
hr('hr_d0', D0, 'info')
hr('hr_pa', PA(P), 'info')
hr('hr_aa', AA, 'interaction.info')
hr('hr_ea', EA, 'interaction.info')


def K(k, i):
    if k in ('Tuple', 'Vec', 'Object'):
        return '%sDataSchemaBuilder<%s, %s>' % (k, i, SO)
    return '%sDataSchemaBuilder<%s>' % (k, i)


KINDS = ['Tuple', 'Vec', 'Number', 'Integer', 'Object', 'String', 'Enum', 'OneOf', 'Stateless']
for k in KINDS:
    hr('hr_%s' % k.lower(), K(k, D), 'inner.info')
hr('hr_ro', 'ReadOnly<%s>' % K('Number', D), 'inner.inner.info')
hr('hr_wo', 'WriteOnly<%s>' % K('Number', D), 'inner.inner.info')


# ---------------------------------------------------------------- common parts of data schemas
def ds(tag, t, path, st='Extended'):
    p = path + '.' if path else ''
    tr = 'BuildableDataSchema::<%s, %s>' % (SO, st)
    e(tag + '_unit', ['b: ' + t, 'x: String'], t, tr + '::unit(b, x)', {p + 'unit': some(1)})
    e(tag + '_format', ['b: ' + t, 'x: String'], t, tr + '::format(b, x)', {p + 'format': some(1)})
    e(tag + '_default', ['b: ' + t, 'x: Value'], t, tr + '::default_value(b, x)', {p + 'default': some(1)})


ds('ds_p', P, '')
ds('ds_p0', P0, '', 'ToExtend')
ds('ds_d', D, 'partial')
ds('ds_d0', D0, 'partial', 'ToExtend')
for k in KINDS:
    ds('ds_%s_d' % k.lower(), K(k, D), 'inner.partial')
ds('ds_number_p', K('Number', P), 'inner')
ds('ds_ro', 'ReadOnly<%s>' % K('Number', D), 'inner.inner.partial')
ds('ds_wo', 'WriteOnly<%s>' % K('Number', D), 'inner.inner.partial')
ds('ds_pa', PA(P), 'data_schema')
ds('ds_pa_number', PA(K('Number', P)), 'data_schema.inner')

# extension and its end
for tag, t, t2, p in (('d', D0, D0.replace('XData', 'X2<XData>', 1), 'partial.'), ('p', P0, P0.replace('XData', 'X2<XData>', 1), '')):
    e('%s_ext' % tag, ['b: ' + t, 'x: XNew'], t2, 'b.ext(x)', {p + 'other': ('both', 1), p + 'one_of': DEFAULT})
    e('%s_ext_with' % tag, ['b: ' + t, 'x: XNew'], t2, 'b.ext_with(|| x)', {p + 'other': ('both', 1), p + 'one_of': DEFAULT})
e('d_finish', ['b: ' + D0], D, 'b.finish_extend()', {})
e('p_finish', ['b: ' + P0], P, 'b.finish_extend()', {})
e('d_default', [], D, 'Default::default()', {}, base=None)
e('p_default', [], P, 'Default::default()', {}, base=None)
e('hr_default', [], 'HumanReadableInfo', 'Default::default()', {}, base=None)
e('ml_default', [], ML, 'Default::default()', {}, base=None)

# kinds
for tag, t, cp in (('d', D, 'partial.'), ('p', P, '')):
    SP = 'SpecializableDataSchema::<%s>' % SO
    e('kind_%s_bool' % tag, ['b: ' + t], K('Stateless', t), SP + '::bool(b)', {'inner': eq(0), 'ty': ('somepath', 'Boolean', None)}, base=None)
    e('kind_%s_null' % tag, ['b: ' + t], K('Stateless', t), SP + '::null(b)', {'inner': eq(0), 'ty': ('somepath', 'Null', None)}, base=None)
    for k in ('Number', 'Integer', 'String'):
        e('kind_%s_%s' % (tag, k.lower()), ['b: ' + t], K(k, t), SP + '::%s(b)' % k.lower(), {'inner': eq(0)}, base=None)
    for k in ('Tuple', 'Vec', 'Object'):
        x = 'XObj' if k == 'Object' else 'XArr'
        e('kind_%s_%s' % (tag, k.lower()), ['b: ' + t], K(k, t), SP + '::%s(b)' % k.lower(), {'inner': eq(0)}, base=None)
        e('kind_%s_%s_ext' % (tag, k.lower()), ['b: ' + t, 'x: ' + x], K(k, t), SP + '::%s_ext(b, |_| x)' % k.lower(), {'inner': eq(0), 'other': eq(1)}, base=None)
        e('kind_%s_%s_ext_fresh' % (tag, k.lower()), ['b: ' + t], K(k, t), SP + '::%s_ext(b, |x| x)' % k.lower(), {'inner': eq(0), 'other': num(109 if k != 'Object' else 108)}, base=None)
    e('kind_%s_constant' % tag, ['b: ' + t, 'x: Value'], 'ReadOnly<%s>' % K('Stateless', t), SP + '::constant(b, x)', {'inner.inner': ('frame', '0', {cp + 'constant': some(1)}), 'inner.ty': NONE}, base=None)
    e('kind_%s_enumeration' % tag, ['b: ' + t, 'x: Value'], K('Enum', t), 'b.enumeration(x)', {'inner': ('frame', '0', {cp + 'enumeration': push(1)})}, base=None)
    e('kind_%s_one_of' % tag, ['b: ' + t, 'x: ' + U], K('OneOf', t), 'b.one_of(|_| x)', {'inner': ('frame', '0', {cp + 'one_of': push(1)})}, base=None)
    e('kind_%s_one_of_fresh' % tag, ['b: ' + t], K('OneOf', t), 'b.one_of(|d| d.finish_extend().string())', {'inner': ('frame', '0', {cp + 'one_of': pushp(FRESHSTR)})}, base=None)
    e('enum_%s_enumeration' % tag, ['b: ' + K('Enum', t), 'x: Value'], K('Enum', t), 'b.enumeration(x)', {'inner.%senumeration' % cp: push(1)})
    e('oneof_%s_one_of' % tag, ['b: ' + K('OneOf', t), 'x: ' + U], K('OneOf', t), 'b.one_of(|_| x)', {'inner.%sone_of' % cp: push(1)})
    for w in ('ReadOnly', 'WriteOnly'):
        e('%s_%s_enum_enumeration' % (w[0].lower(), tag), ['b: %s<%s>' % (w, K('Enum', t)), 'x: Value'], '%s<%s>' % (w, K('Enum', t)), 'b.enumeration(x)', {'inner.inner.%senumeration' % cp: push(1)})
    for k in KINDS:
        if k == 'OneOf':
            continue
        for w, m in (('ReadOnly', 'read_only'), ('WriteOnly', 'write_only')):
            e('rw_%s_%s_%s' % (tag, k.lower(), m), ['b: ' + K(k, t)], '%s<%s>' % (w, K(k, t)), 'ReadableWriteableDataSchema::<%s, Extended>::%s(b)' % (SO, m), {'inner': ('frame', '0', {'inner.%s%s' % (cp, m): TRUE})}, base=None)

# setters of the kinds, on every builder that has them
NTR = 'NumberDataSchemaBuilderLike::<%s>' % SO
ITR = 'IntegerDataSchemaBuilderLike::<%s>' % SO
STR = 'StringDataSchemaBuilderLike::<%s>' % SO
OTR = 'ObjectDataSchemaBuilderLike::<%s>' % SO
VTR = 'VecDataSchemaBuilderLike::<%s>' % SO
TTR = 'TupleDataSchemaBuilderLike::<%s>' % SO


def on(tag, mk, p, kinds):
    if 'n' in kinds:
        for tr, nt, k, x in ((NTR, 'f64', 'Number', 'f64'), (ITR, 'i64', 'Integer', 'std::num::NonZeroU64')):
            t = mk(k)
            kt = tag + '_' + k.lower()
            e(kt + '_minimum', ['b: ' + t, 'x: ' + nt], t, tr + '::minimum(b, x)', {p + 'minimum': somevar('Inclusive', 1)})
            e(kt + '_maximum', ['b: ' + t, 'x: ' + nt], t, tr + '::maximum(b, x)', {p + 'maximum': somevar('Inclusive', 1)})
            e(kt + '_xminimum', ['b: ' + t, 'x: ' + nt], t, tr + '::exclusive_minimum(b, x)', {p + 'minimum': somevar('Exclusive', 1)})
            e(kt + '_xmaximum', ['b: ' + t, 'x: ' + nt], t, tr + '::exclusive_maximum(b, x)', {p + 'maximum': somevar('Exclusive', 1)})
            e(kt + '_multiple', ['b: ' + t, 'x: ' + x], t, tr + '::multiple_of(b, x)', {p + 'multiple_of': some(1)})
    if 's' in kinds:
        t = mk('String')
        for f, ty in (('min_length', 'u32'), ('max_length', 'u32'), ('pattern', 'String'), ('content_encoding', 'String'), ('content_media_type', 'String')):
            e(tag + '_string_' + f, ['b: ' + t, 'x: ' + ty], t, STR + '::%s(b, x)' % f, {p + f: some(1)})
    t = mk('Object')
    e(tag + '_object_property', ['b: ' + t, 'k: String', 'r: bool', 'u: ' + U], t, OTR + '::property(b, k, r, |_| u)', {p + 'properties': pushp({'0': eq(1), '1': eq(3)}), p + 'required': ('pushif', 2, 1)})
    t = mk('Vec')
    for f in ('min_items', 'max_items'):
        e(tag + '_vec_' + f, ['b: ' + t, 'x: u32'], t, VTR + '::%s(b, x)' % f, {p + f: some(1)})
    e(tag + '_vec_item', ['b: ' + t, 'u: ' + U], t, VTR + '::set_item(b, |_| u)', {p + 'item': some(1)})
    t = mk('Tuple')
    e(tag + '_tuple_append', ['b: ' + t, 'u: ' + U], t, TTR + '::append(b, |_| u)', {p + 'items': push(1)})


on('k_d', lambda k: K(k, D), '', 'ns')
on('k_p', lambda k: K(k, P), '', 'ns')
on('k_ro', lambda k: 'ReadOnly<%s>' % K(k, D), 'inner.', 'n')
on('k_wo', lambda k: 'WriteOnly<%s>' % K(k, D), 'inner.', 'n')
on('k_pa', lambda k: PA(K(k, P)), 'data_schema.', 'n')
e('k_d_object_property_fresh', ['b: ' + K('Object', D), 'k: String', 'r: bool'], K('Object', D), OTR + '::property(b, k, r, |d| d.finish_extend().string())', {'properties': pushp({'0': eq(1), '1': FRESHSTR}), 'required': ('pushif', 2, 1)})
e('k_d_vec_item_fresh', ['b: ' + K('Vec', D)], K('Vec', D), VTR + '::set_item(b, |d| d.finish_extend().string())', {'item': somep(FRESHSTR)})
e('k_d_tuple_append_fresh', ['b: ' + K('Tuple', D)], K('Tuple', D), TTR + '::append(b, |d| d.finish_extend().string())', {'items': pushp(FRESHSTR)})

# conversions of the finished builders into schemas
INFO = ('attype', 'title', 'titles', 'description', 'descriptions')
PART = ('constant', 'default', 'unit', 'read_only', 'write_only', 'format', 'other')


def subtype(k, b):
    if k == 'Stateless':
        return ('stateless', b + 'ty')
    if k in ('Number', 'Integer'):
        return ('somepath', k, {f: val(b + f) for f in ('minimum', 'maximum', 'multiple_of')})
    if k == 'String':
        return ('somepath', k, {f: val(b + f) for f in ('min_length', 'max_length', 'pattern', 'content_encoding', 'content_media_type')})
    if k == 'Tuple':
        return ('somepath', 'Array', {'items': ('somevarval', 'Vec', b + 'items'), 'min_items': NONE, 'max_items': NONE, 'other': val(b + 'other')})
    if k == 'Vec':
        return ('somepath', 'Array', {'items': ('optvar', 'Elem', b + 'item'), 'min_items': val(b + 'min_items'), 'max_items': val(b + 'max_items'), 'other': val(b + 'other')})
    if k == 'Object':
        return ('somepath', 'Object', {'properties': ('nonempty', b + 'properties'), 'required': ('nonempty', b + 'required'), 'other': val(b + 'other')})
    return NONE


def conv(tag, k, wrap, i, target, ro=None):
    t = K(k, D if i == 'd' else P)
    b = '0.'
    for w in wrap:
        t = '%s<%s>' % (w, t)
        b += 'inner.'
    pp = b + ('inner.partial.' if i == 'd' else 'inner.')
    fr = {f: val(pp + f) for f in PART}
    if target == U:
        fr.update({f: val(b + 'inner.info.' + f) for f in INFO})
    # the list of alternatives and the enumeration: absent when the builder has none
    fr['enumeration'] = ('nonempty', pp + 'enumeration')
    fr['one_of'] = ('nonempty', pp + 'one_of')
    fr['subtype'] = subtype(k, b)
    if 'ReadOnly' in wrap:
        fr['read_only'] = TRUE
    e('conv_%s' % tag, ['b: ' + t], target, 'b.into()', fr, base=None)


for k in KINDS:
    for i, target in (('d', U), ('p', PD)):
        conv('%s_%s' % (k.lower(), i), k, (), i, target)
        if k != 'OneOf':
            conv('ro_%s_%s' % (k.lower(), i), k, ('ReadOnly',), i, target)
            conv('wo_%s_%s' % (k.lower(), i), k, ('WriteOnly',), i, target)
    # straight into a schema of a Thing: the conversion of the schema these give
    for w in ('', 'ReadOnly', 'WriteOnly'):
        if w and k == 'OneOf':
            continue
        t = '%s<%s>' % (w, K(k, D)) if w else K(k, D)
        tag = '%s%s_d' % ({'': '', 'ReadOnly': 'ro_', 'WriteOnly': 'wo_'}[w], k.lower())
        DIRECT.append(('tryconv_' + tag, 'conv_' + tag, t))

# ---------------------------------------------------------------- affordances
e('pa_observable', ['b: ' + PA(P), 'x: bool'], PA(P), 'b.observable(x)', {'observable': some(1)})
for tag, mk in (('pa', lambda i, o: PA(P0, i, o)), ('aa', lambda i, o: 'ActionAffordanceBuilder<Ext, %s, %s>' % (i, o if o != 'XProp' else 'XAct')), ('ea', lambda i, o: 'EventAffordanceBuilder<Ext, %s, %s>' % (i, o if o != 'XProp' else 'XEvt'))):
    own = {'pa': 'XProp', 'aa': 'XAct', 'ea': 'XEvt'}[tag]
    ip = 'interaction.' if tag == 'pa' else 'interaction.partial.'
    t = mk('XInter', own)
    e(tag + '_ext', ['b: ' + t, 'x: XNew'], mk('XInter', 'X2<%s>' % own), 'b.ext(x)', {'other': ('both', 1)})
    e(tag + '_ext_with', ['b: ' + t, 'x: XNew'], mk('XInter', 'X2<%s>' % own), 'b.ext_with(|| x)', {'other': ('both', 1)})
    e(tag + '_ext_interaction', ['b: ' + t, 'x: XNew'], mk('X2<XInter>', own), 'b.ext_interaction(x)', {ip + 'other': ('both', 1)})
    e(tag + '_ext_interaction_with', ['b: ' + t, 'x: XNew'], mk('X2<XInter>', own), 'b.ext_interaction_with(|| x)', {ip + 'other': ('both', 1)})
    e(tag + '_form', ['b: ' + t, 'f: ' + FB], t, 'BuildableInteractionAffordance::form(b, |_| f)', {ip + 'forms': push(1)})
    e(tag + '_form_fresh', ['b: ' + t, 'h: String'], t, 'BuildableInteractionAffordance::form(b, |x| x.href(h))', {ip + 'forms': pushp(FRESHFORM)})
    e(tag + '_uri_variable', ['b: ' + t, 'k: String', 'u: ' + U], t, 'BuildableInteractionAffordance::uri_variable(b, k, |_| u)', {ip + 'uri_variables': ins(1, 2)})
    e(tag + '_uri_variable_fresh', ['b: ' + t, 'k: String'], t, 'BuildableInteractionAffordance::uri_variable(b, k, |d| d.finish_extend().string())', {ip + 'uri_variables': ('insp', 1, FRESHSTR)})
e('pa_ext_schema', ['b: ' + PA(P0), 'x: XNew'], PA(P0.replace('XData', 'X2<XData>', 1)), 'b.ext_data_schema(x)', {'data_schema.other': ('both', 1), 'data_schema.one_of': DEFAULT})
e('pa_ext_schema_with', ['b: ' + PA(P0), 'x: XNew'], PA(P0.replace('XData', 'X2<XData>', 1)), 'b.ext_data_schema_with(|| x)', {'data_schema.other': ('both', 1), 'data_schema.one_of': DEFAULT})
e('pa_finish', ['b: ' + PA(P0)], PA(P), 'b.finish_extend_data_schema()', {})
e('pa_d_ext_schema', ['b: ' + PA(D0), 'x: XNew'], PA(D0.replace('XData', 'X2<XData>', 1)), 'b.ext_data_schema(x)', {'data_schema.partial.other': ('both', 1), 'data_schema.partial.one_of': DEFAULT})
e('pa_d_finish', ['b: ' + PA(D0)], PA(D), 'b.finish_extend_data_schema()', {})
SPA = 'SpecializableDataSchema::<%s>' % SO
SAMEPA = {f: val('0.' + f) for f in ('interaction', 'info', 'observable', 'other')}
for m, k, fr in (('bool', 'Stateless', {'inner': val('0.data_schema'), 'ty': ('somepath', 'Boolean', None)}), ('null', 'Stateless', {'inner': val('0.data_schema'), 'ty': ('somepath', 'Null', None)}),
                 ('number', 'Number', {'inner': val('0.data_schema'), '*': DEFAULT}), ('integer', 'Integer', {'inner': val('0.data_schema'), '*': DEFAULT}), ('string', 'String', {'inner': val('0.data_schema'), '*': DEFAULT}),
                 ('tuple', 'Tuple', {'inner': val('0.data_schema'), '*': DEFAULT}), ('vec', 'Vec', {'inner': val('0.data_schema'), '*': DEFAULT}), ('object', 'Object', {'inner': val('0.data_schema'), '*': DEFAULT})):
    e('pa_kind_' + m, ['b: ' + PA(P)], PA(K(k, P)), SPA + '::%s(b)' % m, dict(SAMEPA, data_schema=fr), base=None)
for m, k, x in (('tuple', 'Tuple', 'XArr'), ('vec', 'Vec', 'XArr'), ('object', 'Object', 'XObj')):
    e('pa_kind_%s_ext' % m, ['b: ' + PA(P), 'x: ' + x], PA(K(k, P)), SPA + '::%s_ext(b, |_| x)' % m, dict(SAMEPA, data_schema={'inner': val('0.data_schema'), 'other': eq(1), '*': DEFAULT}), base=None)
e('pa_kind_constant', ['b: ' + PA(P), 'x: Value'], PA('ReadOnly<%s>' % K('Stateless', P)), SPA + '::constant(b, x)', dict(SAMEPA, data_schema={'inner': {'inner': ('frame', '0.data_schema', {'constant': some(1)}), 'ty': NONE}}), base=None)
e('pa_enumeration', ['b: ' + PA(P), 'x: Value'], PA(K('Enum', P)), 'b.enumeration(x)', dict(SAMEPA, data_schema={'inner': ('frame', '0.data_schema', {'enumeration': push(1)})}), base=None)
e('pa_enum_enumeration', ['b: ' + PA(K('Enum', P)), 'x: Value'], PA(K('Enum', P)), 'b.enumeration(x)', {'data_schema.inner.enumeration': push(1)})
e('pa_one_of', ['b: ' + PA(P), 'x: ' + U], PA(K('OneOf', P)), 'b.one_of(|_| x)', dict(SAMEPA, data_schema={'inner': ('frame', '0.data_schema', {'one_of': push(1)})}), base=None)
e('pa_oneof_one_of', ['b: ' + PA(K('OneOf', P)), 'x: ' + U], PA(K('OneOf', P)), 'b.one_of(|_| x)', {'data_schema.inner.one_of': push(1)})
for w, m in (('ReadOnly', 'read_only'), ('WriteOnly', 'write_only')):
    e('pa_' + m, ['b: ' + PA(K('Number', P))], PA('%s<%s>' % (w, K('Number', P))), 'ReadableWriteableDataSchema::<%s, Extended>::%s(b)' % (SO, m), dict(SAMEPA, data_schema={'inner': ('frame', '0.data_schema', {'inner.' + m: TRUE})}), base=None)
e('pa_into_usable', ['b: ' + PA(K('Number', P))], PA(PD), 'b.into_usable()',
  dict(SAMEPA, data_schema=dict({f: val('0.data_schema.inner.' + f) for f in PART}, enumeration=('nonempty', '0.data_schema.inner.enumeration'), one_of=('nonempty', '0.data_schema.inner.one_of'), subtype=subtype('Number', '0.data_schema.'))), base=None)
e('aa_into_usable', ['b: ' + AA], AA, 'b.into_usable()', {})
e('ea_into_usable', ['b: ' + EA], EA, 'b.into_usable()', {})
for f in ('input', 'output'):
    e('aa_' + f, ['b: ' + AA, 'u: ' + U], AA, 'b.%s(|_| u)' % f, {f: some(1)})
    e('aa_%s_fresh' % f, ['b: ' + AA], AA, 'b.%s(|d| d.finish_extend().string())' % f, {f: somep(FRESHSTR)})
e('aa_safe', ['b: ' + AA], AA, 'b.safe()', {'safe': TRUE})
e('aa_idempotent', ['b: ' + AA], AA, 'b.idempotent()', {'idempotent': TRUE})
e('aa_synchronous', ['b: ' + AA, 'x: bool'], AA, 'b.synchronous(x)', {'synchronous': some(1)})
for f in ('subscription', 'data', 'cancellation', 'data_response'):
    e('ea_' + f, ['b: ' + EA, 'u: ' + U], EA, 'b.%s(|_| u)' % f, {f: some(1)})
    e('ea_%s_fresh' % f, ['b: ' + EA], EA, 'b.%s(|d| d.finish_extend().string())' % f, {f: somep(FRESHSTR)})
e('pa_default', [], PA(P), 'Default::default()', {}, base=None)
e('aa_default', [], AA, 'Default::default()', {}, base=None)

assert len({x.name for x in ENTRIES}) == len(ENTRIES), [x.name for x in ENTRIES if [y.name for y in ENTRIES].count(x.name) > 1]
