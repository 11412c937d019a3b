"""Writes properties.jsonl."""
import json
B, D, A, T, HL, EX, HR = 'src/builder.rs', 'src/builder/data_schema.rs', 'src/builder/affordance.rs', 'src/thing.rs', 'src/hlist.rs', 'src/extend.rs', 'src/builder/human_readable_info.rs'
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

ANY = 'every sequence of builder calls, with any arguments, at every nesting depth and in every combination of optional parts'
p('P01', 'Every security name used in a built Thing is defined in that Thing',
  'When building a Thing succeeds, every security scheme name listed by the Thing, by any of its forms, by any form of any property, action or event, and by any combination scheme ("combo") is a name present in the security definitions of the same Thing. A description that refers to an undefined security scheme is never produced.',
  ['inputs', 'histories'], ANY + '; any number of forms, affordances and schemes',
  'The tests build a handful of Things with one or two schemes; nothing relates all the places where a name can be used to the definitions for every description.',
  [B, A], [('security definitions collected and combo references checked', B + ': ThingBuilder::build'), ('form security checked', B + ': build_form_from_builder'), ('affordance forms checked', A + ': CheckableInteractionAffordanceBuilder::check_form'), ('required schemes pushed with their definition', B + ': ThingBuilder::security')],
  ['the value returned by ThingBuilder::build'], [('security_definitions', 'schemes defined so far, in call order', B)])
p('P02', 'Forms of a built Thing only list operations allowed where they are placed',
  'When building a Thing succeeds, every form placed directly in the Thing lists its operations explicitly and only Thing-level operations, and every form of a property, action or event that lists operations lists only operations meant for that kind of affordance.',
  ['inputs', 'histories'], ANY + '; all eighteen operations in all four places, at any position of the list and in any form',
  'The tests try some operations in single-form affordances; they do not cover every operation, place, position and combination.',
  [B, A], [('operations of Thing forms', B + ': build_form_from_builder'), ('operations of affordance forms', A + ': check_form'), ('allowed operations of each kind', B + ': ThingBuilder::build')],
  ['the value returned by ThingBuilder::build'])
p('P03', 'Schema names used by additional responses are defined in the built Thing',
  'When building a Thing succeeds, every additional response of every form, at Thing level or in any property, action or event, that names a data schema names one present in the schema definitions of that Thing.',
  ['inputs', 'histories'], ANY + '; any number of additional responses in any form',
  'The tests cover one form at Thing level; a check that skips a place, a later form or a later response passes them.',
  [B, A], [('check of Thing forms', B + ': build_form_from_builder'), ('check of affordance forms', A + ': check_form')], ['the value returned by ThingBuilder::build'])
p('P04', 'A built Thing never contains unsatisfiable or undefined numeric limits',
  'When building a Thing succeeds, no data schema anywhere in it, at any nesting depth (items of arrays, members of objects, alternatives, URI variables, schema definitions, every schema of every affordance), has a minimum above its maximum (or equal to it when either bound is exclusive), a limit that is not a number, a multiple-of that is zero, negative or not a number, or an array minimum length above its maximum length.',
  ['inputs', 'histories'], ANY + '; schemas nested to any depth, any float including NaN, infinities and signed zero, any 64-bit integer',
  'The tests try a few flat and one nested schema per kind of limit; the guarantee is over an unbounded tree and all floating-point values.',
  [B, D, A, T], [('recursive check of a schema', D + ': CheckableDataSchema'), ('checks triggered for each place', B + ': ThingBuilder::build, try_build_affordance'), ('order of limits', T + ': PartialOrd between Minimum and Maximum')], ['the value returned by ThingBuilder::build'])
p('P05', 'URI variables of a built Thing are never arrays or objects',
  'When building a Thing succeeds, no URI variable of the Thing and no URI variable of any property, action or event has an array or object data schema.',
  ['inputs', 'histories'], ANY + '; any number of variables',
  'The tests try single variables at Thing level and in one affordance of each kind.', [B, A, D],
  [('container test', D + ': uri_variables_contains_arrays_objects'), ('Thing level', B + ': ThingBuilder::build'), ('affordance level', A + ': CheckableInteractionAffordanceBuilder::check')], ['the value returned by ThingBuilder::build'])
p('P06', 'Names of affordances and security definitions are never silently merged',
  'When building a Thing succeeds, no two properties, no two actions, no two events and no two security definitions were given the same name; a repeated name always makes building fail instead of dropping or replacing one of the definitions.',
  ['inputs', 'histories'], ANY + '; any number of definitions with any names, in any order',
  'The tests repeat a name once, with two adjacent definitions; any distance and any number of definitions must be covered.', [B],
  [('duplicate affordances', B + ': try_build_affordance'), ('duplicate security definitions', B + ': ThingBuilder::build')], ['the value returned by ThingBuilder::build'])
p('P07', 'Language tags in a built Thing are always well formed',
  'When building a Thing succeeds, every language key given for a translated title or description, of the Thing, of an affordance, of a security scheme or of a data schema at any depth, and every language given for a link, was a well-formed BCP 47 tag; a malformed tag anywhere makes building fail. The same holds of a data schema made from its builder directly.',
  ['inputs', 'histories'], ANY + '; arbitrary strings as language tags in every place that takes them',
  'The tests give one malformed tag in some of the places; the places inside nested schemas and the combination of many tags are not covered.', [B, A, D, HR],
  [('translation of language maps', B + ': MultiLanguageBuilder::build'), ('links', B + ': TryFrom<UncheckedLink>'), ('schemas', D + ': TryFrom<UncheckedDataSchema>')], ['the value returned by ThingBuilder::build'])
p('P08', 'A link of a built Thing declares sizes only when it is an icon',
  'When building a Thing succeeds, every link that declares sizes has exactly the relation type "icon".',
  ['inputs', 'histories'], ANY + '; any number of links, any relation string',
  'The tests try one link with and one without the icon relation.', [B], [('check of a link', B + ': TryFrom<UncheckedLink> for Link')], ['the value returned by ThingBuilder::build'])
p('P09', 'Building loses, changes and invents nothing',
  'When building a Thing succeeds, the Thing contains exactly what the builder held: every field, list (in order), map entry, form, link, security definition, extension value and data schema at every depth is carried over unchanged, absent parts stay absent, and nothing else appears. A single context is written as a string and several as an array in the order given. A data schema made from its builder directly contains likewise exactly what the builder held.',
  ['inputs', 'histories'], ANY, 'The tests compare a few built Things with expected values; swapping two fields of equal type, or losing an optional part in a rarely used place, is invisible to them.',
  [B, D, A], [('moving the builder into the Thing', B + ': ThingBuilder::build'), ('affordances', A + ': BuildableAffordance::build'), ('schemas', D + ': TryFrom<UncheckedDataSchema>, TryFrom<UncheckedArraySchema>, TryFrom<UncheckedObjectSchema>')], ['the value returned by ThingBuilder::build'])
p('P10', 'Each builder call changes exactly the part it names',
  'Every call of a builder method sets, appends or inserts exactly the part of the description it is named after with exactly the value given, and leaves everything set by earlier calls, of whatever kind and in whatever order, as it was. In particular extending a builder, finishing extension, choosing the kind of a data schema and converting between builder states keep what was set before.',
  ['inputs', 'histories', 'programs'], 'every builder state, every argument and every order of calls, for the builders of Things, links, forms, responses, security schemes, affordances, data schemas and language maps',
  'The tests call each method in one order on fresh builders; a method that drops or overwrites an earlier part in another state passes them.', [B, A, D, HR],
  [('setters of the Thing builder', B + ': impl ThingBuilder'), ('forms, links, security', B), ('affordances', A), ('schema builders and conversions', D), ('titles and descriptions', HR)], ['the builder returned by each method, through the Thing finally built'])
p('P11', 'A building error reports a violation that is really there',
  'When building a Thing fails, the error describes a rule the description really breaks: the kind of error matches a violation present in it, and any name, operation, place or tag the error carries identifies an offending part. A description that breaks no rule always builds.',
  ['inputs', 'histories'], ANY, 'The tests check single-violation examples; an error raised for legal input, or naming the wrong part, needs inputs they do not contain.', [B, A, D],
  [('every error exit of building', B + ', ' + A + ', ' + D)], ['the error returned by ThingBuilder::build'])
p('P12', 'Building a Thing never panics',
  'Whatever sequence of builder calls is made and whatever values are given, building returns a Thing or an error and never panics.',
  ['inputs', 'histories'], ANY, 'Absence of panics over all call sequences cannot be sampled.', [B, A, D],
  [('unwrap of the single context', B + ': ThingBuilder::build'), ('context invariant', B + ': ThingBuilder::new, context, context_map')], ['the call of ThingBuilder::build'])
p('P13', 'Comparing numeric limits is a consistent order that respects the numbers',
  'Comparisons of limits, also between a minimum and a maximum, agree with equality. Those among minimum limits and among maximum limits are antisymmetric and transitive, and limits with different numbers are ordered like their numbers or not at all. Comparing in the opposite direction gives the reversed answer, also between a minimum and a maximum; a minimum is reported below a maximum only when its number is smaller. Limits that are not numbers are equal to nothing and never ordered.',
  ['inputs'], 'all inclusive and exclusive limits over all integers and all floating-point values including NaN, infinities and signed zero',
  'The tests compare a dozen pairs of small integers.', [T], [('orders and equalities of limits', T + ': PartialOrd and PartialEq of Minimum and Maximum'), ('NaN test', T + ': is_nan')], ['results of the comparison operators'])
p('P14', 'Extension lists keep every element, in order, and can be taken apart again',
  'Adding an element to an extension list keeps all others; splitting the head or the last element off, reversing, and borrowing a list give exactly the elements that were put in, each once, in the documented order, and reversing twice gives the list back. Extending an extension value keeps the value already there.',
  ['inputs', 'programs'], 'lists of every length and element types, all values',
  'The tests use lists of three elements.', [HL, EX], [('list operations', HL), ('extension of lists', EX)], ['the values returned by the list operations'])
p('P15', 'Descriptions are written with the standard names, and absent parts are omitted',
  'Serializing any description writes every present part under the name the W3C Thing Description standard (or the binding vocabulary) gives it, writes its value unchanged, writes nothing for an absent part, and never writes two entries with the same name for parts the library itself defines.',
  ['inputs', 'configurations'], 'every Thing and every part of one, with every combination of present and absent fields and any values; every extension set',
  'The tests serialize a few examples in which most optional parts are absent.', [T, 'src/protocol/coap.rs', 'src/protocol/http.rs', 'src/protocol/mqtt.rs'],
  [('names and omission rules', T + ': Serialize impls'), ('flattening of affordances', T + ': PropertyAffordance::serialize')], ['the JSON written for a Thing'])
p('P16', 'Writing a description and reading it back gives the same description',
  'Any description, serialized to JSON and deserialized again, gives a description equal to the original, including every extension value, every optional part and every nested schema, null constants included. (Numbers are ones that the JSON library itself reads back exactly, so finite. A property affordance has one set of human-readable texts in JSON, so its two copies of them are taken to agree. The data of a custom security scheme is absent or a non-empty object, and neither its name nor its members are those of the standard schemes.)',
  ['inputs', 'configurations'], 'every Thing and every part of one, any strings, any extension set',
  'The tests round-trip a few examples; combinations of flattened parts, optional parts and enumerations interact.', [T, HL, 'src/protocol/coap.rs', 'src/protocol/http.rs', 'src/protocol/mqtt.rs'],
  [('serialize and deserialize of every type', T)], ['the Thing read back from JSON'])
p('P17', 'Operation names are the standard ones, consistently in every direction',
  'Each of the eighteen form operations is written in JSON, read from JSON and displayed under the same lower-case standard name, different operations have different names, and no other name is accepted.',
  ['inputs'], 'all operations, all strings', 'The tests touch some operations in one direction.', [T], [('names', T + ': FormOperation'), ('display', T + ': Display for FormOperation')], ['JSON and text forms of an operation'])
p('P18', 'Omitted parts are read as the defaults of the standard',
  'Reading a description in which optional parts are omitted gives exactly the defaults of the standard: the 1.1 context for a missing context, false for the flags of actions, schemas and responses, default operations for a form without operations, the standard locations, algorithm, format and quality of protection for security schemes, and absence for everything else.',
  ['inputs', 'configurations'], 'every combination of omitted parts', 'The tests omit a few fixed parts.', [T], [('defaults', T + ': serde default attributes and Default impls')], ['the Thing read from JSON'])
p('P19', 'Equality, copies and defaults of descriptions agree with their content',
  'Two descriptions (or parts of one) compare equal exactly when all their fields are equal, a copy equals its original in every field, and a default description has every optional part absent, every list and map empty and every flag false.',
  ['inputs'], 'all pairs of values of every description type', 'The hand-written comparisons are exercised with values differing in one or two fields at most.', [T],
  [('hand-written PartialEq, Clone and Default', T)], ['results of ==, clone and default'])
p('P20', 'One value and a list of one are read alike, and the short form is written',
  'Wherever the standard allows a single value or a list (semantic types, security, profile, language of a link and the other such places), a single value reads as a list of one, a list of any length reads as that list in order, and a list of one is written as the single value while any other list is written as a list. (The operations of a form are read the same way, but always written as a list.)',
  ['inputs'], 'lists of every length, any strings, every such place', 'The tests read one or two examples in some of the places.', [T], [('one-or-many adapters', T + ': OneOrMany attributes')], ['JSON read and written'])
p('P21', 'Protocol bindings write and read exactly the vocabulary of their protocol',
  'The CoAP, HTTP and MQTT parts of forms and responses write every method, option, header and level under the exact name and value of the binding vocabulary, read back exactly what they wrote, omit what is absent, and reject values outside the vocabulary.',
  ['inputs'], 'all values of all binding types, all JSON inputs for their enumerations', 'The tests read one example of each form.', ['src/protocol/coap.rs', 'src/protocol/http.rs', 'src/protocol/mqtt.rs'],
  [('binding types', 'src/protocol/coap.rs, src/protocol/http.rs, src/protocol/mqtt.rs')], ['JSON of the binding parts of a form'])
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
