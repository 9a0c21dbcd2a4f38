#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

S, B, N, PR, ST, TY = ('oblate/schema.py', 'oblate/fields/base.py', 'oblate/fields/nesting.py',
                       'oblate/fields/primitive.py', 'oblate/fields/structs.py', 'oblate/fields/typings.py')
TV, V, E, X, C, U = ('oblate/type_validation.py', 'oblate/validate.py', 'oblate/exceptions.py',
                     'oblate/contexts.py', 'oblate/configs.py', 'oblate/utils.py')

prop('C01', 'Construction accepts exactly the valid data',
     'For every schema and every raw mapping, construction succeeds exactly when each key names a field (unless extra keys are ignored), every required field is present, None is given only where it is allowed, and every given value can be deserialized by its field and passes all its validators; otherwise it raises a ValidationError, and data that is not a mapping raises TypeError. '
     'After success each given field reads back as its deserialized value and each omitted field as its default (or is unset). The input mapping is never modified, and neither the order of its keys nor the kind of mapping changes the outcome.',
     ['inputs', 'configurations'], 'all field declarations (kind, none, required, default, validators) x all raw mappings (each field absent / valid / invalid / None, unknown keys, key orders, mapping kinds)',
     'The tests construct a few dozen fixed dictionaries; the claim is over the product of declarations and inputs.',
     [S, B, PR], [('field loading loop', 'oblate/schema.py:_prepare_from_data'), ('value processing', 'oblate/schema.py:_process_field_value')],
     [('field values', 'the deserialized value of each set field', 'oblate/schema.py:Schema')], ['Schema(data)', 'attribute reads', 'ValidationError'])

prop('C02', 'A ValidationError reports every failure at once and nothing else',
     'Whenever construction, update, assignment or dump fails validation, the single ValidationError raised contains exactly one entry for every unknown key, missing required field, disallowed None, value that could not be (de)serialized and validator that failed, across all fields involved. '
     'It contains no entry for anything that did not fail, no failure hides another one, and the number of failures is not bounded.',
     ['inputs', 'configurations'], 'all combinations of failure kinds over up to six fields with up to four validators each, for the four operations',
     'Tests look at one or two failing fields with a substring match; nothing checks completeness or absence of spurious entries.',
     [S, B, E], [('error accumulation', 'oblate/schema.py:_prepare_from_data'), ('validator runner', 'oblate/fields/base.py:_run_validators'), ('sequence flattening', 'oblate/exceptions.py:_flatten_errors')],
     [], ['ValidationError.errors', 'ValidationError.raw()'])

prop('C03', 'Errors are attributed to the right key, field, schema and context',
     'Every reported field error names the key in the raw data, the field declared for that key (or no field for an unknown key), the schema instance being operated on and the context of the value being processed; the enclosing ValidationError names the same instance. '
     'This holds whatever operations succeeded or failed earlier in the same thread, and whatever other schema operations user callbacks perform while the value is being processed; an error about a key for which no value is being processed at top level carries no context.',
     ['histories', 'inputs', 'programs'], 'all preceding operation sequences up to a depth x all failing operations, and all (callback site, nested operation, way of failing) combinations',
     'Attribution travels through ambient per-thread state that tests never examine after another operation; one test in the suite only passes because an earlier test leaks that state.',
     [S, B, E, U, N], [('ambient current schema / key / context', 'oblate/utils.py'), ('set and reset around processing', 'oblate/schema.py, oblate/fields/base.py'), ('capture at error creation', 'oblate/exceptions.py:FieldError')],
     [('ambient attribution', 'schema, key and context an error is attributed to', 'oblate/utils.py')], ['FieldError.key', 'FieldError.field', 'FieldError.schema', 'FieldError.context', 'ValidationError.schema'])

prop('C04', 'A failed update changes nothing; a successful one exactly the given fields',
     'If updating an instance raises anything at all - a validation failure, a frozen-field error part-way through the data, or an exception escaping user code - every field of the instance, including unset ones, is exactly as before the call. '
     'If it succeeds, every given field has its newly deserialized value and all other fields are unchanged, from any prior state of the instance.',
     ['inputs', 'histories', 'fault_sequences'], 'all update mappings over up to four fields (each valid / invalid / None / unknown / frozen / crashing, in every order) from all states reachable by short operation histories',
     'One test updates one schema once with a mixed mapping, and asserts inside an except block that may never run.',
     [S], [('snapshot and rollback', 'oblate/schema.py:update')], [('field values', 'state restored on failure', 'oblate/schema.py:Schema')], ['Schema.update', 'attribute reads', 'dump'])

prop('C05', 'Assignment validates, and a failed assignment leaves the instance unchanged',
     'Assigning a field attribute either stores the deserialized value of that field and changes nothing else, or raises and leaves every field of the instance exactly as it was. '
     'It raises a ValidationError whenever the value is a disallowed None, cannot be deserialized, or fails any validator, raw or not.',
     ['inputs', 'histories', 'fault_sequences'], 'all field declarations x raw values x validator outcomes, from all states reachable by short histories',
     'Two assignments in the suite; failure followed by a read of the old value is never checked.',
     [B, S], [('descriptor set', 'oblate/fields/base.py:__set__'), ('value processing', 'oblate/schema.py:_process_field_value')], [], ['attribute assignment', 'attribute reads'])

prop('C06', 'Construction, update and assignment agree on every value',
     'For every field and raw value, giving the value at construction, through update, or by assignment has the same result: the same acceptance, the same stored value, and the same set of validation failures. '
     'The result does not depend on whether the field was previously set, unset or None.',
     ['inputs', 'configurations', 'histories'], 'all field declarations x all raw values x the three entry points x prior state of the field',
     'The three entry points use two separate validation paths (lazy and immediate) that tests never compare.',
     [S, B], [('lazy validation path', 'oblate/schema.py:_prepare_from_data'), ('immediate validation path', 'oblate/schema.py:_process_field_value')], [], ['Schema(data)', 'Schema.update', 'attribute assignment'])

prop('C07', 'Frozen schemas and fields never change after construction',
     'Once an instance is constructed, no sequence of assignments, updates or copies, successful or failed, ever changes the value of a frozen field or of any field of a frozen schema, including fields that inherit or copy their frozenness, and including setting a frozen field that was left unset. '
     'Each such attempt raises FrozenError identifying the frozen field, or the instance of the frozen schema, whatever the value, and non-frozen fields stay updatable.',
     ['histories', 'inputs', 'configurations'], 'all operation sequences up to a depth over an instance and its copies, for frozen-field and frozen-schema declarations, inherited or direct',
     'Tests attempt one update and one assignment on one value.',
     [S, B, E], [('freeze checks', 'oblate/schema.py:update, oblate/fields/base.py:__set__')], [], ['FrozenError.entity', 'attribute reads', 'dump'])

prop('C08', 'Dump returns exactly the selected set fields and has no side effects',
     'Dumping returns a new dictionary with exactly one entry, under the dump key, for every field that has a value and is selected by include or exclude (all fields by default; unknown names are ignored; giving both raises TypeError), each being what the field serializes its current value to. '
     'Each selected field is serialized exactly once, with a dump context naming the field, instance, value and selected set. Dumping never changes the instance, and any serialization failure raises a ValidationError covering all failing fields.',
     ['inputs', 'configurations', 'histories'], 'all set/unset/None states of up to five fields x all include/exclude subsets (with unknown names) x serialization outcomes',
     'Tests dump one all-strings schema with two selections.',
     [S, N], [('field selection and dump loop', 'oblate/schema.py:dump')], [], ['Schema.dump', 'DumpContext'])

prop('C09', 'Dumped data loads back to an equal instance',
     'For every schema built from the provided fields, with the same key for loading and dumping and defaults that the fields themselves accept, constructing from the dump of an instance succeeds and gives an instance whose set fields, nested instances included, equal those of the original, and whose dump is identical. '
     'This also holds after updates and assignments.',
     ['inputs', 'configurations', 'histories'], 'all value combinations over the provided field kinds, nesting up to three levels, optional/none/default states',
     'No test loads dumped data.',
     [S, B, PR, N, ST, TY], [('value_load / value_dump pairs', 'oblate/fields/*.py')], [], ['Schema.dump', 'Schema(data)'])

prop('C10', 'A copy equals its original and is independent of it',
     'Copying an instance gives an instance of the same class with the same field values and set/unset fields, and its own context with a copy of the state. '
     'After that, no sequence of assignments, updates (successful or failed), state replacements or top-level state changes on either one, or on copies of copies, affects the other.',
     ['histories'], 'all operation sequences up to a depth over an original and up to two copies',
     'One test performs two assignments after one copy.',
     [S, X], [('value dictionary copy', 'oblate/schema.py:copy'), ('context copy', 'oblate/contexts.py:_copy')], [('field values', 'per-instance values', 'oblate/schema.py'), ('context state', 'per-instance user state', 'oblate/contexts.py')], ['Schema.copy', 'Schema.context'])

prop('C11', 'Instances are isolated and results do not depend on history',
     'An operation on one instance never changes any other instance, of the same schema class, of a related class, or of a class declaring the same field names. '
     'The outcome of constructing from given data is the same whatever operations, successful or failed, on whatever schemas, ran before it.',
     ['histories', 'inputs'], 'all operation sequences up to a depth over several instances of several schema classes',
     'Field objects, load tables and defaults are shared by all instances of a class; tests use one instance at a time.',
     [S, B, N], [('values stored per instance, fields shared per class', 'oblate/schema.py, oblate/fields/base.py')], [], ['attribute reads', 'dump', 'Schema(data)'])

prop('C12', 'Concurrent operations on distinct instances do not interfere',
     'When threads concurrently construct, read, update, assign, copy or dump different instances, of the same or related schemas with shared fields and validators, every operation gives exactly the result, and reports exactly the errors with the same attribution, that it gives when run alone. '
     'This holds for every interleaving of the threads.',
     ['schedules', 'inputs'], 'all interleavings at source-line granularity up to a preemption bound, for all pairs of operations',
     'Tests are single-threaded.',
     [S, B, E, U, N, TV], [('context-local attribution', 'oblate/utils.py'), ('no per-operation state on shared fields', 'oblate/fields/*.py')], [('ambient attribution', 'context-local', 'oblate/utils.py')], ['all operations from two or three threads'])

prop('C13', 'Exceptions escaping user code propagate unchanged and leave no residue',
     'An exception other than ValueError, AssertionError or FieldError raised by user code at any call (custom fields, validators, default callables, hooks, error formatters) propagates unchanged out of the operation, and an existing instance being updated, assigned or dumped keeps its previous field values. '
     'Every later operation in the same thread behaves exactly as if the failed one had never been attempted.',
     ['fault_sequences', 'inputs'], 'every user-code call of every operation as the fault point x exception kinds, then all follow-up operations',
     'No test raises a non-validation exception from user code.',
     [S, B, N, U], [('try/finally around ambient state', 'oblate/schema.py, oblate/fields/base.py'), ('rollback', 'oblate/schema.py:update')], [], ['exception identity', 'attribute reads', 'attribution of later errors'])

prop('C14', 'Nested schemas behave as the nested schema used on its own, at any depth',
     'A field holding a nested schema accepts a mapping exactly when the nested schema accepts it with the configured keyword arguments, yielding an equal instance; it keeps an instance of that schema as is, and rejects anything else. '
     'When nested data is invalid the error for the parent key contains the complete error structure the nested schema reports on its own, alongside all other errors of the parent, at every nesting depth. Dumping dumps nested instances recursively, keeps None where allowed, and reports nested serialization failures under the parent key.',
     ['inputs', 'configurations'], 'all combinations of valid / invalid / missing / None / instance / foreign values at three nesting levels, for load, update, assign and dump',
     'Tests nest one level with three inputs and never dump None or failing nested values.',
     [N, S, E], [('nested construction and error wrapping', 'oblate/fields/nesting.py')], [], ['Schema(data)', 'ValidationError.raw()', 'dump'])

prop('C15', 'Type expressions accept exactly their values',
     'A type expression built from plain classes, Any, None, Union, Optional, Literal, List, Set, Tuple (fixed and variable length), Dict, Mapping, Sequence (lists, tuples and sets), TypedDict and their builtin spellings accepts a value exactly when the value belongs to the type, checking containers for kind, length and every element, with plain classes checked by isinstance. '
     'Every rejection yields at least one error message, validation never raises anything else or modifies the value, and the type-expression, literal, union, list, set and dictionary fields accept exactly the same values, also when a custom field passes a modified value on to them.',
     ['inputs', 'programs'], 'all type expressions up to nesting depth two (three in thorough runs) x all values up to the same depth',
     'Tests sample about thirty (type, value) pairs, almost all of depth one.',
     [TV, ST, TY], [('recursive dispatch on type origin', 'oblate/type_validation.py:TypeValidator')], [], ['validate_types', 'fields.TypeExpr', 'fields.List', 'fields.Set', 'fields.Dict', 'fields.Union', 'fields.Literal'])

prop('C16', 'Typed dictionaries: key requiredness and value types are both enforced',
     'A dictionary is accepted for a TypedDict exactly when it has no undeclared key, contains every required key, and every present value belongs to the declared type of its key. '
     'Whether a key is required follows its Required or NotRequired marker, or else the totality of the class that declares it, whatever the type of the key, with inheritance between total and non-total classes, and with annotations written as strings.',
     ['inputs', 'programs'], 'all typed dictionaries with up to three keys (marker x totality x value type x inheritance) x all dictionaries over valid / invalid / absent / undeclared keys',
     'Tests use four typed dictionaries, with plain value types, and never give a wrong value to a marked key.',
     [TV, ST], [('typed dict handler', 'oblate/type_validation.py:_handle_type_typed_dict'), ('marker unwrapping', 'oblate/type_validation.py:_handle_origin_required')], [], ['fields.TypedDict', 'validate_types'])

prop('C17', 'Type validation of a mapping reports exactly the offending keys',
     'Validating a mapping of values against a mapping of types raises TypeValidationError exactly when some value does not belong to its type, some value key is undeclared (unless extras are ignored) or some declared key is missing (unless missing keys are ignored). '
     'Its errors name exactly those keys, each with at least one message, and neither mapping is modified, so repeating the call gives the same result.',
     ['inputs', 'configurations'], 'all type mappings with up to three keys x all value mappings (absent / valid / invalid per key, extra keys) x flag settings x mapping kinds',
     'Two tests of one key each for the flags; none combines several problems.',
     [TV], [('key bookkeeping', 'oblate/type_validation.py:validate_types')], [], ['validate_types', 'TypeValidationError.errors'])

prop('C18', 'Built-in validators accept exactly their documented sets',
     'Range accepts exactly the integers between its inclusive bounds (from zero when one bound is given; exactly the members when made from a standard range, steps included); Length exactly the sized values within its inclusive limits; Exclude exactly the values equal to none of the listed ones. '
     'Regex accepts exactly the strings its pattern matches in the chosen mode and flags; Or accepts exactly the values at least one of its validators accepts, trying them in order and letting unrelated exceptions through. A rejected value is reported as a validation failure with a non-empty message, and validators keep no state between values.',
     ['inputs', 'configurations'], 'all small bounds, lengths, patterns, modes and validator combinations x all small values, repeated on the same validator object',
     'Tests sample about five values per validator.',
     [V], [('validator classes', 'oblate/validate.py')], [], ['validate.Range', 'validate.Length', 'validate.Regex', 'validate.Exclude', 'validate.Or'])

prop('C19', 'Every validator runs once, on the right value, at the right time',
     'For every value given to a field, each raw validator runs exactly once on the raw value (None included), and each other validator runs exactly once on the deserialized value if deserialization succeeded and not at all otherwise or for None, in registration order, with no validator skipped because another failed. '
     'During construction they all run only after every given field and default has been loaded. All of them and the field itself receive one and the same load context for that value, whose state is fresh per value and whose field, schema and raw value are right.',
     ['inputs', 'configurations', 'fault_sequences'], 'all placements and outcomes of up to three validators (raw or not, function, class or decorator style) on up to three fields, for construction, update and assignment',
     'Tests check only that one validator can reject a value.',
     [S, B, V], [('deferred validator list', 'oblate/schema.py:_prepare_from_data'), ('validator runner', 'oblate/fields/base.py:_run_validators')], [], ['recorded validator calls', 'LoadContext'])

prop('C20', 'The validator registry reflects exactly the registrations made',
     'After any sequence of adding, removing and clearing validators of a field, walking the field yields exactly the currently registered validators, in registration order and with the requested rawness, and exactly those run when values are loaded. '
     'A validator class fixes its own rawness; removing an unregistered validator does nothing, and removing or clearing one kind never touches the other.',
     ['histories'], 'all sequences of registry operations up to a depth over function and class validators, raw and not, with duplicates',
     'One test performs one fixed sequence.',
     [B, V], [('validator lists', 'oblate/fields/base.py:add_validator, remove_validator, clear_validators, walk_validators')], [('validator lists', 'registered validators by rawness', 'oblate/fields/base.py')], ['walk_validators', 'recorded validator calls'])

prop('C21', 'Subclasses inherit and override fields like attributes; parents stay untouched',
     'A schema class has exactly the fields that ordinary Python attribute lookup finds on it, through any chain or diamond of schema bases, an overriding field fully replacing the overridden one together with its key, options and validators. '
     'Validators declared in a subclass for a parent field, by name, apply to instances of that subclass and its descendants only. Declaring a subclass never changes what its parents or siblings accept, store or dump.',
     ['programs', 'inputs'], 'all inheritance shapes of up to four classes with up to two bases x all declarations and overrides of two field names x inputs',
     'One test uses a three-class chain without overrides.',
     [S, B], [('field table construction', 'oblate/schema.py:__init_subclass__')], [('field tables', 'fields by name and by load key', 'oblate/schema.py')], ['Schema(data)', 'attribute reads', 'dump'])

prop('C22', 'A field belongs to one schema attribute; copies are equivalent and independent',
     'Using one field object for a second attribute or schema is always rejected, leaving the first use working. '
     'A copy of a field, bound or not, has all of its options and validators, can be used in another schema under any name, and from then on no validator change on either one affects the other.',
     ['histories', 'programs', 'configurations'], 'all sequences of bind, copy and validator operations up to a depth, for all field kinds and option combinations',
     'One test copies one integer field and never looks at its validators or options.',
     [B], [('binding check', 'oblate/fields/base.py:_bind'), ('copy', 'oblate/fields/base.py:copy')], [], ['Field.copy', 'schema class creation', 'walk_validators'])

prop('C23', 'Load keys are used on input, dump keys on output, names on attributes',
     'For every assignment of load, dump and data keys to fields, including keys that equal the names or keys of other fields, construction, update and error reports use each field\'s load key, dump output uses its dump key, and attributes and include/exclude use its name; a data key sets both and a missing one defaults to the name. '
     'Looking up a value by name or by load key returns that field\'s value, names taking precedence, and an unknown name raises RuntimeError.',
     ['configurations', 'inputs'], 'all assignments of keys from a small alphabet (own name, the other names, fresh keys) to three fields x operations',
     'One test gives one field one data key.',
     [B, S], [('key resolution', 'oblate/fields/base.py:load_key, dump_key'), ('lookup', 'oblate/schema.py:_get_field')], [], ['Schema(data)', 'Schema.update', 'dump', 'get_value_for', 'FieldError.key'])

prop('C24', 'Omitted fields take their default, or are unset and raise FieldNotSet',
     'A field omitted at construction is reported as required if it has no default and is not optional; otherwise it takes its default, any value including None and falsy ones, or the result of calling a callable default once with the schema context and the field; a given value, even None, always wins. '
     'A field without a value raises FieldNotSet (also an AttributeError) naming the field, the instance and the name used, yields the fallback given to a lookup, is omitted from dumps, and can be set later; defaults are never applied again by later operations.',
     ['configurations', 'inputs', 'histories'], 'all required/default/none settings x default values and callables x given/omitted/None x later operation histories',
     'Tests use three optional fields with one data set.',
     [S, B, E], [('default application', 'oblate/schema.py:_prepare_from_data'), ('lookup', 'oblate/schema.py:get_value_for')], [], ['attribute reads', 'get_value_for', 'FieldNotSet'])

prop('C25', 'Errors render completely, in raw and text form, with their state',
     'The raw form of a ValidationError maps each failing key to the list of its messages as strings, in order, nested errors as nested mappings; a sequence message counts as one error per element, each keeping key, schema, context and attached state. '
     'The text form shows the number of failing fields and the schema, and each key and message once under its parent with deeper indentation. Both are available for messages of any type, mappings included, and rendering never fails or changes the error.',
     ['inputs'], 'all error trees up to depth three with up to three keys and messages of various types, produced by real schemas',
     'Tests read one flat raw error and match substrings.',
     [E], [('flattening', 'oblate/exceptions.py:_flatten_errors'), ('raw form', 'oblate/exceptions.py:_raw_std'), ('text form', 'oblate/exceptions.py:_make_message')], [], ['ValidationError.raw()', 'str(ValidationError)', 'FieldError.state'])

prop('C26', 'Error customisation is honoured everywhere',
     'Every library-detected failure of a field is passed once to its error formatter with the documented error code and a context giving the offending value (none for a missing field), field, schema and details; the returned text or error is what gets reported, and returning nothing falls back to a non-empty default message. '
     'A user ValueError or AssertionError is reported with its own message, or through the formatter as a failed validation if it has none. The globally configured ValidationError subclass, set on the global configuration or by replacing it, is what construction, update, assignment and dump raise from then on, and invalid classes are refused without effect.',
     ['inputs', 'configurations', 'histories'], 'all error codes of all fields x formatter answers x operations, and all sequences of global configuration changes up to a depth',
     'Tests override two codes of one field, and never observe which class is raised.',
     [B, E, C, PR, ST, TY, N], [('error formatting', 'oblate/fields/base.py:_call_format_error'), ('global options', 'oblate/configs.py')], [('global configuration', 'configured error class', 'oblate/configs.py')], ['Field.format_error', 'ErrorContext', 'oblate.config'])

prop('C27', 'Schema configuration is inherited, overridable and honoured',
     'A schema uses its own configuration class, else that of its nearest configured parent, else the defaults, and an explicit ignore-extra argument overrides it, both ways, for that construction or update only. '
     'Under that configuration unknown keys are rejected or silently dropped, extra attributes are refused unless the schema is unslotted or declares slots, and the generated representation shows class name and every set field unless disabled or the schema, or a parent, defines its own.',
     ['configurations', 'inputs'], 'all chains of up to three classes with any configuration at each level x explicit arguments x inputs',
     'Tests check each option on one class with one input.',
     [S, C], [('configuration lookup', 'oblate/schema.py:_SchemaMeta'), ('extra-key handling', 'oblate/schema.py')], [], ['Schema(data, ignore_extra=)', 'Schema.update', 'repr', 'attribute assignment'])

prop('C28', 'Hooks and contexts run once, in order, with the right phase',
     'Preprocessing is called exactly once per construction with the given data before anything else, what it returns is what is validated, and a non-mapping result raises TypeError; the post-initialisation hook is called exactly once, only when construction succeeds, after every field is readable. '
     'Load contexts report an update exactly when the instance was already constructed, the schema context reports initialised exactly from then on, and it exposes the instance, its configuration and the given state object. Update, assignment, copy and dump call neither hook.',
     ['inputs', 'histories', 'fault_sequences'], 'all constructions (valid / invalid, preprocessing results, nested) followed by all operation sequences up to a depth, with every hook call recorded',
     'Two tests, one per hook aspect; post-initialisation has none.',
     [S, X], [('hook calls', 'oblate/schema.py:_prepare_from_data'), ('phase', 'oblate/contexts.py:is_update')], [], ['recorded hook calls', 'LoadContext.is_update', 'SchemaContext'])

prop('C29', 'Primitive fields: strict means same type, non-strict means conversion',
     'A strict string, integer, float or boolean field accepts exactly instances of its type and returns them unchanged; a non-strict one also accepts exactly what the type\'s conversion accepts (for booleans: text form among the configured true or false values) and returns the converted value, any other value being reported as a validation failure. '
     'A custom field that passes a modified value on to the built-in deserialization gets the result for that modified value.',
     ['inputs', 'configurations'], 'all primitive fields x strictness x true/false value sets x an alphabet of values of every kind and boundary, at construction, update, assignment and through subclasses',
     'Tests check one accepted and one rejected value per field.',
     [PR], [('value processing', 'oblate/fields/primitive.py')], [], ['Schema(data)', 'attribute assignment', 'subclassed fields'])

prop('C30', 'Unsupported types are accepted with one warning, never an error',
     'A type expression, or a part of one, that the library does not support accepts every value, never raises, and does not weaken or strengthen the checking of the supported parts around it. '
     'Using it issues a single UserWarning per unsupported type for the whole process, and none while such warnings are disabled in the global configuration.',
     ['inputs', 'configurations', 'histories'], 'all unsupported kinds (unknown generics, type variables, new types, string references, type objects) at all positions of supported containers x values x warning settings x repeated use',
     'One test validates one unsupported type and ignores warnings.',
     [TV, C], [('unsupported fallback', 'oblate/type_validation.py:_warn_unsupported')], [('warned types', 'types already warned about', 'oblate/type_validation.py')], ['validate_types', 'warnings'])

prop('C31', 'Misuse is refused at once and has no effect',
     'Every misuse the library checks for raises an exception (never a validation failure) at the call or declaration that makes it, whatever the other arguments: reusing a bound field, nested or union or dict or validator declarations with missing, wrong or contradictory arguments, validators that are not callable or name no field, wrong global configuration values, data or preprocessing results that are no mappings, include together with exclude, looking up names that are no fields, error formatters returning something else than an error or text. '
     'A refused call or declaration, handled by the user, leaves everything that already exists (schemas, fields, validators, instances, global configuration) and any operation it happened in behaving exactly as if it had not been made.',
     ['inputs', 'configurations', 'histories'], 'about 430 misuses x repetition, sequences of misuses, and every misuse inside every callback of every operation, each followed by a comparison of everything observable with an undisturbed world',
     'The error branches of declarations are excluded from coverage in this repository and no test looks at what a refused call leaves behind.',
     [S, B, N, TY, ST, V, C], [('binding', 'oblate/fields/base.py:_bind'), ('validators by name', 'oblate/schema.py:__init_subclass__'), ('argument checks', 'oblate/validate.py, oblate/fields/*.py'), ('configuration setters', 'oblate/configs.py')], [],
     ['schema declarations', 'field and validator constructors', 'oblate.config', 'Schema(data)', 'update', 'dump', 'get_value_for'])

prop('C32', 'Type errors tell about every offending part',
     'When a value is rejected because of parts of a list, tuple, set, mapping or typed dictionary, the errors hold exactly one message for every wrong element, entry or key (and one more for a wrong number of items of a fixed tuple), however many and whether or not they are equal, in the order of the value; the message about an item names its index, about an entry its key (about a key its position), about a typed-dictionary key the key, and each tells what is wrong with the part. Other rejections have one message. '
     'The messages are the same on every call, beside other keys, and in the fields taking the type.',
     ['inputs', 'configurations'], 'all patterns of good and wrong elements up to a length x element types x kinds and spellings of containers, all typed dictionaries of a family, and long containers with many wrong elements',
     'Tests look at one wrong element in one or two containers.',
     [TV, TY, ST], [('messages of elements', 'oblate/type_validation.py:_handle_origin_*'), ('messages of typed dictionaries', 'oblate/type_validation.py:_handle_type_typed_dict'), ('details of field errors', 'oblate/fields/structs.py, oblate/fields/typings.py')], [],
     ['validate_types', 'TypeValidationError.errors', 'fields.TypeExpr', 'fields.List', 'fields.Set', 'fields.Dict', 'fields.TypedDict'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
