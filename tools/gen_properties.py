import json
S='oblate/schema.py'; B='oblate/fields/base.py'; X='oblate/exceptions.py'; C='oblate/contexts.py'; T='oblate/type_validation.py'
V='oblate/validate.py'; P='oblate/fields/primitive.py'; N='oblate/fields/nesting.py'; R='oblate/fields/structs.py'; Y='oblate/fields/typings.py'; G='oblate/configs.py'; U='oblate/utils.py'
props=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p('C01','Construction accepts exactly the valid data and sets exactly the right values',
 "Constructing a schema from any mapping succeeds if and only if every key is the load key of a field (or extra keys are being ignored), every required field is present, None is given only to fields that allow it, and every other value is accepted by its field (nested schemas included, to any depth) and by all of that field's validators. On success each supplied field holds the value its field deserialized, each omitted field that has a default holds that default (a callable default is called with the schema context and the field), and every other field has no value. Anything that is not a mapping is refused with TypeError.",
 ['inputs','programs','configurations'],'every schema definition (field kinds, options, keys, nesting, validators) and every input mapping',
 'The tests build about thirty fixed schemas with one or two inputs each; the interaction of key mapping, None, defaults, validators, extra keys and nesting is sampled at a handful of points.',
 [S,B,N,P,R,Y],[('field lookup by load key, required/default pass, deferred validators',S+': Schema._prepare_from_data'),('single value processing',S+': Schema._process_field_value'),('nested construction',N+': Object.value_load')],
 ['Schema(...) result or exception','attribute access / get_value_for of every field after construction'],[('field values','deserialized values by field name',S+': Schema._field_values'),('load map','load key to field',S+': Schema.__load_fields__')])

p('C02','A failed construction reports every failing key and nothing else',
 "When construction fails, the one ValidationError raised contains an entry for every independent failure in the data: each unknown key (unless ignored), each missing required field, each disallowed None, each value its field rejects, and each failing validator of each value. Its keys are exactly the failing keys of the input, and failures inside a nested schema appear as a nested report under the key of the nested field, at any depth. No entry exists for a key whose value is acceptable.",
 ['inputs','programs'],'every schema definition and every invalid input, with any number and combination of simultaneous failures',
 'Tests match one message of one failing input by regular expression; none checks the complete set of reported failures, multi-failure inputs or reports more than one level deep.',
 [S,X,N,B],[('errors collected, raised once at the end',S+': Schema._prepare_from_data'),('nested errors kept as a mapping',N+': Object.value_load'),('multi-message errors flattened',X+': ValidationError._flatten_errors')],
 ['ValidationError.raw()','ValidationError.errors'])

p('C03','Every reported error names the schema, field, key and context it came from',
 "For every FieldError in a ValidationError raised by construction, update, attribute assignment or dump, at any nesting depth: its schema is the instance being processed, its key is the load key of the erroneous value, its field is that schema's field for that key (None for an unknown key), and when it comes from a value being loaded, validated or dumped its context is the context of exactly that value; the ValidationError itself carries the schema the operation was called on. This holds even when user callbacks run further library operations, failing or not, on any schema before the error is raised.",
 ['inputs','programs','histories'],'every operation kind, nesting depth, key mapping, and every pattern of re-entrant library use inside loaders, dumpers and validators',
 'One test looks at key and field of construction errors of a flat schema; update, assignment, dump, renamed keys, nesting and re-entrant callbacks are never examined.',
 [X,U,S,B],[('ambient schema/key/context variables captured when an error is created',X+': FieldError.__init__'),('variables set and reset around each step',S+': Schema._prepare_from_data, update, dump; '+B+': Field.__set__')],
 ['FieldError.schema/.field/.key/.context of every error in ValidationError.errors','ValidationError.schema'],[('current_schema, current_field_key, current_context','what is being processed now',U)])

p('C04','A failed update or assignment leaves the schema unchanged',
 "If Schema.update or an attribute assignment raises for any reason (one or more invalid values, an unknown key, a frozen field, or an arbitrary exception raised by user code at any point), then afterwards every field of the schema has exactly the value, or absence of value, it had before, in whatever order the keys were given. The schema stays fully usable: later valid operations succeed as if the failed one had never been attempted.",
 ['inputs','histories','fault_sequences'],'every schema state, update mapping, key order, and failure kind at every callback position',
 'One test tries a single failing update of a flat all-string schema and accepts any exception path that leaves two values intact; frozen fields, foreign exceptions and partially applied updates are not tried.',
 [S,B],[('previous values saved and restored on failure',S+': Schema.update'),('value stored only after validation',S+': Schema._process_field_value')],
 ['all field values before and after the failing call'],[('field values','values by field name',S+': Schema._field_values')])

p('C05','Update and assignment validate like construction and touch only named fields',
 "For every field and value, update and attribute assignment accept the value if and only if construction would accept it for that field, store the same deserialized value, and report the same failures (all failing keys of the update, and for each value its loading failure and all its failing validators). A successful update or assignment changes exactly the named fields; all other fields keep their values or stay unset. Required fields and defaults play no part in an update.",
 ['inputs','histories'],'every schema, every current state, every update mapping or assigned value',
 'Tests update two string fields once; equivalence of the eager update path with the deferred construction path is never examined.',
 [S,B],[('eager versus deferred validator execution',S+': Schema._process_field_value'),('assignment',B+': Field.__set__'),('update loop',S+': Schema.update')],
 ['values and errors of the same field/value through construction, update and assignment'])

p('C06','Frozen schemas and frozen fields never change after construction',
 "Once constructed, a schema configured as frozen keeps every field value forever: every update call and every attribute assignment raises FrozenError naming that schema, whatever the data. A frozen field of any schema can be given a value only at construction: every update containing its load key and every assignment to it raises FrozenError naming that field, with no field of the schema changed. Inherited schemas, copies and nested schemas keep these guarantees.",
 ['inputs','histories','configurations'],'every sequence of updates and assignments on frozen schemas and schemas with frozen fields, including inherited, copied and nested ones',
 'Two tests try one rejected update and one rejected assignment each, on flat schemas with a single-key update, and do not look at the state afterwards.',
 [S,B,X,G],[('frozen checks',S+': Schema.update; '+B+': Field.__set__'),('config inheritance',S+': _SchemaMeta.__new__')],
 ['FrozenError.entity and all field values after each rejected call'])

p('C07','Dump emits exactly the selected set fields under their dump keys',
 "Schema.dump returns a new dictionary with one entry for each field that has a value and is selected (all fields, or those named in include, or those not named in exclude; giving both is a TypeError), keyed by the field's dump key and holding what the field serializes for its current value, nested schemas included; a None value of a built-in field is dumped as None. If serializing fields fails, one ValidationError reports all and only the failing fields, nested ones under the nested field's key. Dumping never changes the schema.",
 ['inputs','programs','histories'],'every schema, every reachable state, every include/exclude selection (by field name), every pattern of failing dumpers',
 'Tests dump flat string schemas and one nested schema; unset fields, None in nested fields, renamed keys with selection and failing nested dumps are not covered.',
 [S,N,B],[('dump loop and selection',S+': Schema.dump'),('nested dump',N+': Object.value_dump')],
 ['returned dictionary','ValidationError raised by dump','field values before and after'])

p('C08','Dumped data loads back to an equal schema',
 "For every schema whose fields are built-in fields with the same load and dump key, and every valid state of it reached by construction, update or assignment, constructing the schema again from its dump succeeds and gives every field an equal value of the same type (with the same fields set, nested schemas, instances of the class their field names, compared field by field); dumping again gives an equal dictionary.",
 ['inputs','histories'],'every schema over built-in fields, every reachable valid state, every nesting depth',
 'Round trips are asserted for three fixed literals, never for updated states, coerced values, None, nested or typed containers.',
 [S,N,P,R,Y],[('value_load / value_dump pairs',P+', '+N+', '+R+', '+Y)],
 ['Schema(s.dump()) versus s, field by field'])

p('C09','Primitive fields honour strict typing and non-strict coercion',
 "A strict String, Integer, Float or Boolean field accepts exactly the instances of str, int, float or bool and stores them unchanged. With strict disabled, such values are still stored unchanged, any other value becomes exactly str(value), int(value) or float(value), and Boolean maps str(value) to True or False by its true and false value lists and to nothing else; a value that Integer, Float or Boolean cannot convert is reported as the field's coercion error and a wrong type in strict mode as its invalid-datatype error. A subclass that overrides loading and passes a different value to the base class gets that value processed.",
 ['inputs'],'every Python value given to every primitive field configuration, through construction, update and assignment',
 'Tests try one good and one bad value per type.',
 [P],[('type check and coercion',P+': _process_value of String, Integer, Float, Boolean')],
 ['stored value and its exact type','error code passed to format_error'])

p('C10','Type validation accepts a value exactly when it matches the type expression',
 "For every type expression built from plain classes, None, Any, Union and Optional (also X | Y), Literal, List, Set, Dict, Mapping, Tuple (fixed, empty and variadic), Sequence (a list, set or tuple) and TypedDict, nested to any depth and also given bare or as built-in generics, a value is accepted if and only if it matches: containers of the right type, every element, key and value matching, fixed tuples of exactly the given length, literals by equality, classes by isinstance. The same verdict is given by validate_types and by the TypeExpr, Union, Literal, List, Set, Dict and TypedDict fields, an accepted value is stored unchanged, and a rejected one is reported with at least one message.",
 ['inputs','programs'],'every type expression over the documented types and every value, including deep near-misses',
 'Tests list about thirty (type, value) pairs, one level deep, and no mismatch beyond the first few elements of a container.',
 [T,R,Y],[('recursive structural check',T+': TypeValidator._process_value and _handle_*'),('fields delegating to it',R+', '+Y)],
 ['validate_types result','field acceptance, stored value'])

p('C11','Typed dictionaries require exactly their required keys and check every value',
 "For every TypedDict (total or not, inherited across totalities, with Required and NotRequired markers, with or without postponed annotations), a dictionary is accepted if and only if it has all of the type's required keys, no key the type does not define, and every present value matches the declared type of its key, whether or not that key is marked or required. Each missing required key, each undefined key and each mismatching value is reported with its own message naming the key.",
 ['inputs','programs'],'every TypedDict definition (totality, inheritance, markers, value types) and every dictionary',
 'Tests use three TypedDicts of plain str/int values; totality inheritance, generic value types and values of marked keys are not covered.',
 [T,R],[('key and value check',T+': TypeValidator._handle_type_typed_dict, _handle_origin_required'),('field',R+': TypedDict')],
 ['acceptance and error messages for TypedDict field, TypeExpr field and validate_types'])

p('C12','validate_types reports exactly the offending keys and honours its flags',
 "validate_types raises TypeValidationError if and only if some key is offending, and its errors have exactly the offending keys, each with a non-empty list of messages: keys whose value does not match their type, keys of the values that have no type (unless ignore_extra), and keys with a type but no value (unless ignore_missing). Neither mapping is modified. A type outside the documented ones that values cannot be checked against (other generic types, type variables, new types, protocols that are not runtime checkable, unresolved names) is accepted without validation, with a warning on its first use while warnings for unsupported types are enabled in the global configuration in force and never while they are disabled.",
 ['inputs','configurations'],'every types mapping, values mapping, flag combination and warning configuration',
 'Tests check one missing and one extra key, one error at a time, and never the warning or the caller\'s mappings.',
 [T,G],[('key bookkeeping',T+': validate_types'),('unsupported type warning',T+': TypeValidator._warn_unsupported')],
 ['TypeValidationError.errors','captured warnings','the argument mappings afterwards'])

p('C13','Each validator runs exactly once per value, at the right stage',
 "Whenever a value is loaded for a field (construction, update or assignment), each of the field's raw validators is called exactly once with the value as given (None included) and each ordinary validator exactly once with the deserialized value if deserialization succeeded, not at all if it failed or the value is None; they receive the schema being loaded and that value's load context, run in registration order within their kind, and all run even if earlier ones fail. During construction no validator runs before all fields have been deserialized and defaults applied, so a validator can read every other valid field. Validators never run for unknown keys, for omitted fields or for other fields' values.",
 ['inputs','programs','histories'],'every schema, every assignment of raw and ordinary validators registered by decorator, argument or method, every input and operation',
 'Tests check that one validator rejects one bad value; call counts, arguments, order and stage are never observed.',
 [S,B,V],[('deferred validator queue and eager path',S+': _prepare_from_data, _process_field_value'),('invocation',B+': Field._run_validators'),('decorator registration',V+': field; '+S+': Schema.__init_subclass__')],
 ['event log written by instrumented loaders and validators'])

p('C14','Built-in validators accept exactly the values they document',
 "For every value of the documented kind: Range(ub) and Range(lb, ub) accept exactly the integers within the inclusive bounds and Range.from_standard(r) exactly the integers in the standard range r; Length accepts exactly the sized values whose length is within the given minimum, maximum or exact length; Regex accepts exactly the strings that its pattern and flags match by match, fullmatch or search as configured; Exclude accepts exactly the values not equal to an excluded one; Or accepts exactly the values that at least one of its validators accepts. A rejected value is reported as a validation failure of the field, with a non-empty message (for a Regex the failure message given to it, formatted with the value and the pattern).",
 ['inputs','configurations'],'every validator configuration (bounds, steps, patterns, flags, modes, compositions) and every value',
 'Tests sample two or three values around one bound for one configuration of each validator.',
 [V],[('validate methods',V+': Range, Length, Regex, Exclude, Or')],
 ['acceptance through fields carrying the validator and by calling the validator'])

p('C15','Validator registration and field copies behave as independent ordered lists',
 "After any sequence of adding, removing, clearing and walking validators and copying fields, each field's raw and ordinary validators are exactly those implied by the sequence, in registration order (walking without a filter gives ordinary ones first), and these are exactly the ones that run; whether a validator is raw is decided by its own declaration if it has one, else by the raw argument. Removing an unregistered validator changes nothing, and a validator that unregisters itself while it runs, or is removed while the validators are walked, makes no other one be skipped. A copied field has the same options and validators as its source at the time of copying, can be used in another schema under another name, and from then on neither one's validators affect the other.",
 ['histories','inputs'],'every sequence of registry operations over several fields and their copies',
 'One test walks through one fixed sequence of six calls on one field; copies are only checked to load one value.',
 [B,V],[('registry methods',B+': add_validator, remove_validator, clear_validators, walk_validators, copy')],
 ['walk_validators output','validators observed to run'],[('validator lists','raw and ordinary validators',B+': Field._validators, Field._raw_validators')])

p('C16','Inherited schemas get all parent fields without ever altering the parents',
 "A schema class has all fields of all of its base schemas plus its own; where several classes define a field of the same name the one Python's method resolution order selects applies, completely replacing the others, load and dump keys included. A validator declared in a subclass for an inherited field, by its name or by the field of any base, runs, in addition to inherited validators, for that subclass and for the descendants that inherit the field through it. Defining, loading, updating or dumping a subclass never changes the fields, keys, validators or behaviour of its bases or of their other subclasses.",
 ['programs','inputs'],'every inheritance graph of schemas (chains, siblings, diamonds, mixins) with overrides, renamed keys and subclass validators, and every input',
 'One test loads one three-level chain of integer fields; overrides, multiple bases, subclass validators and effects on parents are not covered.',
 [S],[('field collection and validator registration',S+': Schema.__init_subclass__'),('config inheritance',S+': _SchemaMeta.__new__')],
 ['outcome of loading and dumping each class of the hierarchy before and after further subclasses are defined'],[('class field maps','fields by name and load key',S+': Schema.__fields__, Schema.__load_fields__')])

p('C17','A copied schema and its original never affect each other',
 "Schema.copy returns an initialized schema of the same class whose fields are set to the very same values, with a context of its own that belongs to the copy and carries an equal state. From then on no update or assignment, successful or failing, on one of them and no change of one context's state (replacing it, or adding, changing or removing entries of a dictionary or list state) is visible in the other, through any chain of copies of copies.",
 ['histories'],'every interleaved history of updates, assignments, state changes and further copies over a family of copies',
 'One test makes one copy and one assignment on each side.',
 [S,C],[('value map and context copied',S+': Schema.copy; '+C+': SchemaContext._copy')],
 ['all field values and context state of every family member after each operation'])

p('C18',"An operation's outcome does not depend on earlier operations",
 "Whatever library operations ran earlier in the same thread or task (on any schemas; successful, failed with a validation error, or interrupted by an exception from user code), an operation gives the same result as in a fresh process: same values, or the same error with the same keys, messages, schema, field and context. After an operation ends and its result is dropped, the library keeps neither the schema nor the values alive.",
 ['histories','fault_sequences'],'every history of loads, updates, assignments, dumps, copies and type validations with failures injected at any callback, followed by every operation',
 'Tests run in one process and so hide state left behind; none compares an operation after a history with the same operation on its own.',
 [U,S,B,X,T],[('context variables reset after use',S+': __init__, _prepare_from_data, _process_field_value, dump; '+B+': Field.__set__'),('per-load copies of shared maps',S+': Schema._prepare_from_data')],
 ['outcome snapshots of a probe operation after a history versus in a fresh context and a fresh process','weak references to values after the last use'],[('current_schema, current_field_key, current_context','ambient state',U)])

p('C19','Concurrent operations on separate schemas behave as if run alone',
 "When threads or asyncio tasks concurrently construct, update, assign, copy, dump or type-validate using the same schema classes, fields and validators but separate instances, every operation yields exactly the values or errors (keys, messages, schema, field, context) it yields when run alone, under every interleaving. No exception other than those of the operation itself ever appears.",
 ['schedules','inputs'],'every interleaving of operations of several threads or tasks at the granularity of individual source lines and user callbacks',
 'No test uses threads or tasks.',
 [U,S,B,T,C],[('context variables instead of globals',U),('definitions only read during operations',S+', '+B+', '+T)],
 ['outcome of every concurrent operation versus its sequential outcome'])

p('C20','The library never modifies caller data or schema definitions',
 "No construction, update, assignment, dump, copy or type validation, successful or failing, changes any object the caller passed in (input mappings at any nesting level, lists, sets, include/exclude selections, type mappings, initialization keyword mappings, states, default values, messages and states of errors raised by user code) unless user callbacks do so themselves, and no definition, copy or change of a field changes the sequences and mappings given to field definitions. Nor does any of them change the set of fields, field options, keys or validators of any schema class, so the same input keeps giving the same outcome.",
 ['inputs','histories'],'every operation on every input and schema, repeated in any order',
 'No test compares arguments or definitions before and after a call.',
 [S,N,T,R,B],[('working copies',S+': Schema._prepare_from_data (fields copy), Schema.copy; '+T+': validate_types')],
 ['deep snapshots of every argument and of public field attributes before and after each call'])

p('C21','Rendered errors contain every error, nested to any depth',
 "For every ValidationError, raw() is a new plain structure mapping each failing key to the list of its messages, where a failure of a nested schema is itself such a mapping, messages given as a list, tuple or set count as separate messages, and everything else is a string (mappings and lists inside messages keep their structure); and str() of the error mentions the schema's name, every failing key (with the field's name where it differs) and every message at every nesting level. Building an error while an operation is running and rendering it, then or later, never fails, whatever printable objects the messages are.",
 ['inputs','programs'],'every combination of failures, message kinds (string, list, tuple, set, mapping, arbitrary object) and nesting depth',
 'Tests look for one message in str() and one key in raw(); multi-message, mapping-message and deep cases are not covered.',
 [X],[('flattening, raw form, text form',X+': ValidationError._flatten_errors, _raw_std, _make_message, _ensure_string')],
 ['ValidationError.raw()','str(ValidationError)'])

p('C22','Custom error classes, formatted messages and error state are always honoured',
 "Every validation failure of every operation is raised as the validation_error_cls of the global configuration in force, whether set on oblate.config or by replacing oblate.config, and only subclasses of ValidationError can be set. For every library-generated failure of a field, the field's format_error is called with its documented error code and a context giving the field, schema and offending value, and what it returns (a string or a FieldError, state included) is what is reported; returning None falls back to the default message. A FieldError raised by user code is reported as that same error with its message and state; a message list is reported as one error per message, each with the same state.",
 ['inputs','configurations','histories'],'every field kind and error code, every operation, every configuration history',
 'Tests cover two codes of one field and check that the configured class can be stored, not that it is raised.',
 [G,B,X,S],[('configured class looked up when raising',S+', '+B+', '+G),('format_error dispatch',B+': Field._call_format_error')],
 ['type of the raised error','error codes and contexts seen by format_error','FieldError.message/.state'])

p('C23','User exceptions are converted or passed through, never lost',
 "A ValueError, AssertionError (or subclass of either) or FieldError raised by a field's loader, dumper or a validator never escapes an operation as itself: it is reported in the ValidationError under the key of the value involved with its message (the field's validation-failed error if it has none), and the remaining fields and validators are still processed. A ValidationError that user code raises while a nested schema is processed is reported like that schema's own failure; any other exception (StopIteration, which Python itself replaces inside generators, excepted) raised by these callbacks, at any point of any operation, propagates to the caller as the same exception object, and after it the library works normally.",
 ['inputs','fault_sequences'],'every exception class raised at every user callback of every operation (loaders, dumpers, raw and ordinary validators, nested ones included)',
 'Tests raise one ValueError and one AssertionError in loaders; dumpers, subclasses, foreign exceptions and nested callbacks are not covered.',
 [S,B,X,V],[('except clauses around user code',S+': _process_field_value, dump; '+B+': Field._run_validators'),('conversion',X+': FieldError._from_standard_error')],
 ['exception leaving each operation and the report it carries, for each injected exception'])

p('C24','Schema configuration is resolved per call, then class, then inheritance',
 "Each schema class uses the configuration class defined in its body, else that of its base schema, else the defaults, and its instances expose it. Unknown keys are rejected or ignored according to the ignore_extra argument of the call if given (True or False), else the configuration of the schema's class, independently at each nesting level (a nested field's initialization arguments apply to the nested construction only, and not to instances passed in). Extra attributes can be set on instances only if slotted is off or slots declare them (in the class or a base), and the generated representation names the schema and every set field unless disabled or replaced by the class.",
 ['configurations','inputs'],'every combination of class, inherited and per-call configuration over nested schemas, with any extra keys, in construction and update',
 'Tests check each option once on a flat schema; precedence, inheritance and nesting combinations are not covered.',
 [S,G,N],[('config lookup',S+': _SchemaMeta.__new__'),('per call override',S+': _prepare_from_data, update'),('init_kwargs',N+': Object.value_load')],
 ['acceptance of extra keys per level and call','context.config','setattr of unknown names','repr()'])

p('C25','Lifecycle hooks and contexts fire once, in order, with the right state',
 "Each construction calls preprocess_data exactly once with the caller's data before anything else and loads exactly what it returns (TypeError if that is no mapping); the post-init hook runs exactly once, after all validators, only if everything succeeded, with all values readable; updates, assignments, copies and dumps call neither. A schema's context reports uninitialized until construction has succeeded and initialized from the post-init hook on, carries the state passed in, and load contexts report is_update accordingly. Each value processed gets one fresh load or dump context, shared by that value's loader and validators, with its field, schema, raw value, selected fields when dumping, and an initially empty state.",
 ['inputs','histories','programs'],'every operation on every schema (nested included), with succeeding and failing data',
 'One test checks is_update and one preprocess_data on one value; ordering, call counts, freshness and failure paths are not observed.',
 [S,C,N],[('construction sequence',S+': Schema.__init__, _prepare_from_data'),('contexts',C+': SchemaContext, LoadContext, DumpContext')],
 ['event log written by instrumented hooks, loaders, dumpers and validators'])

p('C26','Reading a field gives its current value, the given fallback, or a not-set error',
 "At any time attribute access and get_value_for (by field name or load key, a field name taking precedence) return the value last successfully stored for that field, None and other false values included, in that instance only. A field without a value makes attribute access and get_value_for raise FieldNotSet (an AttributeError, carrying the field, the schema and the name used, so hasattr is False) unless get_value_for is given a fallback, which is then returned whatever it is; a name that is no field is a RuntimeError, fallback or not.",
 ['histories','inputs'],'every schema (including clashing names and load keys), every history of operations over many instances, every read',
 'Tests read back a few truthy values of fresh schemas and one fallback.',
 [S,B,X],[('lookup',S+': Schema.get_value_for, _get_field; '+B+': Field.__get__'),('not-set error',X+': FieldNotSet')],
 ['results of attribute access, hasattr, get_value_for after each operation'])

p('C27','Misuse is refused at once and leaves everything that exists untouched',
 "Wrong definitions and calls are refused immediately, whatever valid parts surround them: TypeError for an Object of anything but a schema class, a Union of fewer than two types, a Dict given only a key type, a validator that is not callable, a validator declared for a name that is no field of the schema, missing or contradictory arguments of Range, Length and Regex, an invalid global configuration value, include together with exclude, data or preprocessed data that is no mapping, and a formatted error that is neither a string nor a FieldError; RuntimeError for attaching a field that is already attached and for the name or schema of an unattached field; NotImplementedError for using a field or validator class that lacks its abstract method. A refused definition or call changes nothing that existed before: classes, fields, their validators, schema instances and configuration are and behave as before. The corrected definition or call then succeeds.",
 ['inputs','histories','programs'],'every wrong definition or call of the listed kinds, among any valid parts, in any order, inside and outside of callbacks',
 'Most of these branches are excluded from coverage and no test runs them; none looks at what a refused definition leaves behind.',
 [S,B,N,Y,R,V,G],[('definition checks',S+': Schema.__init_subclass__; '+B+': Field._bind, add_validator, remove_validator'),('constructor checks',N+': Object.__init__; '+Y+': Union.__init__; '+R+': Dict.__init__; '+V+': Range, Length, Regex'),('configuration setters',G+': GlobalConfig')],
 ['exception of each wrong definition or call','description and behaviour of every existing class, field, instance and configuration before and after','result of the corrected definition or call'])

p('C28','Fields report exactly what they were declared with, whatever happens later',
 "A field reports through its public attributes exactly the options it was declared with: none, frozen, required (False whenever a default is given), default and has_default (None and False without one), the very extras object given (else an empty dictionary of its own), its type-specific options, and once attached its attribute name, the schema class it was defined in, and its load and dump keys (data_key sets both, each defaulting to the name). Accessing it on that class, or on any class that inherits it without extending it, gives the field object itself; a copy is a new object of the same class that reports the same options and, once attached, its own name, schema and default keys. No definition of another class, copy, or operation on schemas, failing or not, changes any of this, and the validator decorator returns the decorated function itself.",
 ['configurations','histories','programs'],'every combination of options of every field class, every class family and copy chain, every history of operations',
 'Tests never read name, schema, required, none, frozen, extras or the keys of a field; defaults that are None or false, and copies under another name, are not examined.',
 [B,S,N,P,R,Y],[('options',B+': Field.__init__ and properties'),('attachment',B+': Field._bind; '+S+': Schema.__init_subclass__'),('copies',B+': Field.copy')],
 ['public attributes of every field after each step','class attribute access','functions returned by validate.field'])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in props))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in props: jsonschema.validate(x,sch); assert x['statement'].count('. ')<=2,(x['id'])
print(len(props))
