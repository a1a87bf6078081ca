#!/usr/bin/env python3
"""
Writes properties.jsonl and MANIFEST.json from the table below, for the
properties that have a module in harness/props. Run it by hand after a change
of the table; the outputs are committed.
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, D = 'jsons/serializers/', 'jsons/deserializers/'


def prop(id_, title, statement, over, text, why, files, mech, technique, note,
         observe=()):
    return dict(id=id_, title=title, statement=statement, over=over, text=text,
                why=why, files=files, mech=mech, technique=technique,
                note=note, observe=list(observe) or
                ['the return values and raised errors of the public API'])


PROPS = [
 prop('C01', 'Values of standard types survive a dump and load',
  'Dumping a value that is built from the supported standard types and containers, with or without its type, in strict mode or not, gives the documented JSON representation; and loading that representation with the type of the value, also after a trip over JSON text, gives an equal value with the same types at every level.',
  ['inputs', 'configurations'], 'Every nested combination of supported scalars and containers, every value of it, strict and non-strict, with and without the type given, over text or not.',
  'Tests fix one or two values per type, mostly unnested; the guarantee is over all compositions and extreme values (sizes, signs, offsets, odd strings, keys).',
  [S, D, 'jsons/_dump_impl.py', 'jsons/_load_impl.py'],
  [('per-type serializers', S), ('per-type deserializers', D), ('hashed keys', S + 'default_dict.py: _store_and_hash')],
  'runtime monitor: independent reference model of the dump + round-trip oracle on generated types/values',
  'Seeded exploration; the reference model shares no code with jsons. Bounds: type depth 3 (some to 15), containers up to 65 elements.'),
 prop('C02', 'Instances of user classes survive a dump and load',
  'Dumping an instance of a plain, data-, attrs-, slotted, inheriting, self-referring or named-tuple class whose constructor parameters are annotated gives an object with exactly its attributes, and loading that with the class reproduces an equal instance of the same class at every level.',
  ['inputs', 'programs', 'configurations'], 'Every class of these styles with any supported field types, defaults, forward references and names; every instance; strict and non-strict.',
  'Tests have hand-written classes with a handful of fields; class shape, attribute names, forward references and nesting are unbounded.',
  [S + 'default_object.py', D + 'default_object.py', D + 'default_tuple.py', S + 'default_tuple.py', 'jsons/_compatibility_impl.py'],
  [('constructor argument matching', D + 'default_object.py: _get_constructor_args'), ('attribute collection', S + 'default_object.py'), ('type hint resolution', 'jsons/_compatibility_impl.py')],
  'runtime monitor: generated class programs, reference dump model, attribute-wise equality oracle',
  'Seeded exploration over generated classes of twelve styles.'),
 prop('C03', 'Every dump is pure JSON, and text and bytes API agree with it',
  'Whatever is dumped successfully consists of None, bool, int, float, str, lists and dicts (with scalar keys) only and is accepted by the JSON encoder, in every dump mode. Dumping to text or bytes gives the encoding of precisely that structure with the given encoder arguments and encoding, and loading from text or bytes gives what loading the parsed structure gives.',
  ['inputs', 'configurations'], 'Every dumpable value, all dump options, encodings and json arguments.',
  'Tests compare single dumps; no test checks purity of all outputs under combinations of options.',
  ['jsons/_dump_impl.py', 'jsons/_load_impl.py', S],
  [('serializers return JSON types', S), ('dumps/dumpb/loads/loadb', 'jsons/_dump_impl.py, jsons/_load_impl.py')],
  'runtime monitor: structural purity checker on all outputs + differential text/bytes API',
  'Seeded exploration over types, values, dump options and encodings.'),
 prop('C04', 'Dump and load never modify their input, alias it or depend on chance',
  'Neither dumping nor loading changes the objects or structures that it is given, including option arguments, whether it succeeds or fails. The result of a dump shares no mutable state with the dumped object, and repeating the same call gives the same result.',
  ['inputs', 'histories', 'configurations'], 'Every input, valid or broken, with every option; repeated calls.',
  'Tests never compare the input before and after a call; a mutation shows only in a second use.',
  [S, D, 'jsons/_load_impl.py', 'jsons/_dump_impl.py', 'jsons/_transform_impl.py'],
  [('copies before changes', S + 'default_dict.py, ' + D + 'default_dict.py, ' + D + 'default_object.py')],
  'runtime monitor: snapshots of all arguments before/after each call, identity (alias) scan of results, repetition',
  'Seeded exploration; non-strict loads that return the input by documentation are excluded.'),
 prop('C05', 'Failures always surface as informative errors of the library',
  'A load or dump that cannot succeed raises an error of the documented error hierarchy and nothing else, whatever the input or a user callback raises; non-error exceptions pass unchanged. A load error carries a message, the source value and the target type that failed, and the index of every list on the way; malformed text or bytes give a decoding error that is also a JSON decode error.',
  ['inputs', 'fault_sequences'], 'Every JSON structure or other object, every type, every place of the fault, every error raised by callbacks.',
  'Tests check a few failure messages; which exceptions escape depends on arbitrary malformed inputs and fault positions.',
  ['jsons/_load_impl.py', 'jsons/_dump_impl.py', 'jsons/exceptions.py', D, 'jsons/_common_impl.py'],
  [('error translation', 'jsons/_load_impl.py: _do_load; jsons/_dump_impl.py: _do_dump'), ('index of lists', D + 'default_list.py')],
  'runtime monitor: fault planting in structures and callbacks, oracle on the type, payload and causes of escaping exceptions',
  'Seeded exploration of mutated JSON, planted faults at known places and raising callbacks.'),
 prop('C06', 'What load returns is a value of the type that was asked for',
  'If loading any JSON structure (that tells no class itself) into a supported type succeeds, the result is a member of that type at every level, in strict and non-strict mode, however badly the structure fits.',
  ['inputs', 'programs'], 'Every JSON structure against every supported type.',
  'Tests load fitting structures; soundness is about all the structures that do not quite fit.',
  [D, 'jsons/_load_impl.py', 'jsons/_common_impl.py'],
  [('deserializers check or convert', D), ('union loading', D + 'default_union.py')],
  'runtime monitor: membership oracle on every successful load of mutated structures',
  'Seeded exploration; JSON mutants of valid dumps, dumps of other types, random JSON.'),
 prop('C07', 'Strict loading refuses unknown attributes at any depth',
  'Loading strictly an object with a key that its class does not expect, wherever in the structure that object is, raises an error that names the key and the class (within a union: the load error of the union); without such keys, or in non-strict mode, the load succeeds.',
  ['inputs', 'programs'], 'Every class and structure, every place and name of an unexpected key.',
  'Tests try one flat class; depth, containers on the way and names vary without bound.',
  [D + 'default_object.py', D + 'default_list.py', D + 'default_union.py', 'jsons/exceptions.py'],
  [('signature check', D + 'default_object.py: _get_remaining_args')],
  'runtime monitor: planted unknown keys at generated places, oracle on error identity and on the unplanted control',
  'Seeded exploration.'),
 prop('C08', 'Missing arguments: given value, getter, default, None, else an error',
  'Each constructor parameter gets the value of the structure if present, else the value of an attribute getter (called exactly once), else its default, else None if its type allows that; otherwise the load fails with an error that names the argument. The getters never leak into later loads and getters for other attributes set these.',
  ['inputs', 'programs', 'configurations'], 'Every class style, every subset of present keys, defaults and getters.',
  'Tests sample single combinations; the precedence must hold for all subsets and kinds of parameters.',
  [D + 'default_object.py', D + 'default_tuple.py', 'jsons/_load_impl.py'],
  [('value lookup', D + 'default_object.py: _get_value_for_attr')],
  'runtime monitor: model of the lookup precedence, call-counting getters',
  'Seeded exploration.'),
 prop('C09', 'Unions take the first member that fits, in both directions',
  'Loading into a union gives what loading into the first member (in declared order) for which that succeeds gives, an optional accepts None, and fails if no member succeeds, naming the union; dumping as a union likewise dumps as the first member that succeeds.',
  ['inputs', 'programs'], 'Every union of supported types, nested anywhere, every JSON structure and value.',
  'Tests use two-member unions with clear-cut values.',
  [D + 'default_union.py', S + 'default_union.py', 'jsons/_compatibility_impl.py'],
  [('members in order', D + 'default_union.py, ' + S + 'default_union.py')],
  'runtime monitor: metamorphic oracle against the individual member calls',
  'Seeded exploration; the oracle uses jsons itself for the single members.'),
 prop('C10', 'Containers handle every element exactly once, in order',
  'Dumping or loading a container yields the results of dumping or loading its elements one by one: each element is passed to its (de)serializer exactly once, in order, none is lost, duplicated or merged, and element types, options and fork are the same at any depth.',
  ['inputs', 'configurations', 'histories'], 'All containers, nestings, sizes and options.',
  'Tests compare results of tiny containers; counting calls and order requires observing the run.',
  [S + 'default_iterable.py', S + 'default_list.py', S + 'default_dict.py', S + 'default_tuple.py', D + 'default_list.py', D + 'default_tuple.py', D + 'default_iterable.py', D + 'default_dict.py', D + 'default_mapping.py', D + 'default_defaultdict.py'],
  [('element-wise recursion', S + ', ' + D)],
  'event log of instrumented (de)serializers of a fork + exactly-once/order/options checker',
  'Seeded exploration with recording callbacks registered through the public API.'),
 prop('C11', 'Strip options remove precisely what they say, at every depth',
  'Each strip option (nulls, privates, properties, class variables, named attributes) removes exactly the attributes of its category from every dumped object at any depth and changes nothing else, and any combination removes the union of the categories. (Named tuples and dict entries are no attributes; a class variable that is overridden per instance counts as a class variable.)',
  ['inputs', 'programs', 'configurations'], 'All classes, values and all combinations of options.',
  'Tests check each option alone on a flat class.',
  [S + 'default_object.py', S + 'default_dict.py'],
  [('attribute filter', S + 'default_object.py: _filter_attributes')],
  'runtime monitor: model-based oracle on generated classes with tagged attributes',
  'Seeded exploration of option combinations over generated class trees.'),
 prop('C12', 'Key transformers apply to every key once and invert on load',
  'With a key transformer, every attribute name and string key of a dump is exactly the transformed one, at every depth and in nothing else (the fixed keys of the notations of standard types stay); loading with the inverse transformer restores the object. The built-in transformers map names of words in snake, camel, pascal or lisp case to their documented case and are idempotent on it.',
  ['inputs', 'programs', 'configurations'], 'All names, transformers, classes and nestings.',
  'Tests use a few names on flat objects.',
  ['jsons/_key_transformers.py', S + 'default_object.py', S + 'default_dict.py', D + 'default_object.py', D + 'default_dict.py'],
  [('transform on dump and load', S + ', ' + D), ('case functions', 'jsons/_key_transformers.py')],
  'runtime monitor: structural comparison with the untransformed dump, independent model of the case functions, round trip',
  'Seeded exploration.'),
 prop('C13', 'Verbose dumps carry what is needed to load them without a type',
  'A verbose dump of an object tells the class of every nested object in attributes, lists and tuples by its path, is otherwise the same as a plain dump, and loads without giving any type to an equal object with the same classes (values of dicts as their declared class), also over text; meta information never ends up as an attribute. The dump time is the current time in UTC.',
  ['inputs', 'programs', 'configurations'], 'All classes, subclasses in attributes of base types, nested dicts and lists, verbosity levels.',
  'Tests have three fixed object trees.',
  [S + 'default_object.py', D + 'default_object.py', 'jsons/_common_impl.py', 'jsons/classes/verbosity.py'],
  [('class info', S + 'default_object.py: _fill_collection_of_types'), ('meta hints', D + 'default_object.py: _get_value_from_obj'), ('class lookup', 'jsons/_common_impl.py: get_cls_from_str')],
  'runtime monitor: comparison with plain dumps, class-tree oracle on type-less loads',
  'Seeded exploration.'),
 prop('C14', 'Dates and times keep their moment and follow RFC3339',
  'Every dumped datetime is a valid RFC3339 timestamp of the same moment, whatever its zone, year, fraction or the local time zone of the process; a naive one counts as local time. Loading any RFC3339 timestamp gives the moment it denotes with its offset; dates and times keep all their fields; the option to strip microseconds drops just these.',
  ['inputs', 'configurations'], 'All datetimes, zones (also at changes of summer time), fractions and local zones of the process.',
  'Tests use a dozen timestamps in the zone of the machine.',
  ['jsons/_datetime_impl.py', S + 'default_datetime.py', S + 'default_date.py', S + 'default_time.py', D + 'default_datetime.py', D + 'default_date.py', D + 'default_time.py', S + 'default_timedelta.py', S + 'default_timezone.py'],
  [('formatting and parsing', 'jsons/_datetime_impl.py')],
  'runtime monitor: independent RFC3339 parser and integer instants as oracle, tzset-varied process zones',
  'Seeded exploration including all zone transitions of the sampled zones.'),
 prop('C15', 'Only untyped strings that are timestamps are interpreted',
  'A value declared as str loads as the very same string, whatever it looks like, in any container or attribute. Without a declared type, at the root or in lists and dicts without declared elements, a string becomes a datetime exactly if it is a complete RFC3339 timestamp, and all other JSON values come out as they are.',
  ['inputs', 'programs'], 'All strings, near-timestamps, and places where strings occur.',
  'Tests try two strings.',
  [D + 'default_string.py', D + 'default_primitive.py', 'jsons/_load_impl.py'],
  [('string inference', D + 'default_string.py')],
  'runtime monitor: identity oracle on declared strings and independent timestamp recogniser on undeclared',
  'Seeded exploration, plus mutation of timestamps character by character.'),
 prop('C16', 'Enums are dumped and loaded by name or by value, unambiguously',
  'An enum member is dumped as its name (or its value if so asked) and loads to the identical member from either form, also with aliases, mixed-in types, nested containers and dict keys; flag combinations without a name load by value; anything that is neither a name nor a value is refused.',
  ['inputs', 'programs', 'configurations'], 'All enum classes, members, flags and positions.',
  'Tests have one small enum.',
  [S + 'default_enum.py', D + 'default_enum.py'],
  [('name/value choice', S + 'default_enum.py, ' + D + 'default_enum.py')],
  'runtime monitor: generated enum classes, member identity oracle',
  'Seeded exploration.'),
 prop('C17', 'Dicts with keys that JSON has no notation for survive',
  'A dict with keys of any hashable supported type is dumped as pure JSON without losing, merging or mixing up entries (keys of equal JSON notation aside), also if keys have equal hashes or clash with other keys, and loads to an equal dict, over text too.',
  ['inputs', 'configurations'], 'All key types, mixtures of keys, hash collisions, nesting in values and attributes, all dump options.',
  'Tests use single keys; collisions and mixtures never occur.',
  [S + 'default_dict.py', D + 'default_dict.py', D + 'default_mapping.py', D + 'default_defaultdict.py'],
  [('hashed keys', S + 'default_dict.py: _store_and_hash; ' + D + 'default_dict.py: _load_hashed_keys')],
  'runtime monitor: adversarial keys (chosen hashes), conservation and round-trip oracle',
  'Seeded exploration.'),
 prop('C18', 'The registered serializer for the closest class is the one used',
  'After registering (de)serializers for classes in any order, every value is handled by the one registered last for its exact class, else by that of a registered parent with the documented priority, else by the default; several classes can be registered at once, and the getters report the same function.',
  ['histories', 'programs', 'inputs'], 'All sequences of registrations over class hierarchies, with both priorities, and uses in between.',
  'Tests register once and use once.',
  ['jsons/_lizers_impl.py', 'jsons/_extra_impl.py', 'jsons/_cache.py'],
  [('registration', 'jsons/_lizers_impl.py')],
  'runtime monitor: sequential model of the registry, tagged callbacks as observers',
  'Seeded exploration of operation histories (in child processes and forks).'),
 prop('C19', 'Calls do not influence one another',
  'What a dump or load returns or raises depends only on its arguments and the registrations in force: any earlier sequence of dumps, loads, failures or registrations for other classes leaves it unchanged, also with other classes of the same name.',
  ['histories'], 'All sequences of calls before a call.',
  'Tests run calls in isolation; leftover caches or state show only after particular histories.',
  ['jsons/_cache.py', 'jsons/_common_impl.py', 'jsons/_lizers_impl.py', S + 'default_object.py'],
  [('cache clearing', 'jsons/_cache.py'), ('announced classes', 'jsons/_extra_impl.py')],
  'runtime monitor: differential execution, fresh process state against state after a random history',
  'Seeded exploration of histories; baseline taken in a forked child.'),
 prop('C20', 'Forks are isolated from their origin and from each other',
  'A fork starts with the registrations of its origin; later registrations, validators, announced classes and warning settings of one never show in any other, and every nested call of an operation on a fork uses that fork.',
  ['histories', 'configurations'], 'All trees of forks and interleavings of registrations and uses.',
  'Tests fork once.',
  ['jsons/_fork_impl.py', 'jsons/_common_impl.py', 'jsons/_lizers_impl.py', 'jsons/_validation.py', 'jsons/classes/json_serializable.py'],
  [('copying state', 'jsons/_fork_impl.py')],
  'runtime monitor: model of a tree of registries, tagged callbacks, all forks probed after every step',
  'Seeded exploration of operation histories.'),
 prop('C21', 'A registered validator sees every loaded value of its class',
  'Each value of a class with a validator that results from a load into declared types, anywhere in the structure and whichever way it was made, was passed to the validator exactly as returned; a validator that returns false or raises makes the load fail with a validation error (unless another member of a union fits), and dumps are not affected.',
  ['inputs', 'programs', 'configurations'], 'All classes, positions, load modes and validator outcomes.',
  'Tests validate one flat class.',
  ['jsons/_validation.py', 'jsons/_load_impl.py'],
  [('validation after deserialization', 'jsons/_load_impl.py; jsons/_validation.py')],
  'event log of recording validators checked against all values in the result',
  'Seeded exploration.'),
 prop('C22', 'Parallel dumps and loads equal serial ones',
  'Dumping or loading with any number of tasks, as threads or processes, gives the result, the order and the failure that a single task gives, for any number of elements, with the same options, fork and type.',
  ['inputs', 'schedules', 'configurations'], 'All sizes and numbers of tasks, task types, element types, options and delays in elements.',
  'Tests try four elements with two tasks.',
  ['jsons/_multitasking.py', S + 'default_iterable.py', D + 'default_list.py'],
  [('splitting and joining', 'jsons/_multitasking.py')],
  'runtime monitor: differential serial/parallel execution with injected delays and faults, event log of elements',
  'Seeded exploration with random delays; interleavings counted by completion order.'),
 prop('C23', 'Concurrent use from threads behaves like sequential use',
  'Any number of threads dumping and loading at the same time each get the results and errors that they would get alone, and registering serializers for other classes or making forks meanwhile disturbs none of them.',
  ['schedules', 'histories'], 'All interleavings of dumps, loads, failures, first uses of classes and registrations.',
  'No test uses more than one thread on shared state.',
  ['jsons/_cache.py', 'jsons/_common_impl.py', 'jsons/_lizers_impl.py', 'jsons/_multitasking.py'],
  [('per-call caches', 'jsons/_cache.py'), ('announcing classes', 'jsons/_extra_impl.py')],
  'stress with injected yields (sys.monitoring line events, tiny switch interval), per-thread sequential oracle',
  'Stress under the GIL; distinct interleavings are counted from the recorded event orders.'),
 prop('C24', 'Serializable base classes are a faithful facade',
  'For a class that derives from the serializable base, its methods and property give what the corresponding functions give with the class as the type and fork; serializers, and dump or load settings that were configured before for it (the latter for dump, json, load and from_json), apply to all nested values. Settings of different kinds and forks accumulate, a new one replaces the former of its kind, and only that class and later forks of it are affected.',
  ['inputs', 'programs', 'configurations'], 'All classes, values, settings and chains of settings and forks.',
  'Tests check single settings on one class.',
  ['jsons/classes/json_serializable.py', 'jsons/_fork_impl.py'],
  [('delegation', 'jsons/classes/json_serializable.py')],
  'runtime monitor: differential oracle method versus function',
  'Seeded exploration.'),
 prop('C25', 'The decorators load arguments, dump results and alter nothing else',
  'A decorated function, method, class or static method or coroutine is called with the arguments given and its own defaults, each given one loaded (or dumped) as its annotation says, or without a type if it has none, and its result is loaded (or dumped) likewise; arguments of all kinds (positional, keyword, variadic) keep their places and raised errors pass through. Classes and static or class method objects are refused.',
  ['programs', 'inputs', 'configurations'], 'All signatures, ways of passing arguments, function kinds and decorator options.',
  'Tests decorate a few simple functions.',
  ['jsons/decorators.py'],
  [('argument mapping', 'jsons/decorators.py')],
  'runtime monitor: generated functions that log what they receive, oracle from signature binding',
  'Seeded exploration of generated signatures.'),
 prop('C26', 'Transform equals dumping and then loading as the other class',
  'Transforming an object into another class gives the result of dumping it and loading that with the other class after applying the mapper, with the options handed to the half for which they are given and the fork to the load; it never modifies the object.',
  ['inputs', 'programs', 'configurations'], 'All pairs of classes, objects, mappers and options.',
  'Tests transform one pair.',
  ['jsons/_transform_impl.py'],
  [('dump, map, load', 'jsons/_transform_impl.py')],
  'runtime monitor: differential against the composition of dump and load',
  'Seeded exploration.'),
 prop('C27', 'One attribute or element that cannot be handled harms no other',
  'In non-strict mode an attribute that cannot be dumped is left out with a warning that names it while all others are dumped; in strict mode the dump fails. With the option to warn on failing elements, a list is loaded without precisely the failing elements, and so are the lists within, with a warning for each; without it the first failure is raised.',
  ['inputs', 'fault_sequences', 'configurations'], 'All objects and lists, every set of failing positions, nested, all modes.',
  'Tests have one failing attribute or element.',
  [S + 'default_object.py', S + 'default_list.py', S + 'default_iterable.py', D + 'default_list.py'],
  [('continue on failure', S + 'default_object.py; ' + D + 'default_list.py')],
  'fault injection at generated positions, model oracle of the survivors and of warnings',
  'Seeded exploration.'),
 prop('C28', 'Dumping as a class takes only that class into account',
  'Strictly dumping an object as one of its base classes, also by the declared type of a list or tuple element or attribute, gives exactly the attributes that class declares with the values of the object; non-strictly, and as values of dicts, everything of the object is dumped.',
  ['inputs', 'programs', 'configurations'], 'All hierarchies, declared types in containers and attributes, all values.',
  'Tests dump one pair of classes.',
  [S + 'default_object.py', S + 'default_list.py', S + 'default_iterable.py', S + 'default_tuple.py'],
  [('attributes of the class', S + 'default_object.py: _get_attributes_from_class')],
  'runtime monitor: model of declared attributes on generated hierarchies',
  'Seeded exploration.'),
 prop('C29', 'Attributes that are no constructor parameter are restored with their type',
  'When loading non-strictly, keys that are no constructor parameter become attributes of the instance, if its class allows any, loaded as annotated in the class (or its bases), as the class that a verbose dump tells, or as they are otherwise; read-only properties and class-level data stay intact.',
  ['inputs', 'programs'], 'All classes with annotated and unannotated attributes, properties and extra keys.',
  'Tests have one extra attribute.',
  [D + 'default_object.py'],
  [('remaining attributes', D + 'default_object.py: _set_remaining_attrs')],
  'runtime monitor: model of attribute restoration on generated classes',
  'Seeded exploration.'),
 prop('C30', 'Warnings come exactly when documented and can be suppressed',
  'Dumps and loads that work as asked emit no warning; an attribute that fails to dump, an element that fails to load with the option to warn, a dict with hashed keys loaded without a hint, a dumped naive datetime and decorating a static method warn once each, with a warning that names the code by which it can be suppressed; warnings are suppressible per code or altogether, globally and per fork, and that never changes a result.',
  ['inputs', 'histories', 'configurations'], 'All clean operations, all sequences of suppressing and unsuppressing.',
  'Tests check three warnings.',
  ['jsons/_common_impl.py', 'jsons/_extra_impl.py', D + 'default_primitive.py', D + 'default_object.py', S + 'default_object.py'],
  [('warning codes', 'jsons/_common_impl.py; jsons/_extra_impl.py')],
  'runtime monitor: recorded warnings against a model of suppression state',
  'Seeded exploration of histories.'),
 prop('C31', 'Primitives load as they are, or are converted by their type, or refused',
  'Loading any JSON value into int, float, bool, str, a subclass or a NewType of these gives the value itself if it has that type, otherwise what that type makes of it without a warning, and if that fails, and for null, a load error with that value and type; keys, elements and attributes follow the same rule.',
  ['inputs', 'configurations'], 'All JSON values against all primitive types, at every position.',
  'Tests convert a few strings.',
  [D + 'default_primitive.py', 'jsons/_load_impl.py'],
  [('cast', D + 'default_primitive.py')],
  'runtime monitor: independent conversion model, recorded warnings',
  'Seeded exploration.'),
 prop('C32', 'A type that is given by its name loads as that type',
  'Loading with the name of a class, or of a generic type of named types, as the type or in the meta information of the structure does exactly what loading with that type does. The names of builtins, of what can be imported, and of the classes that were announced (in that fork, the last for that name) are understood. Any other name, whatever it is and however its module fails to import, makes the load fail with the error for unknown classes, which tells the name.',
  ['inputs', 'histories'], 'All names: of builtin, importable and announced classes, nested generics, and arbitrary other text or values.',
  'Tests resolve three builtins.',
  ['jsons/_common_impl.py', 'jsons/_load_impl.py', 'jsons/_extra_impl.py', D + 'default_object.py'],
  [('resolving of names', 'jsons/_common_impl.py: get_cls_from_str')],
  'runtime monitor: the outcome with the name against that with the type',
  'Seeded exploration.'),
prop('C33', 'The default (de)serializers do for a user what dump and load do',
  'The default serializers and deserializers are functions that jsons exports under their names. A user who calls the one that belongs to a value (or type) with that value, with or without its type and the documented options, gets what dump (load) gives with these. A user who registers, in a fork, functions for types of the standard or of their own that pass on to the defaults what they get, sees the same dumps, loads, errors and warnings as without these functions.',
  ['inputs', 'histories'], 'All values, types, options and JSON structures that can be dumped and loaded (and damaged ones), and all choices of the types with such functions.',
  'Tests call the defaults through dump and load only.',
  ['jsons/__init__.py', 'jsons/_dump_impl.py', 'jsons/_load_impl.py', 'jsons/_lizers_impl.py', S + 'default_object.py', D + 'default_object.py'],
  [('direct calls', 'all functions in jsons/serializers and jsons/deserializers'), ('export', 'jsons/__init__.py')],
  'runtime monitor: differential observation of dump and load against direct and delegated calls',
  'Seeded exploration.'),
]


def main():
    here = {n[:3].upper() for n in os.listdir(ROOT + '/harness/props')
            if n[0] == 'c' and n.endswith('.py')}
    with open(ROOT + '/properties.jsonl', 'w') as f:
        for p in PROPS:
            if p['id'] not in here:
                continue
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [{'name': n, 'where': w}
                                  for n, w in p['mech']],
                    'observe_at': p['observe'], 'hook_needed': None},
            }) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': 'bash setup.sh',
        'checks': [{
            'property': p['id'],
            'quick_cmd': 'python3 run.py %s quick' % p['id'],
            'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
            'technique': p['technique'], 'level': 'exploration',
            'level_note': p['note']} for p in PROPS if p['id'] in here],
        'not_applicable': [],
        'notes': 'No hooks in /repo are needed: all monitors attach through '
                 'the public API (forks, recording serializers, validators, '
                 'warnings, sys.monitoring).',
    }
    with open(ROOT + '/MANIFEST.json', 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


main()
