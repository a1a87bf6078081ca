import json,os
notes={
'c03-optional-falsy':'missed by C03 (not by C01, C09); values that are false to Python, declared as any type, since',
'c09-any-error':'missed; members that refuse with any error in a fork since',
'c20-announce-global':'missed; what one fork learns from a verbose dump is tried with all forks since',
'c22-process-subclass':'missed; task types of the user since',
'c30-code-prefix':'missed; codes that contain or are contained in others since',
'c02-dunder-in-name':'missed; attribute names with inner double underscores are generated since',
'c03-encode-replace':'missed; strings that an encoding cannot express are generated since',
'c10-list-memo':'missed; equal and identical elements with different results are generated since',
'c11-mro-order':'missed; overriding of class members in hierarchies is generated since',
'c13-dump-time':'missed; the dump time is compared with the clock since',
'c19-stale-class':'missed; classes of the same name in one history since',
'c26-empty-mapped':'missed; mappers that return empty results since',
'c01-decimal-normalize':'missed; decimals with more digits than the context since',
'c24-high-prio':'missed; the setters are compared with the functions since',
'c28-slots-inherited':'missed; hierarchies of mixed styles since',
'c22-strict-lost':'missed; failing attributes of the elements since',
'c11-attr-substring':'missed; attributes whose names are no identifiers since',
'c11-deep-inherit':'missed; hierarchies of up to eight classes since',
'c08-getter-other':'missed; getters for attributes that exist already since',
'c09-many-members':'missed; unions of up to 16 members since',
'c32-only-loaded':'missed; modules that were not imported before since',
'c04-types-pop':'added: the text and bytes functions with the options jdkwargs, types and strip_attr',
'c04-jdkwargs':'added: the text and bytes functions with the options jdkwargs, types and strip_attr',
'c05-union-source':'added: failing unions and optionals as the source and target of an error',
'c06-set-elems':'added: structures with tuples and sets instead of lists',
'c10-enum-memo':'added: elements that are equal but not the same',
'c10-path-memo':'added: elements that are equal but not the same',
'c17-newtype-key':'added: keys that are (de)serialized by a fork',
'c19-option-kept':'added: the same value with other options before',
'c27-strict-iter':'added: untyped structures and parallel dumps of tuples with failing elements',
'c27-tuple-kwargs':'added: untyped structures and parallel dumps of tuples with failing elements',
'c28-own-class':'added: attributes that no class declares',
'c29-getter-first':'added: getters for attributes that are no parameters',
'c29-read-only':'added: properties whose setters refuse',
'c12-private-kept':'missed at first: no object had names with underscores around them; C12 now has such names in all styles of classes',
'c07-with-meta':'missed at first: valid objects now come with meta information sometimes',
'c13-root-actual':'missed at first: verbose dumps as a base class were not taken; now dumped strictly as the base, loaded without a type and compared',
'c27-strict-kept':'missed at first: attrs classes with private attributes were not dumped strictly (a defect of jsons came up with them)',
'c19-load-clear':'missed at first: no load failed between the loads; now the last call before the classes change sometimes fails',
'c17-str-subclass':'missed at first: keys that are instances of subclasses of str now occur in hashed dicts',
'c13-main':'missed at first: no generated class was in the main module; now some are, and some dumps are loaded on a fork made before the dump',
'c23-suppress-toggle':'missed at first: the threads counted warnings of none of their own calls; now threads check that each of their warnings is raised',
'c04-same-list':'missed at first: the aliases of untyped loads of JSON were not looked for',
'c06-empty-set':'missed at first by C06 (empty lists were rare)',
'c22-join-timeout':'missed at first: no task took long; the own threads now return at once from a join with a timeout',
'c12-field-kept':'missed at first: the transformers used were all functions of the form of a name; permuting transformers (the image of one attribute is the name of another) were added',
'c16-int-name':'missed at first: names of members did not look like texts of other values; functional enums with such names were added',
'c02-callable-default':'missed at first: no generated class had instances that can be called; classes with extra special methods were added',
'c10-str-elements':'missed at first: tokens were dumped as ints only; they now take all kinds of JSON',
'c01-path-dot':'missed; paths with inner dots, double separators and the like since',
'c23-announce-iter':'missed; threads that announce classes meanwhile since',
'c25-await-twice':'missed; functions that return something awaitable since',
'c32-builtin-module':'missed; more names with known last parts since',
'c01-zone-key':'missed; all time zones that the platform knows since',
'c15-strip':'missed; strings with white space around them since',
'c02-same-count':'missed by C02 at first (C19 and C11 told it); C02 has objects of one class with different attributes since',
'c29-hint-of-first':'missed by C29 at first; its derived classes may have no constructor of their own since',
'c01-path-abs-dot':'missed by C01 at first (paths had four parts at most); some have up to 40 since'}
p='/verif/tools/caught.json'
d=json.load(open(p)) if os.path.exists(p) else {}
for n in os.listdir('/verif/seeded'):
    m=json.load(open(f'/verif/seeded/{n}/meta.json'))
    d.setdefault(n,{'by':[m['property']]})
    if n in notes: d[n]['first']=notes[n]
for n in list(d):
    if not os.path.isdir('/verif/seeded/'+n): del d[n]
json.dump(d,open(p,'w'),indent=1,sort_keys=True)
