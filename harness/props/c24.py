"""Classes of the serializable base do what the functions do."""
import json

from harness import gen, util

PID = 'C24'
RULE = ('A case is a chain of forks and settings (dump or load arguments, '
        'serializers) from the serializable base, generated classes derived '
        'from some links of it with fields of any type or of one another, and '
        'uses of their methods in random order with options, valid and broken '
        'input. Each result is compared with that of the function called '
        'with the class as type and fork and the settings of the model as '
        'arguments, and the plain ones with a reference dump. All the other '
        'classes are probed too. Distinct are the pairs of history and '
        'class.')
QUICK_N = 700
THOROUGH_N = 800000
NEED = {'classes': 1000, 'dumps': 2000, 'loads': 2000, 'texts': 2000,
        'errors': 800, 'dump_settings': 250, 'load_settings': 250,
        'lizers': 250, 'reference': 500, 'nested': 300, 'set_alike': 120}
ASSUMPTIONS = ['Settings of with_dump and with_load apply to dump, json, load '
               'and from_json, as documented; not to the text and bytes '
               'methods. A new one replaces the former of that kind. All is '
               'done on forks: the base itself stays as it is.']
_counter = [0]


class Token:
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return type(other) is Token and self.n == other.n

    def __repr__(self):
        return 'Token(%s)' % self.n


class TokenNode(gen.Node):
    def __init__(self):
        gen.Node.__init__(self, Token, 'Token')

    def value(self, rng):
        return Token(rng.randint(0, 99))


class Link:
    """A class of the chain and what was set on it."""

    def __init__(self, cls, origin=None):
        self.cls = cls
        self.dump_kw = dict(origin.dump_kw) if origin else {}
        self.load_kw = dict(origin.load_kw) if origin else {}
        self.tag = origin.tag if origin else None
        self.origin = origin


class Facade(gen.Node):
    """A generated class that derives from a link."""

    def __init__(self, ctx, rng, link, others):
        _counter[0] += 1
        self.link = link
        names = gen.rand_names(rng, rng.randint(1, 4), 0)
        self.fields = []
        style = rng.choice(['plain', 'plain', 'dataclass', 'attrs'])
        self.simple = True
        for name in dict.fromkeys(names):
            x = rng.random()
            if others and x < .3:
                node = rng.choice(others)
                ctx.ev('nested')
                if rng.random() < .4:
                    node = gen.ListLike('List', node)
                self.simple = False
            elif x < .4:
                node = TokenNode()
                self.simple = False
            else:
                node = util.rand_node(ctx, rng, 1, .2, untyped=False)
            self.fields.append(gen.Field(name, node))
        name = 'Facade%d' % _counter[0]
        ns = gen.gen_module().__dict__
        ns['link_' + name] = link.cls
        for f in self.fields:
            ns['ann_%s_%s' % (name, f.name)] = f.node.ann
        ann = lambda f: '%s: ann_%s_%s' % (f.name, name, f.name)
        head = 'class %s(link_%s):' % (name, name)
        if style == 'plain':
            lines = [head, '    def __init__(self, %s):' % ', '.join(
                map(ann, self.fields))]
            lines += ['        self.%s = %s' % (f.name, f.name)
                      for f in self.fields]
        else:
            lines = [{'dataclass': '@dataclass',
                      'attrs': '@attr.s(auto_attribs=True)'}[style], head]
            lines += ['    ' + ann(f) for f in self.fields]
        self.source = '\n'.join(lines)
        exec(self.source, ns)
        self.cls = ns[name]
        gen.Node.__init__(self, self.cls, '%s(%s)' % (name, ', '.join(
            '%s: %s' % (f.name, f.node) for f in self.fields)))
        ctx.cleanups.append(lambda: ns.pop(name, None))

    def value(self, rng):
        return self.cls(**{f.name: f.node.value(rng) for f in self.fields})

    def dump(self, value):
        return {f.name: f.node.dump(getattr(value, f.name))
                for f in self.fields}


class Run:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.jsons = util.jsons_()
        base = self.jsons.JsonSerializable
        self.history = []
        self.tags = 0
        self.links = [Link(base)]
        self.links.append(Link(base.fork(), self.links[0]))
        self.facades = []

    def where(self):
        return '\n'.join(self.history)

    def step(self):
        rng, ctx = self.rng, self.ctx
        x = rng.random()
        if x < .25 or not self.facades:
            at = rng.randrange(1, len(self.links)) if rng.random() < .9 else 0
            mates = [f for f in self.facades if f.link is self.links[at]]
            new = Facade(ctx, rng, self.links[at],
                         mates or self.facades if rng.random() < .7 else None)
            self.facades.append(new)
            self.history.append('link %d: %s' % (at, new.source))
            ctx.ev('classes')
        elif x < .55:
            self.setting()
        elif x < .6:
            self.set_like_function()
        else:
            self.probe(rng.choice(self.facades))

    def setting(self):
        rng, ctx, jsons = self.rng, self.ctx, self.jsons
        at = rng.randrange(len(self.links))
        link = self.links[at]
        # Nothing is to be set on the base itself; elsewhere as it comes.
        fork = at == 0 or rng.random() < .5
        what = rng.choice(['fork', 'dump', 'dump', 'load', 'load', 'lizers',
                           'lizers'])
        if what == 'fork':
            new = link.cls.fork()
            fork = True
        elif what == 'dump':
            ctx.ev('dump_settings')
            kw = rng.choice([
                {'strip_nulls': True}, {'strict': True},
                {'key_transformer': jsons.KEY_TRANSFORMER_CAMELCASE},
                {'key_transformer': str.upper}, {'strip_privates': True},
                {'strip_attr': rng.sample(gen.WORDS, 4)},
                {'use_enum_name': False}, {'strip_microseconds': True},
                {'strip_nulls': True, 'strip_class_variables': True}])
            new = link.cls.with_dump(fork=fork, **kw)
        elif what == 'load':
            ctx.ev('load_settings')
            kw = rng.choice([
                {'strict': True}, {'strict': False},
                {'key_transformer': jsons.KEY_TRANSFORMER_SNAKECASE},
                {'key_transformer': str.lower},
                {'attr_getters': {w: lambda: 5 for w in rng.sample(gen.WORDS,
                                                                   4)}}])
            new = link.cls.with_load(fork=fork, **kw)
        else:
            ctx.ev('lizers')
            self.tags += 1
            tag = 'k%d' % self.tags
            mid = link.cls.set_serializer(
                lambda obj, **_: {tag: obj.n}, Token, fork=fork)
            new = mid.set_deserializer(
                lambda obj, cls=None, **_: Token(obj[tag]), Token)
            ctx.check(mid is new, 'lizer-fork', self.where)
        self.history.append('link %d of %d: %s %s' % (
            len(self.links) if fork else at, at, what,
            kw if what in ('dump', 'load') else ''))
        ctx.check((new is link.cls) == (not fork) and
                  isinstance(new, type) and issubclass(new, link.cls),
                  'fork-or-not', lambda: '%r; %s' % (new, self.where()))
        if fork:
            link = Link(new, link)
            self.links.append(link)
        if what == 'dump':
            link.own_dump = kw
        elif what == 'load':
            link.own_load = kw
        elif what == 'lizers':
            link.tag = tag

    def set_like_function(self):
        """The methods set what the functions set on a fork."""
        rng, ctx, jsons = self.rng, self.ctx, self.jsons
        link = rng.choice(self.links)
        ctx.ev('set_alike')
        a = type('A', (), {})
        b = type('B', (rng.choice([object, a]),), {})
        c = type('C', (a, b) if not issubclass(b, a) else (b,), {})
        d = type('D', (c,), {})
        classes = [a, b, c, d]
        ours, theirs = link.cls.fork(), jsons.fork(link.cls)
        untouched = link.cls.fork()
        log = []
        for _ in range(rng.randint(1, 6)):
            kind = rng.choice(['serializer', 'deserializer'])
            func = lambda *args, **kwargs: None
            cls = rng.choice(classes + [tuple(rng.sample(classes, 2))])
            args = rng.choice([{}, {'high_prio': True}, {'high_prio': False},
                               {'high_prio': False}])
            log.append('set_%s(%s, %s)' % (kind, cls, args))
            fork = rng.random() < .3
            if fork:
                untouched, before = ours, ours
                theirs = jsons.fork(theirs)
            new = getattr(ours, 'set_' + kind)(func, cls, **args, **(
                {'fork': True} if fork else {}))
            ctx.check((new is not ours) == fork, 'lizer-fork', lambda: log)
            ours = new
            getattr(jsons, 'set_' + kind)(func, cls, fork_inst=theirs, **args)
            for cls in classes:
                for get in (jsons.get_serializer, jsons.get_deserializer):
                    ctx.check(get(cls, ours) is get(cls, theirs), 'set-alike',
                              lambda: '%s of %s; %s' % (get, cls, log))
                    if fork:
                        ctx.check(get(cls, untouched) is not func, 'set-fork',
                                  lambda: '%s of %s; %s' % (get, cls, log))

    def settings(self, link, what):
        """Later settings of origins go through, until there is an own one."""
        while link:
            if hasattr(link, what):
                return getattr(link, what)
            link = link.origin
        return {}

    def probe(self, facade):
        rng, ctx, jsons = self.rng, self.ctx, self.jsons
        cls, link = facade.cls, facade.link
        value = facade.value(rng)
        dump_kw = self.settings(link, 'own_dump')
        load_kw = self.settings(link, 'own_load')
        call_kw = util.rand_dump_options(rng, verbose=False) \
            if rng.random() < .4 else {}
        where = lambda: '%s of %s\n%s' % (
            facade.cls.__name__, gen.brief(value, 500), self.where())
        ctx.distinct(self.where(), cls)

        def same(what, method, func):
            out, want = util.attempt(method), util.attempt(func)
            found = util.same_outcome(want, out)
            ctx.check(found is None, what, lambda: '%s; %s' % (found, where()))
            if not want.ok:
                ctx.ev('errors')
                ctx.check(str(want.error) == str(out.error), what + '-error',
                          lambda: '%r / %r; %s' % (want, out, where()))
            return want
        # Dumps.
        ctx.ev('dumps')
        plain = same('json', lambda: value.json,
                     lambda: jsons.dump(value, fork_inst=cls, **dump_kw))
        same('dump', lambda: value.dump(**call_kw),
             lambda: jsons.dump(value, fork_inst=cls,
                                **{**call_kw, **dump_kw}))
        if facade.simple and not dump_kw:
            ctx.ev('reference')
            found = gen.json_diff(facade.dump(value), plain.value)
            ctx.check(found is None, 'reference', lambda: '%s; %s' % (
                found, where()))
        ctx.ev('texts')
        jd = rng.choice([{}, {}, {'jdkwargs': {'indent': 2}},
                         {'jdkwargs': {'sort_keys': True}}])
        same('dumps', lambda: value.dumps(**call_kw, **jd),
             lambda: jsons.dumps(value, fork_inst=cls, **call_kw, **jd))
        text = same('str', lambda: str(value),
                    lambda: jsons.dumps(value, fork_inst=cls))
        data = same('dumpb', lambda: value.dumpb(**call_kw, **jd),
                    lambda: jsons.dumpb(value, fork_inst=cls, **call_kw, **jd))
        if link.tag and 'Token' in facade.label and text.ok:
            ctx.check('"%s":' % link.tag in text.value or
                      '[]' in text.value or not self.has_token(value),
                      'nested-fork', lambda: '%s; %s' % (text, where()))
        # Loads.
        if not plain.ok:
            return
        ctx.ev('loads')
        source = plain.value
        if rng.random() < .3:
            source = gen.mutate_json(rng, source)
        call_kw = rng.choice([{}, {}, {'strict': True}, {'strict': False}, {
            'key_transformer': str.lower}])
        same('from_json', lambda: cls.from_json(source, **call_kw),
             lambda: jsons.load(source, cls, fork_inst=cls,
                                **{**call_kw, **load_kw}))
        loaded = same('load', lambda: cls.load(source, **call_kw),
                      lambda: jsons.load(source, cls, fork_inst=cls,
                                         **{**call_kw, **load_kw}))
        if source is plain.value and not dump_kw and not load_kw and \
                not call_kw and link.tag:
            found = gen.diff(value, loaded.value) if loaded.ok else loaded
            ctx.check(found is None, 'restored', lambda: '%s; %s' % (
                found, where()))
        text = rng.choice([text.value, json.dumps(source), '{"a', '[]'])
        same('loads', lambda: cls.loads(text, **call_kw),
             lambda: jsons.loads(text, cls, fork_inst=cls, **call_kw))
        if data.ok:
            same('loadb', lambda: cls.loadb(data.value, **call_kw),
                 lambda: jsons.loadb(data.value, cls, fork_inst=cls,
                                     **call_kw))

    def has_token(self, value):
        if isinstance(value, Token):
            return True
        if isinstance(value, list):
            return any(map(self.has_token, value))
        return any(map(self.has_token, gen.attrs_of(value).values())) \
            if hasattr(value, 'from_json') else False


def case(ctx, rng, i):
    run = Run(ctx, rng)
    for _ in range(rng.randint(4, 12)):
        run.step()
    for facade in run.facades:
        run.probe(facade)
    ctx.sample(run.where())
