"""C01: escaping and injection safety."""
from html.parser import HTMLParser

from ..gen import Gen
from ..model import Text, Expr, El, Block, Include, Raw, Template
from ..harness import SUBS, world_case, run_world

ID = 'C01'
RULE = ('Random programs with all constructs through which values are output (content, '
        'interpolated attributes, py:attrs, py:content, py:replace, functions, py:call bodies, '
        'blocks overridden in a child, includes, script) in xml/html/html5 mode, text and '
        'autoescaped text, rendered with hostile values: strings with markup, quotes, entities, '
        'CDATA ends, template syntax and any characters, objects with hostile __str__, lists, '
        'dicts, numbers, None, and safe values. Non-trivial when a hostile value is output. '
        'Oracles: a reference interpreter predicts the exact output; an independent HTML parser '
        'must not see any of the elements and attributes that the values try to inject.')
COUNT = {'quick': 7000, 'thorough': 200000}
MIN = {'renders': 3000, 'hostile_outputs': 3000, 'kinds': 5, 'value_kinds': 19}

ATOMS = ['<zz9>', '</zz9>', '<zz9 a="b"/>', '" onzz9="1', "' onzz9='1", '"><zz9>', "'><zz9 x='",
         '--><zz9>', ']]><zz9>', '<!--', '<![CDATA[', '</div>', '<', '>', '&', '"', "'", '&amp;',
         '&lt;zz9&gt;', '&#60;zz9&#62;', '&quot;', '&bogus', '${1+1}', '$s0', '$$', '{%if 1%}',
         '%}', '\\', '\n', ' ', 'a', 'b c', 'é', '\u2028', '\U0001f600', '\xa0', '%s', '{0}',
         '\x7f', '</script>', '?>', '<?py 1 ?>', ';', '/', '=', 'javascript:', '\t', 'x' * 50]
SAFE = ['<sf>ok</sf>', '&amp;', '<br/>', 'plain', '<sf a="1">', '&lt;', '']
SAFE_ATTR = ['"><zz9 x="', '<zz9>', '&lt;zz9', 'a"b', '" onzz9="1', 'plain', '&amp;']


def hostile(rng):
    s = ''.join(rng.choice(ATOMS) for _ in range(rng.choice([1, 1, 2, 3, 5])))
    if rng.random() < .04:      # long values, harmless or not for long
        s = rng.choice(['x', ' y', s, '\u00e9\n']) * rng.choice([20, 300, 2000, 5000, 70000])
        s = s[:rng.choice([20000, 20000, 100000])] + rng.choice(ATOMS)
    return s


def value(rng, depth=0):
    """(kind, spec)"""
    r = rng.random()
    if r < .35:
        return 'str', hostile(rng)
    if r < .44:
        base = rng.choice(sorted(SUBS))
        return 'subclass of ' + base, {'$': 'sub', 'base': base, 'v': hostile(rng)}
    if r < .46:
        return 'exception', {'$': 'exception', 'v': hostile(rng)}
    if r < .475:
        return 'type', {'$': 'type', 'v': rng.choice(['int', 'dict', 'Str', 'generator', 'function', 'object',
                                                             'iter', 'map', 'method', 'module', 'types'])}
    if r < .48:
        return 'iterator', {'$': 'iterator', 'v': hostile(rng)}
    if r < .5:
        return 'object', {'$': 'obj', 'v': hostile(rng)}
    if r < .6:
        return 'list', [value(rng, 1)[1] if not depth else hostile(rng)
                        for _ in range(rng.randrange(0, 3))]
    if r < .68:
        return 'dict', {hostile(rng): hostile(rng)}
    if r < .74:
        return 'tuple', {'$': 'tuple', 'v': [hostile(rng)]}
    if r < .78:
        return 'bytes', {'$': 'bytes', 'v': hostile(rng)}
    if r < .84:
        return 'number', rng.choice([0, -1, 12345678901234567890, {'$': 'float', 'v': '1e300'},
                                     {'$': 'float', 'v': 'nan'}])
    if r < .9:
        return 'None', None
    return 'bool', rng.choice([True, False])


class HGen(Gen):
    attr = False

    def setup(self):
        r = self.rng
        self.kinds = set()
        for n in ('s0', 's1', 'UP', 'camelCase'):
            self.ctx[n] = hostile(r)
        for n in ('w0', 'w1'):
            self.ctx[n] = [hostile(r) for _ in range(r.randrange(0, 4))]
        self.vs = []
        for i in range(4):
            kind, spec = value(r)
            self.kinds.add(kind)
            self.ctx['v%d' % i] = spec
            self.vs.append('v%d' % i)
        if r.random() < .3:
            self.twins()
        self.ctx['h0'] = {'$': r.choice(['literal', 'html', 'markup']), 'v': r.choice(SAFE)}
        self.ctx['ha'] = {'$': r.choice(['literal', 'html', 'markup']), 'v': r.choice(SAFE_ATTR)}
        self.hostile_uses = 0
        return self

    def twins(self):
        """Values that are equal, or look the same, but must be output differently: what one
        of them became must not be taken for what another becomes."""
        r = self.rng
        if r.random() < .6:
            same = r.choice(SAFE[:-1] + ['<b>&</b>', '&lt;b&gt;', 'a < b'])
            vs = [same, {'$': r.choice(['markup', 'html', 'literal']), 'v': same},
                  {'$': 'obj', 'v': same}, same]
        elif r.random() < .5:
            vs = r.choice([[1, True, {'$': 'float', 'v': '1.0'}, '1'],
                           [0, False, {'$': 'float', 'v': '-0.0'}, '0'],
                           [True, 1, 'True', {'$': 'float', 'v': '1.0'}]])[:]
        else:
            same = hostile(r)
            vs = [same, {'$': 'sub', 'base': r.choice(sorted(SUBS)), 'v': same}, [same],
                  {'$': 'tuple', 'v': [same]}]
        r.shuffle(vs)
        for i, v in enumerate(vs):
            self.ctx['v%d' % i] = v
        self.kinds.add('twins')

    def value(self, env):
        r = self.rng
        x = r.random()
        if 'twins' in self.kinds and x < .5:
            self.hostile_uses += 1
            return self.spied(r.choice(self.vs))
        if x < .35:
            self.hostile_uses += 1
            return self.spied(r.choice(self.vs))
        if x < .45:
            self.kinds.add('safe')
            if self.attr:
                return r.choice(['ha', 'literal(%r)' % r.choice(SAFE_ATTR + [0, False, 0.0])])
            return r.choice(['h0', 'h0', 'literal(%r)' % r.choice(SAFE + [0, False])])
        self.hostile_uses += 1
        return Gen.value(self, env)

    def attr_parts(self, env):
        self.attr = True
        try:
            return Gen.attr_parts(self, env)
        finally:
            self.attr = False

    def pyattrs(self, env):
        self.attr = True
        try:
            return Gen.pyattrs(self, env)
        finally:
            self.attr = False


XML = ['if', 'for', 'with', 'call', 'innerdef', 'content', 'pyattrs', 'pyattrs', 'replace',
       'strip', 'switch', 'py']
TEXT = ['if', 'for', 'call', 'innerdef', 'switch', 'py']


def gen(rng, i, tier):
    kind = 'text' if i % 4 == 0 else 'xml'
    g = HGen(rng, kind, XML if kind == 'xml' else TEXT, depth=rng.choice([1, 2, 3]),
             size=3, spy=.1).setup()
    g.fn_rate = .15
    tpl = g.template(functions=rng.choice([0, 1, 2]), depth=1)
    auto = rng.random() < .7
    mode = rng.choice(['xml', 'html', 'html5'])
    world, main = {'t': tpl}, 't'
    if rng.random() < .3:
        env = g.env0.child()
        body = tpl.body if kind == 'text' else tpl.body[0].body
        body.append(Block('bb', [Text('['), Expr(g.value(env)), Text(']')]))
        world['c'] = Template(kind, [Block('bb', g.body(env, 1, 1) + [Expr('parent_block()')])])
        world['c'].extends = 't'
        main = 'c'
        g.used.add('block')
    if rng.random() < .3:
        env = g.env0.child()
        inc = g.body(env, 1, 1) or [Text('x')]
        world['inc.x'] = Template(kind, [El('div', [], inc)] if kind == 'xml' else
                                  [Text('inc ')] + inc)
        body = tpl.body if kind == 'text' else tpl.body[0].body
        body.append(Include('inc.x'))
        g.used.add('include')
    if kind == 'xml' and rng.random() < .2:
        tpl.body[0].body.append(Raw('script', [], [
            Text('var x = "'), Expr(rng.choice(g.vs)), Text('";')]))
        if rng.random() < .3:
            el = El(rng.choice(['script', 'style', 'title', 'textarea']), [], [])
            el.content = rng.choice(g.vs)
            tpl.body[0].body.append(el)
        g.used.add('script')
        g.hostile_uses += 1
    for t in world.values():
        t.mode = mode
        t.autoescape = kind == 'text' and auto
    case = world_case(rng, world, main, g.ctx, feats=sorted(g.used),
                      kind='%s %s' % (kind, auto if kind == 'text' else mode),
                      values=sorted(g.kinds), uses=g.hostile_uses)
    if mode == 'html5' and kind == 'xml':
        for s in case['sources'].values():
            s['opts']['is_fragment'] = True
    case['nontrivial'] = g.hostile_uses > 0
    return case


class Sniffer(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.bad = []
        self.events = 0

    def handle_starttag(self, tag, attrs):
        self.events += 1
        if tag.startswith('zz9'):
            self.bad.append('<%s>' % tag)
        for k, v in attrs:
            if k.startswith('onzz9'):
                self.bad.append('%s=' % k)

    handle_startendtag = handle_starttag

    def handle_endtag(self, tag):
        self.events += 1
        if tag.startswith('zz9'):
            self.bad.append('</%s>' % tag)


def run(case, mon):
    got = run_world(case, mon)
    mon.seen('kinds', case['kind'])
    for v in case['values']:
        mon.seen('value_kinds', v)
    mon.count('hostile_outputs', case['uses'])
    if case['kind'].startswith('xml '):
        p = Sniffer()
        p.feed(got)
        p.close()
        mon.count('parser_events', p.events)
        if p.bad:
            mon.fail('injected markup seen by a parser', got=' '.join(p.bad), want='')
