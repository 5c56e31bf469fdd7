"""C02: well-formed output with exactly the intended elements and attributes."""
import xml.parsers.expat

from ..gen import Gen, TAGS
from ..model import El, Text, Expr, Raw
from ..harness import world_case, load_world, make_ctx, probe

ID = 'C02'
RULE = ('Random trees of elements with static, interpolated and optional attributes, py:attrs '
        '(mappings, pairs, None), py:content, py:replace, py:strip under conditions and loops, '
        'also as attributes together with other directives, rendered in xml mode with values of '
        'many types; non-trivial when at least two elements or attributes depend on values. '
        'Oracle: expat must accept the output, and its events (elements, attribute values, '
        'character data, comments) must be those the reference interpreter predicts.')
COUNT = {'quick': 8000, 'thorough': 200000}
MIN = {'renders': 5000, 'xml_events': 50000, 'features': 8}
WORDS = ['alpha', 'x & y', 'a<b', 'c > d', 'say "hi"', "it's", 'é\u4e2d', 'tab\tx', '&amp;', ']]>',
         'z', '0', 'a;b', '<b>']
NAMES = ['id', 'class', 'title', 'data-k', 'href', 'xml:lang', 'ns:a', 'Upper', 'a.b', '_u',
         'style', 'value', 'name', 'type', 'for', 'checked', 'test', 'function']
PYNAMES = ['p0', 'p-1', 'ns:p', 'P2', 'selected', 'disabled', 'x']


class TGen(Gen):
    def setup(self):
        r = self.rng
        for i in range(4):
            self.ctx['v%d' % i] = r.choice([None, None, 0, 1, True, False, '', ' ', 'val', 'a"b<c>&d',
                                            "q'q", 'é', [1, 'x'], {'$': 'float', 'v': '1.5'},
                                            {'$': 'obj', 'v': '<o>'}])
        return self

    def value(self, env):
        r = self.rng.random()
        if r < .4:
            return self.spied('v%d' % self.rng.randrange(4))
        if r < .5:
            return '%s if %s else None' % (self.expr(env, 'str', 1), self.expr(env, 'bool', 1))
        return Gen.value(self, env)

    def el(self, env, depth):
        r = self.rng
        if r.random() < .06:
            return self.script(env)
        n = Gen.el(self, env, depth)
        n.attrs = [(name, self.attr_parts(env)) for name in
                   r.sample([x for x in NAMES if x != 'checked'], r.choice([0, 1, 1, 2, 3, 5]))]
        if n.pyattrs is None and r.random() < .25:
            self.used.add('pyattrs')
            n.pyattrs = self.pyattrs(env)
        return n

    def script(self, env):
        r = self.rng
        self.used.add('script')
        n = Raw(r.choice(['script', 'style']), [(name, self.attr_parts(env)) for name in
                                                r.sample(['src', 'type', 'media'], r.randrange(3))],
                r.choice([[], [], [Text('a < b && c > d')], [Text('x'), Expr(self.spied('n0'))],
                          [Text("p > a { content: '&amp;' }\n")]]))
        if r.random() < .4:
            n.strip = r.choice(['', self.expr(env, 'bool', 1)])
        if r.random() < .3:
            n.pyattrs = self.pyattrs(env)
        return n

    def pyattrs(self, env):
        r = self.rng
        names = r.sample(PYNAMES, r.randrange(0, 4))
        items = [(n, self.value(env)) for n in names]
        form = r.random()
        if form < .1:
            return r.choice(['None', '{}', '[]', '()'])
        if form < .5:
            return '{%s}' % ', '.join('%r: %s' % x for x in items)
        if form < .75:
            return '[%s]' % ', '.join('(%r, %s)' % x for x in items)
        if form < .81:    # other mappings
            return r.choice(["__import__('collections').UserDict({%s})",
                             "__import__('types').MappingProxyType({%s})"]) % (
                ', '.join('%r: %s' % x for x in items))
        if form < .87:
            return 'dict([%s])' % ', '.join('(%r, %s)' % x for x in items)
        if form < .95:
            return '((k, v) for k, v in [%s])' % ', '.join('(%r, %s)' % x for x in items)
        return '{%s} if %s else None' % (', '.join('%r: %s' % x for x in items),
                                         self.expr(env, 'bool', 1))


FEATS = ['if', 'for', 'strip', 'strip', 'content', 'replace', 'pyattrs', 'nop', 'with', 'switch',
         'comment']


def deep(rng):
    """Elements stripped or not around hundreds of others."""
    def el(tag, *body):
        n = El(tag, [('title', [Text('t'), Expr(rng.choice(['n0', 's0', 'v0']))])], list(body))
        if rng.random() < .8:
            n.strip = rng.choice(['b0', 'not b0', 'b1', 'n0 > 2'])
        return n
    n = el('p')
    for k in range(14):
        leaves = [el('b') for _ in range(rng.choice([10, 40, 60]))]
        n = el('div', *(leaves + [n] + [el('i') for _ in range(20)]))
    return n


def gen(rng, i, tier):
    g = TGen(rng, 'xml', FEATS, depth=rng.choice([2, 3, 4]), size=rng.choice([2, 3]), spy=.05,
             words=WORDS).setup()
    tpl = g.template()
    if rng.random() < .3:
        tpl.body[0] = g.el(g.env0.child(), 3)
    if i % 400 == 7:
        tpl.body[0] = deep(rng)
        g.used.update(['strip', 'deep'])
    case = world_case(rng, {'t': tpl}, 't', g.ctx, feats=sorted(g.used),
                      emit_kw={'xml': dict(attr_form=rng.choice([0, .5, .9]))})
    src = case['sources']['t']['source']
    case['nontrivial'] = len(g.used) >= 2 and src.count('<') > 2
    return case


def events(text):
    out = []

    def data(s):
        if out and out[-1][0] == 'text':
            out[-1] = ('text', out[-1][1] + s)
        else:
            out.append(('text', s))
    p = xml.parsers.expat.ParserCreate()
    p.StartElementHandler = lambda n, a: out.append(('start', n, sorted(a.items())))
    p.EndElementHandler = lambda n: out.append(('end', n))
    p.CharacterDataHandler = data
    p.CommentHandler = lambda s: out.append(('comment', s))
    p.Parse('<wrap>' + text + '</wrap>', True)
    return out


def run(case, mon):
    tpl = load_world(case).import_('t')
    got = tpl(make_ctx(case['ctx'], [], True)).render()
    mon.count('renders')
    for k in case['feats']:
        mon.seen('features', k)
    want = events(case['want'])
    try:
        have = events(got)
    except xml.parsers.expat.ExpatError as e:
        mon.fail('output is not well formed: %s' % e, want=case['want'], got=got)
        return
    mon.count('xml_events', len(have))
    for x in have:
        if x[0] == 'start':
            mon.seen('element_shapes', '%s %s' % (x[1], [a for a, _ in x[2]]))
    mon.equal('tree', [list(x) for x in want], [list(x) for x in have], output=got)
