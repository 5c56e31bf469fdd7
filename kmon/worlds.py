"""Random worlds of templates (page, layout, included and imported ones) for the checks that
are not about one language feature, and contexts to render them with."""
from .gen import Gen, Env
from .model import Block, Def, Expr, Include, Import, Text, El

XML = ['if', 'for', 'switch', 'with', 'with', 'strip', 'content', 'replace', 'nop', 'py',
       'pyattrs', 'call', 'innerdef']
TEXT = ['if', 'for', 'switch', 'py', 'call', 'innerdef']


def contexts(gen, n):
    out = [gen.ctx]
    for _ in range(n - 1):
        c = {}
        for i in range(2):
            r = gen.rng
            c['n%d' % i] = r.randrange(0, 5)
            c['s%d' % i] = r.choice(gen.words)
            c['b%d' % i] = r.random() < .5
            c['l%d' % i] = [r.randrange(0, 5) for _ in range(r.randrange(0, 4))]
            c['w%d' % i] = [r.choice(gen.words) for _ in range(r.randrange(0, 4))]
        c['z0'] = None
        for name in ('UP', 'camelCase', '_u0'):
            c[name] = gen.rng.choice(gen.words)
        out.append(c)
    return out


def rich_world(rng, kind=None, size=3, depth=(2, 3), spy=.3, parts=(.4, .4, .4), counters=True,
               files=False, cls=Gen, xml=XML, text=TEXT):
    """-> (gen, world); the page is the first of the world."""
    kind = kind or rng.choice(['xml', 'xml', 'text'])

    made = []

    def make(kind, size, functions, depth):
        g = cls(rng, kind, xml if kind == 'xml' else text, depth=depth, size=size, spy=spy,
                counters=counters)
        g.n = 10000 * len(made)     # the numbers of spies tell the templates apart
        made.append(g)
        g.fn_rate = .2 if functions else 0
        return g, g.template(functions=functions, depth=1)
    def named(base, t):
        name = base + {'xml': '.xml', 'text': '.txt'}[t.kind] if files else base
        world[name] = t
        return name
    g, tpl = make(kind, size, rng.choice([0, 1, 2]), rng.choice(depth))
    world = {}
    named('t', tpl)
    used = g.used

    def body_of(t):
        return t.body if t.kind == 'text' else t.body[0].body
    page = body_of(tpl)

    def put(body, n):
        body.insert(rng.randrange(len(body) + 1), n)
    if rng.random() < parts[0]:
        g2, inc = make(rng.choice(['xml', 'text']), 2, rng.choice([0, 0, 1]), 2)
        used |= g2.used | set(['include'])
        put(page, Include(named('inc', inc)))
    if rng.random() < parts[1]:
        g3, lib = make(kind, 2, 0, 1)
        fbody = g3.body(g3.fn_env(g3.env0, [('q', 'int', None)]), 2) + [Text('q'), Expr('q')]
        body_of(lib).insert(0, Def('libf', 'q=3', fbody))
        used |= g3.used | set(['import'])
        # before everything that may call it
        page.insert(0, Import(named('lib', lib), 'lb'))
        page.insert(1, Expr('lb.libf(n0)'))
    if rng.random() < parts[2]:
        g4, lay = make(kind, 2, 0, 1)
        put(body_of(lay), Block('main', g4.body(Env({}), 1)))
        put(body_of(lay), Expr('self.hook(s0)'))
        if rng.random() < .5:
            body_of(lay).insert(0, Def('hook', 'z', [Text('up '), Expr('z')]))
            h = [] if rng.random() < .5 else [Def('hook', 'z', [Text('down '), Expr('z')])]
        else:
            h = [Def('hook', 'z', [Text('down '), Expr('z')])]
        used |= g4.used | set(['layout'])
        defs = [n for n in page if isinstance(n, Def)]
        rest = [n for n in page if not isinstance(n, Def)]
        if rng.random() < .3:
            rest.append(Expr('parent_block()'))
        tpl.body = defs + h + [Block('main', rest)]
        tpl.extends = named('lay', lay)
    g.used = used
    return g, world
