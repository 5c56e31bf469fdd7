"""C10: what is passed to gettext when rendering, and what becomes of the result."""
import itertools

from ..gen import Env
from ..model import Block, El, Include, Template, Text, Expr
from ..i18nmodel import TrGen, TrInterp
from ..harness import emit, make_ctx, build

ID = 'C10'
RULE = ('Random XML documents (all directives, functions, blocks, comments, CDATA sections, '
        'scripts, attributes, expressions that call gettext or _), some with a layout, an '
        'included XML or text template, rendered with a recording gettext that comes from the '
        'context, base_globals or kajiki.i18n (or several of these), with catalogs that return '
        'marked, empty, markup-like or expression-like strings, strip_text on and off. '
        'Non-trivial when at least two messages are looked up. Oracle: a reference '
        'interpreter that calls gettext for exactly the static texts; compared: the output '
        'and the sequence of gettext calls interleaved with the evaluations.')
COUNT = {'quick': 5000, 'thorough': 150000}
MIN = {'renders': 4000, 'messages': 10000, 'features': 12, 'sources_of_gettext': 7,
       'distinct_messages': 300}
XML = ['if', 'for', 'switch', 'with', 'strip', 'content', 'replace', 'nop', 'py', 'pyattrs',
       'comment', 'comment', 'cdata', 'cdata', 'raw', 'call']
TEXT = ['if', 'for', 'switch', 'py', 'call']
CATALOGS = {
    'identity': lambda s: s,
    'upper': lambda s: s.upper(),
    'mark': lambda s: '[[' + s + ']]',
    'empty': lambda s: '',
    'markup': lambda s: '<i>' + s + '</i>&lt;',
    'expression': lambda s: '${n0} $n0 $$ %s {% if %} ' + s,
    'spaces': lambda s: ' \n' + s + '\t',
    'some': lambda s: {'Hello': 'Ciao', 'x': 'ics'}.get(s, s),
    'percent': lambda s: '%s %d {0} ' + s,
}
SOURCES = [s for n in range(4) for s in itertools.combinations(
    ['context', 'base_globals', 'module'], n)]


def recorder(log, name, source):
    f = CATALOGS[name]

    def gettext(s):
        log.append(['gettext', source, str(s)])
        return f(s)
    return gettext


def effective(case_sources):
    for s in ('context', 'base_globals', 'module'):
        if s in case_sources:
            return s
    return None


def gen(rng, i, tier):
    only_text = i % 12 == 11
    world = {}
    big = tier == 'thorough' and rng.random() < .3

    def make(kind, size, functions):
        g = TrGen(rng, kind, XML if kind == 'xml' else TEXT,
                  depth=rng.choice([2, 3, 4] if big else [2, 3]), size=size,
                  spy=rng.choice([.1, .4]), counters=False)
        g.fn_rate = .15 if functions else 0
        tpl = g.template(functions=functions)
        return g, tpl
    g, tpl = make('text' if only_text else 'xml', rng.choice([3, 4, 5]), rng.choice([0, 0, 1, 2]))
    used, ctx = set(g.used), dict(g.ctx)
    world['t'] = tpl
    body = tpl.body if tpl.kind == 'text' else tpl.body[0].body
    if rng.random() < .3:
        g2, inc = make(rng.choice(['xml', 'xml', 'text']), 2, 0)
        ctx.update(g2.ctx)
        used |= g2.used
        used.add('include')
        world['inc'] = inc
        for _ in range(rng.choice([1, 2])):
            body.insert(rng.randrange(len(body) + 1), Include('inc'))
    if rng.random() < .3 and not only_text:
        g3, lay = make('xml', 2, 0)
        ctx.update(g3.ctx)
        used |= g3.used
        used.add('layout')
        lay.body[0].body.insert(0, Block('main', g3.body(Env({}), 1)))
        lay.body[0].body.append(g3.text())
        world['lay'] = lay
        tpl.extends = 'lay'
        inner = tpl.body[0].body
        tpl.body = [Block('main', inner)]
        # functions must not be inside of the block
        defs = [n for n in inner if type(n).__name__ == 'Def']
        tpl.body = defs + [Block('main', [n for n in inner if n not in defs])]
    g.ctx = ctx
    sources = {s: rng.choice(sorted(CATALOGS)) for s in SOURCES[rng.randrange(len(SOURCES))]}
    strip = rng.random() < .2 and not only_text
    eff = effective(sources)
    log = []
    tr = recorder(log, sources[eff], eff) if eff else (lambda s: s)
    want = TrInterp(world, tr, strip).render('t', make_ctx(ctx, log, False))
    files = {}
    for n, t in world.items():
        opts = {'strip_text': True} if strip and t.kind == 'xml' else {}
        files[n] = dict(kind=t.kind, source=emit(t, rng)[0], opts=opts)
    return dict(sources=files, gettext=sources, ctx=ctx, want=want, log=log, feats=sorted(used),
                strip=strip, inc_base=rng.random() < .5,
                nontrivial=sum(1 for x in log if isinstance(x, list)) >= 2)


def run(case, mon):
    import kajiki
    from kajiki import i18n
    log = []
    trs = {s: recorder(log, n, s) for s, n in case['gettext'].items()}
    base = {'gettext': trs['base_globals']} if 'base_globals' in trs else None
    mods = {}
    given = base
    for n, s in case['sources'].items():
        # an included template uses the gettext of the one that includes it
        base = given if case['inc_base'] or n != 'inc' else None
        make = kajiki.XMLTemplate if s['kind'] == 'xml' else kajiki.TextTemplate
        if s['kind'] == 'xml':
            mods[n] = make(s['source'], base_globals=base, **s['opts'])
        else:
            mods[n] = make(s['source'], **s['opts'])
            if base:
                mods[n].base_globals = dict(mods[n].base_globals or {}, **base)
    ctx = make_ctx(case['ctx'], log, True)
    if 'context' in trs:
        ctx['gettext'] = trs['context']
    saved = i18n.gettext
    if 'module' in trs:
        i18n.gettext = trs['module']
    try:
        got = kajiki.MockLoader(mods).import_('t')(ctx).render()
    finally:
        i18n.gettext = saved
    mon.count('renders')
    mon.seen('sources_of_gettext', '+'.join(sorted(trs)))
    for f in case['feats']:
        mon.seen('features', f)
    for x in log:
        if isinstance(x, list):
            mon.count('messages')
            mon.seen('distinct_messages', x[2])
    mon.equal('output', case['want'], got)
    mon.equal('calls of gettext and evaluations', case['log'], log)
