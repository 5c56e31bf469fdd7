"""C19: stream rendering."""
from ..gen import Gen
from ..harness import emit, load_world, make_ctx
from ..model import (Block, Def, Expr, For, Import, Interp, ModPy, Switch, Text, TooBig, children)
from ..worlds import rich_world, XML, TEXT

ID = 'C19'
RULE = ('Random worlds of templates (page, layout, include, import; both engines; functions, calls '
        'with bodies, all directives) that are iterated over, half of them with a loop over an '
        'endless iterator put around a random part of a random body (of the page, a function, a '
        'block, an included template), consumed piece by piece, in full or up to a random point. '
        'Non-trivial when at least three evaluations are at different places. Oracles: the '
        'reference interpreter says which text precedes each spied evaluation and which '
        'evaluations precede each text; what has been handed out at each evaluation, as seen by '
        'the consumer, must contain the text that precedes the evaluation before it; an endless '
        'template must hand out the text of its first rounds before it asks for more.')
COUNT = {'quick': 6000, 'thorough': 200000}
MIN = {'pieces': 30000, 'evaluations_placed': 15000, 'endless': 1000, 'abandoned': 1000,
       'features': 14, 'engines': 2}


class Enough(Exception):
    """The model has run as many rounds of the endless loop as are to be observed."""


class TooFar(Exception):
    """The template asks the endless iterator for more than it may."""


class Log(list):
    """Records with each evaluation how much has been output before it."""

    def __init__(self, measure):
        self.measure, self.at = measure, []

    def append(self, k):
        list.append(self, k)
        self.at.append(self.measure())


def bodies(nodes):
    out = [nodes]
    for n in nodes:
        if not isinstance(n, Switch) or all(b is not nodes for b in children(n)):
            for c in children(n):
                out.extend(bodies(c))
    return out


def wrap(rng, world):
    """Put an endless loop around the rest of a random body."""
    tpl = rng.choice(list(world.values()))
    body = rng.choice(bodies(tpl.body if tpl.kind == 'text' else tpl.body[0].body))
    fixed = [n for n in body if isinstance(n, (Def, Block, Import, ModPy))]
    free = [n for n in body if not isinstance(n, (Def, Block, Import, ModPy))]
    if tpl.extends is not None and body is tpl.body:
        return
    i = rng.randrange(len(free) + 1)
    body[:] = fixed + free[:i] + [For('zz', 'endless()', [Text('#')] + free[i:])]


def gen(rng, i, tier):
    g, world = rich_world(rng, size=rng.choice([2, 3, 4]), depth=(2, 3), spy=.4, xml=XML, text=TEXT)
    endless = i % 2 == 0
    rounds = rng.randrange(1, 6)
    if endless:
        wrap(rng, world)
    name = list(world)[0]
    interp = Interp(world)
    interp.track = True
    log = Log(lambda: len(interp.sofar()))
    ctx = make_ctx(g.ctx, log, False)

    def some():
        for k in range(rounds):
            log.append('round')
            yield k
        raise Enough(interp.sofar() if interp.frozen is None else None)
    ctx['endless'] = some
    done = True
    try:
        want = interp.render(name, ctx)
    except Enough as e:
        want, done = e.args[0], False
        if want is None:        # inside of an attribute: nothing is output before it ends
            return gen(rng, i, tier)
    except RecursionError:
        raise TooBig()
    sources = {}
    for n, tpl in world.items():
        src, _ = emit(tpl, rng)
        sources[n] = dict(kind=tpl.kind, source=src, opts={})
    stop = None
    if not done or rng.random() < .5:
        stop = len(want) if not done and rng.random() < .5 else rng.randrange(len(want) + 1)
    return dict(sources=sources, main=name, ctx=g.ctx, want=want, log=list(log), at=log.at,
                stop=stop, rounds=None if done else rounds, feats=sorted(g.used),
                engine=world[name].kind, nontrivial=len(set(log.at)) >= 3)


def run(case, mon):
    tpl = load_world(case).import_(case['main'])
    handed = []
    log = Log(lambda: sum(map(len, handed)))
    ctx = make_ctx(case['ctx'], log, True)

    def endless():
        k = 0
        while True:
            if k > 200:
                raise TooFar()
            log.append('round')
            yield k
            k += 1
    ctx['endless'] = endless
    want, stop = case['want'], case['stop']
    it = iter(tpl(ctx))
    mon.seen('engines', case['engine'])
    for f in case['feats']:
        mon.seen('features', f)
    size = 0
    try:
        while stop is None or size < stop:
            try:
                piece = next(it)
            except StopIteration:
                break
            mon.count('pieces')
            if not isinstance(piece, str):
                mon.fail('a piece is a %s' % type(piece).__name__)
            handed.append(piece)
            size += len(piece)
    except TooFar:
        mon.fail('the endless iterator was asked for 200 items when the text of the first ones had '
                 'not been handed out', want=want[:stop], got=''.join(handed))
        return
    got = ''.join(handed)
    if stop is None:
        mon.equal('pieces joined', want, got)
    else:
        mon.count('abandoned')
        if case['rounds']:
            mon.count('endless')
            # a piece may contain the beginning of a further round
            mon.equal('beginning of the output', want[:stop], got[:stop])
        else:
            mon.equal('beginning of the output', want[:len(got)], got)
        it.close()
    n = min(len(log), len(case['log']))
    mon.count('evaluations_placed', n)
    mon.equal('evaluations up to here', case['log'][:n], list(log)[:n])
    if stop is not None:
        # nothing but what precedes the text that was handed out, and one more, was evaluated
        due = [k for k, at in zip(case['log'], case['at']) if at <= size]
        if not case['rounds'] and len(log) > len(due) + 1:
            mon.fail('evaluated ahead of the output', want=due, got=list(log), handed=size)
    for j in range(1, n):
        if log.at[j] < case['at'][j - 1]:
            mon.fail('evaluation %d (%s) took place when only %d characters had been handed out' %
                     (j, log[j], log.at[j]), want='at least %d' % case['at'][j - 1],
                     got=log.at[j])
            break
        if log.at[j] < case['at'][j]:
            mon.count('early')
    mon.count('distances', len(set(log.at)))
