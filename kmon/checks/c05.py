"""C05: inheritance chains."""
from ..model import Text, Expr, El, Def, Block, If, For, Template
from ..harness import world_case, predict, load_world, make_ctx

ID = 'C05'
RULE = ('Random chains of 1-5 templates (sometimes with the parent chosen by a condition), '
        'blocks (nested ones, autoblocks) and functions defined, overridden or not at each level '
        'at random and referred to by plain name, self., local., parent., child., parent_block() '
        'from blocks, functions and the root; every level is rendered. Non-trivial when at least '
        'two levels and one override. Oracle: reference interpreter of the lookup rules '
        '(exact output, order of evaluations).')
COUNT = {'quick': 5000, 'thorough': 150000}
MIN = {'renders': 5000, 'references': 7, 'depths': 4}
AUTO = ['aside', 'nav', 'footer']


def num(f):
    return int(f.lstrip('_F')[1:])


class G(object):
    def __init__(self, rng, kind):
        self.rng, self.kind = rng, kind
        self.n = 0
        self.refs = set()
        self.inside = {}    # block: the function it is written in

    def label(self, s):
        self.n += 1
        return Text('%s.%d' % (s, self.n))

    def spied(self):
        self.n += 1
        if self.rng.random() < .12:     # variables of the context
            return Expr('e(%d, %s)' % (self.n, self.rng.choice(['z0', '_u0', 'UP', 's0', "'z' if z0 is None else 'y'"])))
        return Expr('e(%d, %r)' % (self.n, 'v%d' % self.n))

    def ref(self, lvl, above, fns, after=-1):
        """A call of a function, one with a higher index than ``after``."""
        r = self.rng
        names = [f for f in fns if num(f) > after]
        if not names:
            return self.spied()
        f = r.choice(names)
        prefixes = ['', 'self.']
        if f in above[lvl]:
            prefixes += ['local.']
        if lvl > 0 and f in above[lvl - 1]:
            prefixes += ['parent.', 'parent.']
        if lvl < len(above) - 1 and f in above[lvl + 1]:
            prefixes += ['child.']
        p = r.choice(prefixes)
        self.refs.add(p or 'plain')
        arg = r.choice(['', '', '', '%r' % 'arg', 's0', "x='k'"])
        return Expr('%s%s(%s)' % (p, f, arg))

    def deco(self, body):
        """Sometimes wrap in an element, loop or condition."""
        r = self.rng
        x = r.random()
        if x < .2 and self.kind == 'xml':
            return [El(r.choice(['b', 'i', 'p']), [], body)]
        if x < .3:
            return [For('i%d' % self.n, 'range(%d)' % r.randrange(0, 3), body)]
        if x < .4:
            return [If(r.choice(['b0', 'True', 'not b0']), body, None)]
        return body


def chain(rng, kind, prefix=''):
    g = G(rng, kind)
    nlevels = rng.choice([1, 2, 2, 3, 3, 4, 5])
    allf = [rng.choice(['f%d', 'f%d', '_f%d', 'Ff%d']) % i
            for i in range(rng.randrange(1, 4))]
    nblocks = rng.randrange(0, 4)
    auto = kind == 'xml' and rng.random() < .3
    allb = (AUTO if auto else rng.choice([['aa', 'bb', 'cc'], ['aa', 'bb', 'cc'],
                                          ['s0', 'aa', 'b0'], ['Aa', 'aA', 'aa'], ['a_b', 'ab', 'A_b'], ['e', 'f0', 'x']]))[:nblocks]
    own = []            # functions defined at each level
    for lvl in range(nlevels):
        own.append([f for f in allf if rng.random() < (.7 if lvl == 0 else .4)])
    above, acc = [], []
    for o in own:
        acc = sorted(set(acc) | set(o))
        above.append(acc)
    every = above[-1]
    # a plain name or self. must exist when rendering any level: restrict to the root's
    usable = above[0]
    world, overrides = {}, 0
    for lvl in range(nlevels):
        body = []
        fns = usable if rng.random() < .7 else every
        for f in own[lvl]:
            k = num(f)
            inner = [g.label('%s@%d' % (f, lvl))]
            if rng.random() < .5:
                inner.append(Expr('x'))
            if rng.random() < .4:
                inner.append(g.spied())
            if lvl > 0 and f in above[lvl - 1] and rng.random() < .5:
                g.refs.add('parent.')
                inner += g.deco([Expr('parent.%s(x)' % f)])
            for _ in range(rng.randrange(0, 2)):
                inner += g.deco([g.ref(lvl, above, fns, k)])
            rng.shuffle(inner)
            body.append(Def(f, "x='d%d'" % lvl, inner))
            overrides += lvl > 0 and f in above[lvl - 1]

        def finish(name, inner):
            b = Block(name, inner)
            b.auto = auto
            return b

        def block(name, depth=0):
            inner = [g.label('%s@%d' % (name, lvl))]
            if rng.random() < .1:
                return finish(name, [])
            if lvl > 0:
                for _ in range(rng.choice([0, 1, 1, 2])):
                    g.refs.add('parent_block')
                    inner += g.deco([Expr('parent_block()')])
            if rng.random() < .5:
                inner += g.deco([g.ref(lvl, above, fns, g.inside.get(name, -1))])
            if rng.random() < .3:
                inner.append(g.spied())
            rng.shuffle(inner)
            if lvl == 0 and depth == 0 and pending and rng.random() < .3:
                inner.insert(rng.randrange(len(inner) + 1), block(pending.pop(), 1))
            return finish(name, inner)
        if lvl == 0:
            pending = list(allb)
            rng.shuffle(pending)
            main = [Text('root ')]
            for d in body:      # blocks written in functions
                if pending and not auto and rng.random() < .3:
                    g.refs.add('block in function')
                    name = pending.pop()
                    g.inside[name] = num(d.name)
                    d.body.insert(rng.randrange(len(d.body) + 1), block(name, 1))
            while pending:
                main += g.deco([block(pending.pop())]) if not auto else [block(pending.pop())]
                main.append(Text(rng.choice(['', ' - ', '\n'])))
            for _ in range(rng.randrange(0, 3)):
                main.insert(rng.randrange(len(main) + 1),
                            El('u', [], [g.ref(lvl, above, fns)]) if kind == 'xml' else
                            g.ref(lvl, above, fns))
            if auto and rng.random() < .3:
                el = El(AUTO[0], [('id', [Text('plain')])], [Text('not a block')])
                el.noauto = True
                main.append(el)
            body = main + body if rng.random() < .5 else body + main
            if kind == 'xml':
                body = [El('div', [], body)]
        else:
            for name in allb:
                if rng.random() < .45:
                    overrides += 1
                    body.append(block(name))
            rng.shuffle(body)
            if rng.random() < .1:
                body.append(Text('tail@%d' % lvl))
            if not body and kind == 'text':
                body = []
        tpl = Template(kind, body)
        if lvl > 0:
            tpl.extends = 'l%d' % (lvl - 1)
        tpl.auto = auto
        world['l%d' % lvl] = tpl
    if nlevels >= 3 and rng.random() < .2:
        # the last one can skip a level
        world['l%d' % (nlevels - 1)].extends = (
            rng.choice(['b0', 'not b0']), 'l%d' % (nlevels - 2), 'l%d' % (nlevels - 3))
        g.refs.add('conditional extends')
    return g, world, nlevels, overrides


def gen(rng, i, tier):
    kind = 'text' if i % 3 == 0 else 'xml'
    ctx = dict(s0='ctx', b0=rng.random() < .5, z0=None, _u0='under', UP='up')
    while True:
        g, world, nlevels, overrides = chain(rng, kind)
        want = {}
        for n in world:
            try:
                want[n] = predict(world, n, ctx)
            except (NameError, AttributeError):
                pass        # refers to something only a descendant defines
        if 'l%d' % (nlevels - 1) in want:
            break
    opts = {n: dict(autoblocks=AUTO) for n, t in world.items() if t.auto}
    case = world_case(rng, world, 'l%d' % (nlevels - 1), ctx, opts=opts, renders=want,
                      refs=sorted(g.refs), nlevels=nlevels)
    case['nontrivial'] = nlevels > 1 and overrides > 0
    return case


def run(case, mon):
    loader = load_world(case)
    for r in case['refs']:
        mon.seen('references', r)
    mon.seen('depths', case['nlevels'])
    for name in sorted(case['renders'], reverse=True):
        want, wlog = case['renders'][name]
        log = []
        got = loader.import_(name)(make_ctx(case['ctx'], log, True)).render()
        mon.count('renders')
        mon.count('evaluation_events', len(log))
        mon.equal('output of %s' % name, want, got)
        mon.equal('order of evaluations of %s' % name, list(wlog), log)
