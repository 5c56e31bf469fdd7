"""C06: include and import."""
import os
import shutil
import tempfile

from ..model import (Text, Expr, El, Def, Block, If, For, Include, Import, ModPy, Template)
from ..harness import world_case, load_world, make_ctx, probe

ID = 'C06'
RULE = ('Random graphs of up to 7 templates of both engines that include, import and extend each '
        'other, with function, block and module-level names drawn from one small pool so that '
        'they clash, from loops, functions and blocks, through MockLoader and through FileLoader '
        '(files in sub-directories, with DOCTYPEs and html/html5 modes). Non-trivial when at '
        'least one include or import is rendered. Oracle: reference interpreter, in which each '
        'template has its own functions, parents and module-level names.')
COUNT = {'quick': 5000, 'thorough': 120000}
MIN = {'renders': 3000, 'features': 9, 'via_files': 500}
FN = ['fa', 'fb', 'fc']
MOD = ['MA', 'MB']
BLK = ['xa', 'xb']
DOCTYPES = [None, None, '<!DOCTYPE html>',
            '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" '
            '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">']


class G(object):
    def __init__(self, rng, files):
        self.rng = rng
        self.files = files
        self.feats = set()
        self.n = 0

    def spied(self):
        self.n += 1
        if self.rng.random() < .12:     # variables of the context
            return Expr('e(%d, %s)' % (self.n, self.rng.choice(['z0', '_u0', 'UP', 's0', "'z' if z0 is None else 'y'"])))
        return Expr('e(%d, %r)' % (self.n, 'v%d' % self.n))

    def deco(self, nodes, kind):
        r = self.rng
        self.n += 1
        x = r.random()
        if x < .2 and kind == 'xml':
            return [El(r.choice(['b', 'i', 'p']), [], nodes)]
        if x < .35:
            self.feats.add('in a loop')
            return [For('i%d' % self.n, 'range(%d)' % r.randrange(0, 3), nodes)]
        if x < .45:
            return [If(r.choice(['b0', 'not b0']), nodes, None)]
        return nodes


def world(rng, files):
    g = G(rng, files)
    n = rng.randrange(2, 8)
    # t0 and its ancestors, then what is included and imported
    main_chain = [0] if rng.random() < .6 else [0, 1]
    kinds = [rng.choice(['xml', 'xml', 'text']) for _ in range(n)]
    parent = {}
    if len(main_chain) == 2 and n > 2:
        parent[0] = 1
        kinds[1] = kinds[0]
    pool = [i for i in range(n) if i not in main_chain] if n > 2 else [1]
    if n == 2:
        main_chain = [0]
    lay = set()
    # variables of the context that are called like a template
    called = [i for i in pool if rng.random() < .2]
    for i in pool:
        js = [j for j in pool if j > i and kinds[j] == kinds[i]]
        if js and rng.random() < .25:
            parent[i] = rng.choice(js)
            lay.add(parent[i])
            g.feats.add('included template extends another')
    names, modes, doctypes = {}, {}, {}
    for i in range(n):
        ext, mode, dt = 'txt', None, None
        if kinds[i] == 'xml':
            ext, mode = 'xml', 'xml'
            if files and i not in lay:
                ext = rng.choice(['xml', 'html', 'html5'])
                mode = ext
                if i not in parent:
                    dt = rng.choice(DOCTYPES)
                # .xml files let the DOCTYPE choose
                if ext == 'xml' and dt == '<!DOCTYPE html>':
                    mode = 'html5'
        names[i] = rng.choice(['', 'sub/', 'sub/deep/'] if files else ['', 'sub/']) + \
            rng.choice(['t%d', 'tpl_%d', 'Tpl%d', 'T_%d_X']) % i + '.' + ext
        modes[i], doctypes[i] = mode, dt

    def base(i):
        return names[i].rsplit('/', 1)[-1].rsplit('.', 1)[0]

    def root(i):
        while i in parent:
            i = parent[i]
        return i
    blocks = {i: [b for b in BLK if rng.random() < .6] for i in range(n) if i not in parent}
    own = {i: [f for f in FN if rng.random() < .5] for i in range(n)}
    own[0].append('fz')

    def visible(i):
        s = set()
        while True:
            s.update(own[i])
            if i not in parent:
                return sorted(s)
            i = parent[i]
    out = {}
    allmods = []
    top = [0] + ([1] if 0 in parent else [])
    if rng.random() < .4:
        allmods.append('MZ')
    for i in range(n):
        kind = kinds[i]
        targets = [j for j in pool if j > i]

        def piece(after=''):
            """Something that outputs: calls go to functions later in the alphabet."""
            x = rng.random()
            if targets and x < .35:
                g.feats.add('include')
                return g.deco([Include(names[rng.choice(targets)])], kind)
            # an imported template inherits only when it is rendered
            libs = [j for j in targets if j not in parent]
            if libs and x < .6:
                j = rng.choice(libs)
                alias = None if rng.random() < .5 else rng.choice(
                    ['lib0', 'lib1', 'Lib', 'LIB_2', '_lib'] +
                    [base(k) for k in pool if k not in called])
                if j in called:
                    alias = alias or 'lib0'
                name = alias or base(j)
                g.feats.add('import as' if alias else 'import')
                nodes = [Import(names[j], alias)]
                fs = [f for f in own[j] if f != 'fz']
                if fs:
                    call = Expr('%s.%s(%s)' % (name, rng.choice(fs), rng.choice(['', "'arg'"])))
                    nodes += [El('i', [('title', [call])], [])] if (
                        kind == 'xml' and rng.random() < .2) else g.deco([call], kind)
                return nodes
            fs = [f for f in visible(i) if f > after and f != 'fz']
            if fs and x < .8:
                g.feats.add('own function')
                return [Expr(rng.choice(['', 'self.', 'local.']) + rng.choice(fs) + '()')]
            if called and x < .83:
                g.feats.add('variable called like a template')
                return [Expr(base(rng.choice(called)))]
            if x < .85 and 'MZ' in allmods:
                g.feats.add('module-level name of the including template')
                return [Expr('MZ')]
            if x < .88:
                g.feats.add('function of the including template')
                return [Expr('fz()')]
            return [g.spied()]
        body = []
        mods = [m for m in MOD if rng.random() < .5]
        for m in mods:
            body.append(ModPy('%s = %r' % (m, '%s@%d' % (m, i))))

        if allmods and i == top[-1]:
            body.append(ModPy("MZ = 'MZ@%d'" % i))
        taken = [f for f in FN if f not in visible(i) and i in pool and i not in lay
                 and i not in parent and rng.random() < .15]
        for f in taken:     # a name of its own that is a function of others
            g.feats.add('name that is a function elsewhere')
            body.append(ModPy('%s = %r' % (f, '%s as name@%d' % (f, i))))

        def stuff(label, after='', pb=False):
            nodes = [Text('%s@%d ' % (label, i))]
            for _ in range(rng.randrange(0, 3)):
                nodes += piece(after)
                nodes.append(Text(rng.choice([' ', '; '])))
            if mods and rng.random() < .5:
                g.feats.add('module-level name')
                nodes.append(Expr(rng.choice(mods)))
            if taken and rng.random() < .6:
                nodes.append(Expr(rng.choice(taken)))
            if rng.random() < .3:
                nodes.append(Expr(rng.choice(['s0', 'n0'])))
            if pb and rng.random() < .4:
                nodes.append(Expr('parent_block()'))
            return nodes
        for f in own[i]:
            body.append(Def(f, "x='d'", [Text('%s@%d' % (f, i))] if f == 'fz' else
                            [Expr('x')] + stuff(f, f)))
        if i in parent:
            for b in blocks[root(i)]:
                if rng.random() < .6:
                    g.feats.add('block')
                    body.append(Block(b, stuff(b, pb=True)))
        else:
            main = stuff('main')
            for b in blocks[i]:
                main += [Block(b, stuff(b)), Text(' ')]
            body = body + main
            if kind == 'xml':
                body = [El('div', [], body)]
        t = Template(kind, body)
        t.mode = modes[i]
        t.doctype = doctypes[i]
        if i in parent:
            t.extends = names[parent[i]]
        out[names[i]] = t
    return g, out, names, root(0), [base(i) for i in called]


def gen(rng, i, tier):
    files = i % 3 == 0
    ctx = dict(s0='ctx', n0=3, b0=rng.random() < .5, z0=None, _u0='under', UP='up')
    while True:
        g, w, names, root, called = world(rng, files)
        ctx = {k: ctx[k] for k in ('s0', 'n0', 'b0', 'z0', '_u0', 'UP')}
        ctx.update({k: 'var ' + k for k in called})
        try:
            case = world_case(rng, w, names[0], ctx, feats=sorted(g.feats), files=files)
        except (NameError, AttributeError):
            continue
        if len(case['want']) < 30000:
            break
    t = w[names[root]]
    if files and t.kind == 'xml':
        if t.doctype:
            case['want'] = t.doctype + '\n' + case['want']
        elif t.mode == 'html5':
            case['want'] = '<!DOCTYPE html>\n' + case['want']
    case['nontrivial'] = bool(g.feats & set(['include', 'import', 'import as']))
    return case


def run(case, mon):
    if case['files']:
        import kajiki
        d = tempfile.mkdtemp(prefix='kmon-c06-')
        try:
            for name, s in case['sources'].items():
                fn = os.path.join(d, name)
                os.makedirs(os.path.dirname(fn), exist_ok=True)
                with open(fn, 'w', encoding='utf-8') as f:
                    f.write(s['source'])
            def touch():    # all but the main one are loaded again
                for k, name in enumerate(case['sources']):
                    if name != case['main']:
                        os.utime(os.path.join(d, name), (1500000000 + k,) * 2)
            check(kajiki.FileLoader(d), case, mon, touch if len(case['want']) % 2 else None)
            mon.count('via_files')
        finally:
            shutil.rmtree(d)
    else:
        check(load_world(case), case, mon)


def check(loader, case, mon, between=None):
    tpl = loader.import_(case['main'])
    for k in case['feats']:
        mon.seen('features', k)
    for again in (1, 2):
        if again == 2 and between:
            between()
            mon.count('reloaded')
        log = []
        got = tpl(make_ctx(case['ctx'], log, True)).render()
        mon.count('renders')
        mon.count('evaluation_events', len(log))
        mon.equal('output', case['want'], got)
        mon.equal('order of evaluations', case['log'], log)
