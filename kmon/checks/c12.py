"""C12: histories of file operations and loads, checked against a model of the loader."""
import itertools
import os
import random
import shutil
import sys
import tempfile

from ..core import REPO
from ..sched import Scheduler

ID = 'C12'
RULE = ('Histories of writes, deletions, renames, touches, shadowing in other directories, '
        'broken contents, loads and renderings over 1-5 directories and 9 names (templates that '
        'include and extend each other by name) with reload on or off and forced modes, text '
        'autoescaping and base_globals; PackageLoader with several extensions per name; template options and encodings given to the '
        'loader or to load(); files '
        'changed while they are being compiled; threads that load (and one that writes) through '
        'one loader, preempted at random lines. Non-trivial when a load happens after a file '
        'operation on that name or several threads load. Oracle: a model of the path, the cache '
        'and the modification times; every version of a file has its own text, so a rendering '
        'tells which version was used; loads overlapping writes must return a version that was '
        'current during the load.')
COUNT = {'quick': 2600, 'thorough': 60000}
MIN = {'loads': 10000, 'renders': 8000, 'reloads': 1500, 'ioerrors': 300, 'broken': 200,
       'same_class': 1500, 'shadowed': 300, 'package_loads': 500, 'loads_during_writes': 800,
       'changed_during_compilation': 20, 'thread_switches': 5000, 'options': 70, 'option_sets': 40, 'many_templates': 20}
ASSUMPTIONS = ['every change of a file changes its modification time']

NAMES = ['a.xml', 'b.html', 'c.txt', 'sub/d.xml', 'sub/e.txt', 'f.html',
         'page.v2.xml', 'sub.d/h.txt.html', 'g.html5']
KIND = {'xml': 'xml', 'html': 'xml', 'html5': 'xml', 'txt': 'text'}


class Gone(Exception):
    pass


class Broken(Exception):
    pass


# -- the model -------------------------------------------------------------------------

class Model(object):
    """Files: {(dir, name): (mtime, content)}."""

    def __init__(self, ndirs, opts):
        self.ndirs, self.opts = ndirs, opts
        self.files = {}
        self.cache = {}         # reload off: name -> content of the first good load

    def find(self, name):
        for d in range(self.ndirs):
            if (d, name) in self.files:
                return d
        return None

    def load(self, name):
        if not self.opts['reload'] and name in self.cache:
            return self.cache[name]
        d = self.find(name)
        if d is None:
            raise Gone(name)
        content = self.files[d, name][1]
        if content['broken']:
            raise Broken(self.kind(name))
        self.cache[name] = content
        return content

    def kind(self, name):
        if self.opts['force_mode']:
            return 'text' if self.opts['force_mode'] in ('text', 'txt') else 'xml'
        return KIND[name.rsplit('.', 1)[1]]

    def mode(self, name):
        if self.opts['force_mode']:
            return self.opts['force_mode']
        return name.rsplit('.', 1)[1]

    def value(self, name):
        if self.kind(name) == 'xml' or self.opts['autoescape_text']:
            return '&lt;&amp;'
        return '<&'

    def br(self, name):
        if self.kind(name) == 'text':
            return '|'
        return '<br/>' if self.mode(name) == 'xml' else '<br>'

    def render(self, name):
        """What rendering gives, with everything it loads; raises Gone or Broken."""
        pre = ''
        if self.mode(name) == 'html5':
            pre = '<!DOCTYPE html>\n'
        return pre + self.page(name)

    def page(self, name):
        chain = [name]
        c = self.load(name)
        contents = [c]
        while c['ext']:
            chain.append(c['ext'])
            c = self.load(c['ext'])
            contents.append(c)
        # the most derived block
        root, rc = chain[-1], contents[-1]
        if rc.get('empty'):
            return ''
        blk = self.block(chain[0], contents[0])
        if self.kind(root) == 'xml':
            out = '<div>R%d%s%s' % (rc['v'], self.br(root), self.value(root))
            return out + blk() + self.includes(rc['inc']) + '</div>'
        return 'R%d%s%s' % (rc['v'], self.br(root), self.value(root)) + blk() + \
            self.includes(rc['inc'])

    def block(self, name, c):
        def out():
            s = '[B%d%s' % (c['v'], self.br(name))
            if c['ext']:
                s += self.includes(c['inc'])
            return s + ']'
        return out

    def includes(self, names):
        return ''.join(self.page(n) for n in names)


def source(kind, c):
    if c['broken']:
        return '<div>' if kind == 'xml' else 'x ${1 +} y'
    if c.get('empty'):
        return ''
    v = c['v']
    if kind == 'xml':
        inc = ''.join('<py:include href="%s"/>' % n for n in c['inc'])
        hook = '<?py %%import sys; sys.kmon_hook(%d) ?>' % v if c.get('hook') else ''
        if c['ext']:
            return ('<py:extends href="%s">%s<py:block name="m">[B%d<br/>%s]</py:block>'
                    '</py:extends>' % (c['ext'], hook, v, inc))
        return ('<div>%sR%d<br/>${"&lt;&amp;"}<py:block name="m">[B%d<br/>]</py:block>%s</div>'
                % (hook, v, v, inc))
    inc = ''.join('{%%include "%s"%%}' % n for n in c['inc'])
    if c['ext']:
        return '{%%extends "%s"%%}{%%block m%%}[B%d|%s]{%%end%%}' % (c['ext'], v, inc)
    return 'R%d|${"<&"}{%%block m%%}[B%d|]{%%end%%}%s' % (v, v, inc)


# -- generation ------------------------------------------------------------------------

def new_content(rng, model, name, counter, broken=.08):
    i = NAMES.index(name)
    later = [n for n in NAMES[i + 1:] if not n.endswith('html5')]
    same = [n for n in later if model.kind(n) == model.kind(name)]
    c = dict(v=next(counter), broken=rng.random() < broken, ext=None, inc=[])
    if model.kind(name) == 'text' and not c['broken'] and rng.random() < .1:
        c['empty'] = True
        return c
    if rng.random() < .3 and later:
        c['inc'] = [rng.choice(later) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < .25 and same:
        c['ext'] = rng.choice(same)
    return c


def gen_history(rng, tier):
    opts = dict(reload=rng.random() < .7,
                force_mode=rng.choice([None] * 5 + ['xml', 'html', 'text', 'txt']),
                autoescape_text=rng.random() < .3)
    model = Model(rng.choice([1, 2, 2, 3, 5]), opts)
    counter, stamps = itertools.count(1), itertools.count(1)
    ops = []
    names = rng.sample(NAMES, rng.choice([2, 3, 4, 9]))
    dirty = {}      # name -> changed since the last good load
    used = [1000000]
    seen = {}       # a time stamp identifies the content a file of that name once had

    def fits(d, name, t, v):
        return seen.setdefault((d, name, t), v) == v

    def stamp():
        # unique, forwards or backwards, sometimes by less than a second
        while True:
            t = 1500000000000 + rng.choice([rng.randrange(10 ** 9), rng.randrange(3000)])
            if t not in used:
                used.append(t)
                return t

    def outcome(f, name):
        try:
            return ['ok', f(name)]
        except Gone:
            return ['gone']
        except Broken as e:
            return ['broken', e.args[0]]
    for name in names:
        if rng.random() < .8:
            d = rng.randrange(model.ndirs)
            c = new_content(rng, model, name, counter)
            t = stamp()
            fits(d, name, t, c['v'])
            model.files[d, name] = (t, c)
            ops.append(['write', d, name, t, source(model.kind(name), c)])
    n_interesting = 0
    for _ in range(rng.choice([8, 15, 30]) * (2 if tier == 'thorough' else 1)):
        r = rng.random()
        name = rng.choice(names)
        d = rng.randrange(model.ndirs)
        have = sorted(k for k in model.files)
        if r < .25:
            c = new_content(rng, model, name, counter)
            t = stamp()
            cur = model.find(name)
            shadow = None
            if cur is not None and d < cur:
                shadow = 'shadow'
                same_t = model.files[cur, name][0]
                if rng.random() < .4 and fits(d, name, same_t, c['v']):
                    t = same_t              # the same time as the one it hides
            fits(d, name, t, c['v'])
            model.files[d, name] = (t, c)
            ops.append(['write', d, name, t, source(model.kind(name), c), shadow])
        elif r < .33 and have:
            d, name = rng.choice(have)
            del model.files[d, name]
            ops.append(['delete', d, name])
        elif r < .38 and have:
            d, name = rng.choice(have)
            t = stamp()
            fits(d, name, t, model.files[d, name][1]['v'])
            model.files[d, name] = (t, model.files[d, name][1])
            ops.append(['touch', d, name, t])
        elif r < .43 and have:
            d, name = rng.choice(have)
            to = rng.randrange(model.ndirs)
            t, c = model.files[d, name]
            if to == d or not fits(to, name, t, c['v']):
                continue
            model.files[to, name] = model.files.pop((d, name))
            ops.append(['move', d, name, to])
        else:
            # load and render
            before = outcome(model.load, name)
            same = before[0] == 'ok' and name in dirty and not dirty[name]
            op = ['load', name, before[0] if before[0] != 'broken' else before]
            if before[0] == 'ok':
                op.append(outcome(model.render, name))
                op.append(same)
                if name in dirty and dirty[name]:
                    n_interesting += 1
                dirty[name] = False
            elif name in dirty:
                dirty[name] = True
            ops.append(op)
            continue
        dirty.update({name: True} if name in dirty else {})
    return dict(kind='history', ndirs=model.ndirs, opts=opts, ops=ops,
                path=rng.choice(['list', 'string']), nontrivial=n_interesting > 0)


def gen_package(rng, tier):
    counter = itertools.count(1)
    exts = ['xml', 'html', 'html5', 'txt']
    files, ops = {}, []
    names = ['m', 'page', 'sub.m', 'sub.other']
    force = rng.choice([None, None, None, 'xml', 'html', 'html5'])
    reload, first = rng.random() < .75, {}
    t = [1500000000000]

    def stamp():
        t[0] += rng.choice([300, 5000])
        return t[0]
    for _ in range(rng.choice([6, 10, 16])):
        name = rng.choice(names)
        r = rng.random()
        if r < .4:
            ext = rng.choice(exts)
            v = next(counter)
            files[name, ext] = v
            src = '<p>V%d<br/></p>' % v
            ops.append(['write', name, ext, stamp(), src])
        elif r < .5 and files:
            name, ext = rng.choice(sorted(files))
            del files[name, ext]
            ops.append(['delete', name, ext])
        else:
            have = [e for e in exts if (name, e) in files]
            if name in first:    # reload is off
                ops.append(['load', name, first[name]])
            elif not have:
                ops.append(['load', name, None])
            else:
                v = files[name, have[0]]
                ops.append(['load', name, {
                    'xml': '<p>V%d<br/></p>', 'html': '<p>V%d<br></p>',
                    'html5': '<!DOCTYPE html>\n<p>V%d<br></p>', 'txt': '<p>V%d<br/></p>'
                }[force or have[0]] % v])
                if not reload:
                    first[name] = ops[-1][2]
    decoys = ['page.bak.html', 'page.xml.orig', 'm.py', 'm_2.xml', 'pagex.html', 'm', 'mm.txt',
              'page.XML~', 'm.min.xml', 'other.old.txt', 'm.htm', 'page.']
    return dict(kind='package', ops=ops, force=force, reload=reload, decoys=rng.sample(decoys, rng.choice([0, 2, 5])), nontrivial=any(o[0] == 'load' for o in ops))


def gen_options(rng):
    """Options of the loader reach every template it loads."""
    opts, where = {}, rng.choice(['loader', 'load', 'both'])
    if rng.random() < .5:
        opts['strip_text'] = True
    if rng.random() < .5:
        opts['cdata_scripts'] = False
    force = rng.choice([None, 'xml', 'html'])
    if force:
        opts['force_mode'] = force
        if rng.random() < .5:
            opts['xml_autoblocks'] = ['nav']
    enc = rng.choice(['utf-8', 'latin-1', 'utf-16', None])
    g = rng.choice(['g', 'g&', '<g>'])
    ext = rng.choice(['xml', 'html'])
    mode = force or ext
    deep = rng.random() < .6 and where == 'loader'
    w = '' if opts.get('strip_text') else ' '
    src = '<div> <p> \xe9 $G</p> <nav>N<br/></nav><script>a &lt; b</script>%s</div>' % (
        '<py:include href="q.%s"/>' % ext if deep else '')
    inc = '<i> ${G} \xe9 <br/></i>'
    eg = g.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    br = '<br/>' if mode == 'xml' else '<br>'
    script = 'a &lt; b' if 'cdata_scripts' in opts else (
        '/*<![CDATA[*/a < b/*]]>*/' if mode == 'xml' else 'a < b')
    nav = ('N%s' if 'xml_autoblocks' in opts else '<nav>N%s</nav>') % br
    want = '<div>%s<p>%s\xe9 %s</p>%s%s<script>%s</script>%s</div>' % (
        w, w, eg, w, nav, script,
        '<i>%s%s \xe9%s%s</i>' % (w, eg, w, br) if deep else '')
    return dict(kind='options', opts=opts, where=where, encoding=enc, g=g, ext=ext, src=src,
                inc=inc, want=want)


def gen_many(rng):
    """Many templates in one loader: loads, changes of some of the files, loads again."""
    n = rng.choice([12, 40, 150, 400])
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        order = list(range(n))
        rng.shuffle(order)
        ops.append(['load', order])
        ops.append(['write', rng.sample(range(n), rng.choice([0, 1, n // 3]))])
    return dict(kind='many', n=n, ops=ops + [['load', list(range(n))]],
                reload=rng.random() < .6, nontrivial=True)


def gen(rng, i, tier):
    k = i % 20
    if k < 12:
        return gen_history(rng, tier)
    if k < 15:
        return gen_package(rng, tier)
    if k == 18:
        return gen_many(rng) if i % 60 == 58 else gen_options(rng)
    if k == 15:
        return dict(kind='compiling', name=rng.choice(['a.xml', 'b.html', 'sub/d.xml']),
                    writes=rng.choice([1, 1, 2]), backwards=rng.random() < .3,
                    via=rng.choice(['load', 'include']))
    if k < 18:
        names = rng.sample(['a.xml', 'b.html', 'c.txt', 'sub/d.xml'], rng.choice([1, 2]))
        return dict(kind='threads', names=names, nthreads=rng.choice([2, 3, 4]),
                    reload=rng.random() < .7, seed=rng.randrange(10 ** 9),
                    rate=rng.choice([.002, .02, .2]),
                    writes=[])
    names = rng.sample(['a.xml', 'b.html', 'c.txt', 'sub/d.xml'], rng.choice([1, 1, 2]))
    return dict(kind='threads', names=names, nthreads=rng.choice([2, 3]),
                reload=True, seed=rng.randrange(10 ** 9), rate=rng.choice([.002, .02, .2]),
                writes=[rng.choice(names) for _ in range(rng.choice([2, 4, 6]))])


# -- execution ---------------------------------------------------------------------------

def put(path, text, ms):
    """Write atomically, with the given modification time."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.new~'
    with open(tmp, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    os.utime(tmp, ns=(ms * 1000000, ms * 1000000))
    os.replace(tmp, path)


def expect_error(mon, what, outcome, f):
    from kajiki.template import KajikiSyntaxError
    from kajiki.xml_template import XMLTemplateParseError
    want = {'gone': IOError, 'xml': XMLTemplateParseError, 'text': KajikiSyntaxError}[
        outcome[1] if outcome[0] == 'broken' else 'gone']
    mon.count('broken' if outcome[0] == 'broken' else 'ioerrors')
    try:
        got = f()
    except want:
        mon.count('comparisons')
    except Exception as e:
        mon.fail('%s raised another error' % what, want=want.__name__,
                 got='%s: %s' % (type(e).__name__, e))
    else:
        mon.fail('%s did not fail' % what, want=want.__name__, got=repr(got))


def run(case, mon):
    mon.seen('kinds', case['kind'])
    d = tempfile.mkdtemp(prefix='kmon-c12-')
    try:
        globals()['run_' + case['kind']](case, mon, d)
    finally:
        shutil.rmtree(d)


def run_history(case, mon, top):
    import kajiki
    dirs = [os.path.join(top, 'd%d' % i) for i in range(case['ndirs'])]
    for d in dirs:
        os.makedirs(d)
    path = dirs if case['path'] == 'list' or len(dirs) == 1 else ';'.join(dirs)
    if len(dirs) == 1 and case['path'] == 'string':
        path = dirs[0]
    loader = kajiki.FileLoader(path, **case['opts'])
    last = {}
    for k, op in enumerate(case['ops']):
        what = 'step %d %s' % (k, op[:2])
        if op[0] == 'write':
            put(os.path.join(dirs[op[1]], op[2]), op[4], op[3])
            if len(op) > 5 and op[5]:
                mon.count('shadowed')
        elif op[0] == 'delete':
            os.unlink(os.path.join(dirs[op[1]], op[2]))
        elif op[0] == 'touch':
            os.utime(os.path.join(dirs[op[1]], op[2]), ns=(op[3] * 1000000,) * 2)
        elif op[0] == 'move':
            to = os.path.join(dirs[op[3]], op[2])
            os.makedirs(os.path.dirname(to), exist_ok=True)
            os.replace(os.path.join(dirs[op[1]], op[2]), to)
        else:
            name = op[1]
            mon.count('loads')
            if op[2] != 'ok':
                expect_error(mon, what, op[2] if isinstance(op[2], list) else [op[2]],
                             lambda: (loader.load if k % 2 else loader.import_)(name))
                continue
            tpl = (loader.load if k % 2 else loader.import_)(name)
            if op[4]:
                mon.count('same_class')
                if tpl is not last[name]:
                    mon.fail('%s: another class though nothing changed' % what)
            elif name in last:
                mon.count('reloads')
            last[name] = tpl
            if tpl.loader is not loader:
                mon.fail('%s: the template has another loader' % what)
            if op[3][0] == 'ok':
                mon.count('renders')
                mon.equal('%s: rendered' % what, op[3][1], tpl({}).render())
            else:
                expect_error(mon, what + ' rendering', op[3], lambda: tpl({}).render())


def run_options(case, mon, top):
    import kajiki
    for n, text in (('p', case['src']), ('q', case['inc'])):
        with open(os.path.join(top, n + '.' + case['ext']), 'wb') as f:
            f.write(text.encode(case['encoding'] or 'utf-8'))
    opts = dict(case['opts'], base_globals={'G': case['g']})
    enc = {} if case['encoding'] is None else {'encoding': case['encoding']}
    if case['where'] == 'both':
        # those of the call win
        own = dict((k, opts.pop(k)) for k in ('strip_text', 'cdata_scripts') if k in opts)
        other = dict((k, not v) for k, v in own.items())
        if enc:
            own.update(enc)
            other['encoding'] = 'ascii'
        tpl = kajiki.FileLoader(top, **dict(opts, **other)).load('p.' + case['ext'], **own)
    elif case['where'] == 'loader':
        tpl = kajiki.FileLoader(top, **dict(opts, **enc)).load('p.' + case['ext'])
    else:
        args = [enc.pop('encoding')] if enc and len(case['g']) == 1 else []
        loader = kajiki.FileLoader(top, **opts)
        tpl = loader.load('p.' + case['ext'], *args, **enc)
        if loader.load('p.' + case['ext'], *args, **enc) is not tpl:
            mon.fail('another class though nothing changed')
    mon.count('options')
    mon.seen('option_sets', repr(sorted(case['opts'])) + case['where'] + str(case['encoding']))
    mon.equal('rendered with the options', case['want'], tpl({}).render())


def run_many(case, mon, top):
    import kajiki
    name = lambda k: '%st%d.%s' % ('sub/' if k % 5 == 0 else '', k, ['xml', 'txt', 'html'][k % 3])
    stamp = itertools.count(1500000000000, 700)
    version, used, classes = {}, {}, {}

    def write(k):
        version[k] = version.get(k, 0) + 1
        put(os.path.join(top, name(k)), '<p>%d.%d</p>' % (k, version[k]), next(stamp))
    for k in range(case['n']):
        write(k)
    loader = kajiki.FileLoader(top, reload=case['reload'])
    for op, ks in case['ops']:
        for k in ks:
            if op == 'write':
                write(k)
                continue
            tpl = loader.load(name(k))
            mon.count('loads')
            if not case['reload'] or used.get(k) == version[k]:
                if classes.setdefault(k, tpl) is not tpl:
                    mon.fail('another class of %s though nothing changed' % name(k))
            if case['reload'] or k not in used:
                used[k] = version[k]
            classes[k] = tpl
            mon.equal('rendered %s' % name(k), '<p>%d.%d</p>' % (k, used[k]), tpl({}).render())
            mon.count('renders')
    mon.count('many_templates')


serial = itertools.count()


def run_package(case, mon, top):
    import kajiki
    pkg = 'kmonpkg%d_%d' % (os.getpid(), next(serial))
    base = os.path.join(top, pkg)
    for d in (base, os.path.join(base, 'sub')):
        os.makedirs(d)
        open(os.path.join(d, '__init__.py'), 'w').close()
        for decoy in case.get('decoys', ()):
            put(os.path.join(d, decoy), '<p>decoy</p>', 1500000000000)
    sys.path.insert(0, top)
    import importlib
    importlib.invalidate_caches()

    def fn(name, ext):
        return os.path.join(base, *name.split('.')) + '.' + ext
    try:
        loader = kajiki.PackageLoader()
        if case.get('force') or not case.get('reload', True):
            loader = kajiki.PackageLoader(case['reload'], case['force'])
            mon.seen('package_settings', '%s %s' % (case['reload'], case['force']))
        for k, op in enumerate(case['ops']):
            what = 'step %d %s' % (k, op[:2])
            if op[0] == 'write':
                put(fn(op[1], op[2]), op[4], op[3])
            elif op[0] == 'delete':
                os.unlink(fn(op[1], op[2]))
            else:
                mon.count('package_loads')
                name = pkg + '.' + op[1]
                if op[2] is None:
                    expect_error(mon, what, ['gone'], lambda: loader.load(name))
                else:
                    mon.equal(what, op[2], loader.load(name)({}).render())
    finally:
        sys.path.remove(top)
        for m in [m for m in sys.modules if m == pkg or m.startswith(pkg + '.')]:
            del sys.modules[m]


def run_compiling(case, mon, top):
    """The file is replaced while its old content is being compiled."""
    import kajiki
    fn = os.path.join(top, case['name'])
    t = [1500000000000]
    versions = itertools.count(1)
    left = [case['writes']]
    latest = [0]

    def write(hook):
        v = latest[0] = next(versions)
        t[0] += -700 if case['backwards'] else 700
        put(fn, source('xml', dict(v=v, broken=False, ext=None, inc=[], hook=hook)), t[0])

    def hook(v):
        if left[0] > 0:
            left[0] -= 1
            mon.count('changed_during_compilation')
            write(True)
    sys.kmon_hook = hook
    try:
        write(True)
        put(os.path.join(top, 'page.xml'), '<p><py:include href="%s"/></p>' % case['name'], 99)
        loader = kajiki.FileLoader(top)
        for again in range(case['writes'] + 2):
            if case['via'] == 'load':
                got = loader.load(case['name'])({}).render()
            else:
                got = loader.load('page.xml')({}).render()
            mon.count('loads')
        mon.equal('loaded after the last change', True, 'R%d<' % latest[0] in got, text=got)
    finally:
        del sys.kmon_hook


def run_threads(case, mon, top):
    import kajiki
    clock = itertools.count(1)
    versions = itertools.count(1)
    current = {n: [] for n in case['names']}      # [(time written, version)]
    stamp = itertools.count(1500000000000, 700)

    def write(name):
        v = next(versions)
        start = next(clock)
        put(os.path.join(top, name), '<i>V%d</i>' % v, next(stamp))
        current[name].append((start, next(clock), v))
    for n in case['names']:
        write(n)
    loader = kajiki.FileLoader(top, reload=case['reload'])
    rng = random.Random(case['seed'])
    plans = [[rng.choice(case['names']) for _ in range(4)] for _ in range(case['nthreads'])]
    s = Scheduler(case['seed'], case['rate'], os.path.join(REPO, 'kajiki') + os.sep)

    def reader(plan):
        def work():
            out = []
            for n in plan:
                t0 = next(clock)
                tpl = loader.import_(n)
                t1 = next(clock)
                out.append((n, t0, t1, tpl, tpl({}).render()))
            return out
        return work

    def writer():
        for n in case['writes']:
            for _ in range(rng.choice([1, 5, 40])):
                s.point()
            write(n)
        return []
    jobs = [reader(p) for p in plans] + ([writer] if case['writes'] else [])
    results = s.run(jobs)
    mon.count('thread_switches', s.switches)
    mon.seen('schedules', s.schedule())
    classes = {}
    for res, error in results:
        if error is not None:
            raise error
        for n, t0, t1, tpl, text in res:
            mon.count('loads')
            if not case['writes']:
                mon.count('same_class')
                if classes.setdefault(n, tpl) is not tpl:
                    mon.fail('threads got different classes for %s' % n)
            else:
                mon.count('loads_during_writes')
            v = int(text.split('V')[1].split('<')[0])
            w = current[n]
            i = [x[2] for x in w].index(v)
            # current from (some time during) its write to (some time during) the next one
            mon.count('comparisons')
            if w[i][0] > t1 or (i + 1 < len(w) and w[i + 1][1] < t0):
                mon.fail('a load returned a version that was not current during the load',
                         got=v, want=[x for x in w], interval=[t0, t1])
    for n in case['names']:     # when all is quiet
        got = loader.import_(n)({}).render()
        if case['reload']:
            mon.equal('loaded after the last write', True, 'V%d<' % current[n][-1][2] in got,
                      text=got)
