# -*- coding: utf-8 -*-
"""C16: what names mean in template code."""
import builtins
import sys
import types

ID = 'C16'
RULE = ('Templates of both engines in which the same names (ordinary ones, names of Python '
        'built-ins and of built-ins of the template environment) are bound at random subsets of '
        'the levels local variable (for, with, parameter, default, code block assignment, import, '
        'function or class in a code block, py:call argument, enclosing function), context, '
        'template function, module-level code, base_globals, template environment, Python '
        'builtin, and used from content, attributes, py:content, conditions, loops, functions, '
        'nested functions, blocks and call bodies, also through defined() and value_of(); rendered '
        'several times with different contexts (values that are false among them), also next to another template that was given the '
        'same base_globals and binds all the names. Non-trivial when some used name is bound at two '
        'levels. Oracles: the documented order; a spy counts the runs of the module-level code.')
COUNT = {'quick': 8000, 'thorough': 250000}
MIN = {'renders': 10000, 'uses': 30000, 'level_sets': 40, 'local_forms': 8, 'use_forms': 10,
       'name_errors': 100, 'falsy_values': 1000, 'shared_base_globals': 500}

ORDINARY = ['n0', 'n1', 'n2', 'name', 'x_Y', '_p']
PYTHON = ['len', 'id', 'max', 'input', 'type', 'filter', 'str', 'open']
ENV = ['literal', 'Markup']
FALSY = ['None', '0', "''", 'False', '()', '0.0', 'frozenset()']
LEVELS = ['local', 'context', 'function', 'module', 'base']


def marker(name, v):
    """What `who` says of the value that a context (of a case) has for a name."""
    return v if isinstance(v, str) else 'context:%s:%s' % (name, v)


def value(mark):
    return eval(mark[6:]) if mark.startswith('falsy:') else mark


class NameTable(object):
    def __init__(self, rng, kind):
        self.names = {}     # name -> {level: marker}
        for n in rng.sample(ORDINARY, 3) + rng.sample(PYTHON, 2) + rng.sample(ENV, 1):
            levels = [l for l in LEVELS if l != 'local' and rng.random() < .35]
            if kind == 'text' and 'base' in levels:
                levels.remove('base')
            self.names[n] = dict((l, '%s:%s' % (l, n)) for l in levels)
            for l in levels:        # a value that is false is a value, too
                if l in ('module', 'base') and rng.random() < .15:
                    self.names[n][l] = 'falsy:' + rng.choice(FALSY)
            if n in PYTHON:
                self.names[n]['python'] = 'python:' + n
            if n in ENV:
                self.names[n]['env'] = 'env:literal'

    def meaning(self, name, context, local=None):
        """The marker that the documented order selects; None: NameError."""
        if local is not None:
            return local
        if name in context:
            return marker(name, context[name])
        for level in ('function', 'module', 'base', 'env', 'python'):
            if level in self.names[name]:
                return self.names[name][level]
        return None

    def available(self, name, context):
        return name in context or any(l in self.names[name]
                                      for l in ('function', 'module', 'base', 'env'))


class Writer(object):
    """Writes uses of names; every use outputs <code>=<marker>; as text."""

    def __init__(self, rng, kind, table):
        self.rng = rng
        self.kind = kind
        self.t = table
        self.n = 0
        self.sites = []         # what each site must show, in order of output
        self.use_forms = set()
        self.local_forms = set()
        self.level_sets = set()

    def fresh(self, p='s'):
        self.n += 1
        return '%s%d' % (p, self.n)

    def expr(self, code):
        return '${%s}' % code

    def use(self, name, local=None, where='content'):
        """Source of one use, and its site: ('who', name, local) etc."""
        r = self.rng
        x = r.random()
        levels = set(self.t.names[name]) | (set(['local']) if local else set())
        self.level_sets.add(' '.join(sorted(levels)))
        if local is None and x < .15:
            self.use_forms.add('defined')
            return self.shown("defined(%r)" % name, ('defined', name))
        if local is None and x < .3:
            self.use_forms.add('value_of')
            return self.shown("who(value_of(%r, 'dflt'))" % name, ('value_of', name))
        return self.shown('who(%s)' % name, ('who', name, local))

    def shown(self, code, site):
        """The text that outputs `code`, in a random position."""
        r = self.rng
        self.sites.append(site)
        if self.kind == 'text':
            form = r.choice(['content', 'if', 'for', 'lambda'])
            self.use_forms.add(form)
            if form == 'if':
                return '{%%if %s == %s%%}[%s]{%%end%%}' % (code, code, self.expr(code))
            if form == 'for':
                return '{%%for qq in [%s]%%}[$qq]{%%end%%}' % code
            if form == 'lambda':
                return '[%s]' % self.expr('(lambda: %s)()' % code)
            return '[%s]' % self.expr(code)
        form = r.choice(['content', 'attr', 'py:content', 'if', 'for', 'lambda', 'py:attrs',
                         'replace', 'comprehension', 'with', 'strip', 'switch'])
        self.use_forms.add(form)
        q = code.replace('"', "'")
        if form == 'attr':
            return '<i t="[%s]"/>' % self.expr(q)
        if form == 'py:content':
            return '<i py:content="\'[%%s]\' %% (%s,)"/>' % q
        if form == 'if':
            return '<py:if test="%s == %s">[%s]</py:if>' % (q, q, self.expr(code))
        if form == 'for':
            return '<py:for each="qq in [%s]">[$qq]</py:for>' % q
        if form == 'lambda':
            return '[%s]' % self.expr('(lambda: %s)()' % code)
        if form == 'py:attrs':
            return '<i py:attrs="{\'t\': \'[%%s]\' %% (%s,)}"/>' % q
        if form == 'replace':
            return '<i py:replace="\'[%%s]\' %% (%s,)"/>' % q
        if form == 'comprehension':
            return '[%s]' % self.expr("''.join([str(%s) for qq in (1,)])" % code)
        if form == 'with':
            return '<py:with vars="ww=%s">[$ww]</py:with>' % q
        if form == 'strip':
            return '<i py:strip="not %s == %s">[%s]</i>' % (q, q, self.expr(code))
        if form == 'switch':
            return '<py:switch test="%s"><py:case value="%s">[%s]</py:case></py:switch>' % (
                q, q, self.expr(code))
        return '[%s]' % self.expr(code)

    # constructs ------------------------------------------------------------
    def tag(self, name, arg, body):
        if self.kind == 'text':
            return '{%%%s %s%%}%s{%%end%%}' % (name, arg, body)
        attr = {'def': 'function', 'if': 'test', 'for': 'each', 'with': 'vars',
                'block': 'name'}[name]
        return '<py:%s %s="%s">%s</py:%s>' % (name, attr, arg, body, name)

    def code(self, code):
        if self.kind == 'text':
            return '{%%py%%}\n%s\n{%%end%%}' % code
        return '<?py\n%s\n?>' % code

    def uses(self, local=None, names=None):
        """Uses of several names; `local`: {name: marker} bound around them."""
        out = ''
        local = local or {}
        names = names or sorted(self.t.names)
        for _ in range(self.rng.randrange(1, 3)):
            n = self.rng.choice(names)
            out += self.use(n, local.get(n))
        return out

    def local_site(self):
        """A function of its own that binds a name and uses it, and the call."""
        r = self.rng
        name = r.choice([n for n in sorted(self.t.names) if n != 'str'])
        f = self.fresh('site')
        mark = 'local:%s:%d' % (name, self.n)
        forms = ['param', 'default', 'for', 'assign', 'import', 'codedef', 'codeclass', 'enclosing',
                 'call', 'reassign', 'tuple', 'codewith']
        if self.kind == 'xml':
            forms.append('with')
        form = r.choice(forms)
        self.local_forms.add(form)
        bound = {name: mark}
        only = [name]
        if form == 'param':
            return self.tag('def', '%s(%s)' % (f, name), self.uses(bound)) + \
                self.expr("%s('%s')" % (f, mark))
        if form == 'default':
            return self.tag('def', "%s(%s='%s')" % (f, name, mark), self.uses(bound)) + \
                self.expr('%s()' % f)
        if form == 'for':
            body = self.tag('for', "%s in ['%s']" % (name, mark), self.uses(bound, only))
        elif form == 'tuple':
            body = self.tag('for', "(_a, %s) in [(1, '%s')]" % (name, mark), self.uses(bound, only))
        elif form == 'with':
            body = self.tag('with', "%s='%s'" % (name, mark), self.uses(bound, only))
        elif form == 'assign':
            body = self.code("%s = '%s'" % (name, mark)) + self.uses(bound)
        elif form == 'reassign':
            first = mark + '/first'
            body = self.code("%s = '%s'" % (name, first)) + self.use(name, first) + \
                self.code("%s = '%s'" % (name, mark)) + self.uses(bound)
        elif form == 'import':
            mark = 'spy'
            body = self.code('import kmon_spy as %s' % name) + self.use(name, mark)
        elif form == 'codedef':
            body = self.code("def %s():\n    return '%s'" % (name, mark)) + self.uses(bound)
        elif form == 'codeclass':
            body = self.code("class %s(object):\n    marker = '%s'" % (name, mark)) + \
                self.uses(bound)
        elif form == 'codewith':
            body = self.code("for %s in ['a', '%s']:\n    pass" % (name, mark)) + self.uses(bound)
        elif form == 'enclosing':
            g = self.fresh('inner')
            inner = self.tag('def', '%s()' % g, self.uses(bound))
            return self.tag('def', '%s(%s)' % (f, name), inner + self.expr('%s()' % g)) + \
                self.expr("%s('%s')" % (f, mark))
        elif form == 'call':
            inner = self.uses(bound)
            if self.kind == 'text':
                call = "{%%call(%s) %s(%%caller)%%}%s{%%end%%}" % (name, f, inner)
            else:
                call = '<py:call args="%s" function="%s(%%caller)">%s</py:call>' % (
                    name, f, inner)
            return self.tag('def', '%s(body_)' % f, self.expr("body_('%s')" % mark)) + call
        return self.tag('def', '%s()' % f, body) + self.expr('%s()' % f)

    def literal_site(self):
        """A literal that is output many times, in content and in an attribute."""
        r = self.rng
        lit = r.choice([n for n in ENV if n not in self.t.names])
        f, k = self.fresh('lit'), r.randrange(1, 4)
        self.use_forms.add('literal')
        self.sites.append(('literal', '<q/>&amp;' * k))
        body = self.code("m_ = %s('<q/>&amp;')" % lit) + '[%s]' % (self.expr('m_') * k)
        if r.random() < .5:
            body = self.code("m_ = %s('<q/>&amp;')" % lit) + '[' + self.tag(
                'for', 'k_ in range(%d)' % k, self.expr('m_')) + ']'
        return self.tag('def', '%s()' % f, body) + self.expr('%s()' % f)

    def global_site(self):
        r = self.rng
        x = r.random()
        if x < .1:
            return self.literal_site()
        if x < .16:
            # the names that every template has
            n = r.choice(['literal', 'Markup', 'gettext', '_', 'local', 'self', 'defined',
                          'value_of'])
            if n not in self.t.names:
                self.use_forms.add('environment')
                return self.shown(r.choice([
                    "defined('%s')" % n, "(value_of('%s') is %s)" % (n, n),
                    "(value_of('%s', 5) == %s)" % (n, n), "(%s is not None)" % n]),
                    ('literal', 'True'))
        if x < .4:
            return self.uses()
        if x < .7:
            f = self.fresh('fn')
            return self.tag('def', '%s()' % f, self.uses()) + self.expr('%s()' % f)
        if x < .85:
            return self.tag('block', self.fresh('blk'), self.uses())
        f, g = self.fresh('fn'), self.fresh('inner')
        return self.tag('def', '%s()' % f, self.tag('def', '%s()' % g, self.uses()) +
                        self.expr('%s()' % g)) + self.expr('%s()' % f)


def gen(rng, i, tier):
    kind = 'text' if i % 3 == 0 else 'xml'
    table = NameTable(rng, kind)
    w = Writer(rng, kind, table)
    # contexts: the names that have the level `context`, present or not
    contexts = []
    for k in range(rng.randrange(1, 4)):
        contexts.append(dict((n, 'falsy:' + rng.choice(FALSY) if rng.random() < .2 else k) for n in sorted(table.names)
                             if 'context' in table.names[n] and (k == 0 or rng.random() < .7)))
    module, pieces = [], []
    for n in sorted(table.names):
        if 'module' in table.names[n]:
            module.append('%s = %r' % (n, value(str(table.names[n]['module']))))
    spied = bool(module) or rng.random() < .3
    if spied:
        module.append('import kmon_spy as spy_')
        module.append('spy_.hit()')
    bodies = []
    for _ in range(rng.randrange(1, 6)):
        before = len(w.sites)
        src = w.local_site() if rng.random() < .5 else w.global_site()
        bodies.append((src, w.sites[before:]))
    sites = [s for _, part in bodies for s in part]
    source = ''.join(src for src, _ in bodies)
    for n in sorted(table.names):       # functions may be defined before or after the uses
        if 'function' in table.names[n]:
            d = w.tag('def', '%s()' % n, table.names[n]['function'])
            source = d + source if rng.random() < .5 else source + d
    if module:
        code = '\n'.join(module)
        m = ('{%%py%%}%%\n%s\n{%%end%%}' if kind == 'text' else '<?py %%\n%s\n?>') % code
        if rng.random() < .3:
            m = ''.join(('{%%py %%%s%%}' if kind == 'text' else '<?py %%%s ?>') % l for l in module)
        source = m + source if rng.random() < .7 else source + m
    if kind == 'xml':
        source = '<r>%s</r>' % source
    wants = []
    for c in contexts:
        want = []
        for s in sites:
            if s[0] == 'literal':
                want.append(s[1])
            elif s[0] == 'defined':
                want.append(str(table.available(s[1], c)))
            elif s[0] == 'value_of':
                m = table.meaning(s[1], c) if table.available(s[1], c) else 'dflt'
                want.append(m)
            else:
                m = table.meaning(s[1], c, s[2])
                if m is None:
                    want = 'NameError ' + s[1]
                    break
                want.append(m)
        wants.append(want)
    base = dict((n, l['base']) for n, l in table.names.items() if 'base' in l)
    if 'str' in table.names and len(table.names['str']) > 1:
        # the harness's own comprehension form uses str
        return gen(rng, i, tier)
    return dict(kind=kind, source=source, contexts=contexts, wants=wants, base=base,
                names=sorted(table.names), other=rng.choice([None, None, 'before', 'after']),
                spied=spied, level_sets=sorted(w.level_sets), local_forms=sorted(w.local_forms),
                use_forms=sorted(w.use_forms), uses=len(sites),
                nontrivial=any(len(s.split()) > 1 for s in w.level_sets))


def who(v):
    """A printable account of what a name turned out to be."""
    from kajiki.util import literal
    if any(v is x or type(v) is type(x) and v == x for x in map(eval, FALSY)):
        return 'falsy:%r' % (v,)
    if isinstance(v, str):
        return v
    if v is literal:
        return 'env:literal'
    if isinstance(v, types.ModuleType):
        return v.marker
    name = getattr(v, '__name__', None)
    if name and getattr(builtins, name, None) is v:
        return 'python:' + name
    if hasattr(v, 'marker'):
        return v.marker
    if callable(v):
        out = v()
        return out if isinstance(out, str) else ''.join(map(str, out))
    return repr(v)


def neighbour(case, base):
    """Another template with the same base_globals that gives all the names other meanings."""
    import kajiki
    src = '<r><?py %%\n%s\n?>%s</r>' % (
        '\n'.join("%s = 'leaked'" % n for n in case['names'][::2]),
        ''.join('<py:def function="%s()">leaked</py:def>' % n for n in case['names'][1::2]))
    kajiki.XMLTemplate(src, base_globals=base)(dict.fromkeys(case['names'], 'leaked')).render()


def run(case, mon):
    import kajiki
    spy = types.ModuleType('kmon_spy')
    spy.hits, spy.marker = [], 'spy'
    spy.hit = lambda: spy.hits.append(1)
    sys.modules['kmon_spy'] = spy
    try:
        if case['kind'] == 'text':
            tpl = kajiki.TextTemplate(case['source'])
        else:
            base = dict((n, value(v)) for n, v in case['base'].items()) if case['base'] or case['other'] else None
            if case['other'] == 'before':
                neighbour(case, base)
            tpl = kajiki.XMLTemplate(case['source'], base_globals=base)
            if case['other'] == 'after':
                neighbour(case, base)
        for c, want in list(zip(case['contexts'], case['wants'])) * 2:
            ctx = dict((n, value(marker(n, v))) for n, v in c.items())
            ctx['who'] = who
            try:
                text = tpl(ctx).render()
                got = text.split('[')[1:]
                got = [g.split(']')[0] for g in got]
            except NameError as e:
                got = 'NameError ' + str(e).split("'")[1]
                mon.count('name_errors')
            mon.count('renders')
            mon.count('uses', case['uses'])
            mon.count('falsy_values', str(want).count('falsy:'))
            mon.equal('meaning of the names, in order', want, got, context=c)
        if case['other'] and case['kind'] == 'xml':
            mon.count('shared_base_globals')
            mon.equal('the base_globals given', case['base'],
                      dict((n, who(v)) for n, v in base.items()))
        if case['spied']:
            mon.equal('runs of the module-level code', 1, len(spy.hits))
    finally:
        del sys.modules['kmon_spy']
    for what in ('level_sets', 'local_forms', 'use_forms'):
        for v in case[what]:
            mon.seen(what, v)
