"""C20: templates written in Python or composed of IR nodes."""
import json

from ..harness import emit, make_ctx, predict, compile_tpl
from ..model import Block, Def, Expr, TooBig, children
from ..worlds import rich_world, TEXT
from .c05 import chain

ID = 'C20'
RULE = ('Random worlds of templates (page, layout, include, import) whose text templates are '
        'written at random as text templates, as IR nodes, or as Python classes, modules or '
        'other objects with exposed functions as the runtime documentation describes, mixed with '
        'each other and with XML templates; compiled templates are at random replaced by what '
        'their py_text defines. Parents are extended by name or as classes, some of them chosen '
        'at run time. Non-trivial when at least one template is in Python or IR and it has an '
        'evaluation that is spied. Oracle: the reference interpreter, which does not know how '
        'the templates are written: output and order of evaluations of two renderings.')
COUNT = {'quick': 5000, 'thorough': 160000}
MIN = {'renders': 8000, 'evaluation_events': 30000, 'python': 1500, 'ir': 1500, 'py_text': 1500,
       'shapes': 4, 'node_kinds': 12, 'switch_services': 200, 'dynamic_extends': 100}

# code over several lines, with white space and line boundaries inside of strings
LINES = ['"""a  \n b \n\n  c\t\n"""', "'''\n\n x'''", 'len(\n   """a\n\n""")', '"\u2028 \x85  "',
         '"""# %s\t#\n #"""', '(n0,\n # n1\n n1)']


def walk(nodes):
    for n in nodes:
        yield n
        for c in children(n):
            for m in walk(c):
                yield m


def functions(body):
    """The functions of the template that are written anywhere in the body: (name, decl, body)."""
    out = []
    for n in body:
        if isinstance(n, Def):
            if not getattr(n, 'inner', False):
                out.append((n.name, n.params, n.body))
            out.extend(functions(n.body))
        elif isinstance(n, Block):
            out.append(('_kj_block_' + n.name, '', n.body))
            out.extend(functions(n.body))
        else:
            for c in children(n):
                out.extend(functions(c))
    return out


class Writer(object):
    def __init__(self, rng, tpl, services, decoy):
        self.rng, self.tpl, self.services, self.decoy = rng, tpl, services, decoy
        self.n = 0

    def code(self, code):
        # the engines define parent_block where there is a parent
        if self.block and self.tpl.extends is not None:
            code = code.replace('parent_block()', 'parent._kj_block_%s()' % self.block)
        return code.strip()

    def template(self):
        out = []
        for name, params, body in functions(self.tpl.body):
            self.block = name[10:] if name.startswith('_kj_block_') else None
            out.append((name, params, self.body(body)))
        self.block = None
        main = self.body(self.tpl.body)
        if isinstance(self.tpl.extends, tuple):
            test, a, b = self.tpl.extends
            main = self.either(test, self.extend(a), self.extend(b)) + main
        elif self.decoy:
            test, value = self.decoy
            a, b = self.tpl.extends, 'nosuch'
            main = self.either(test, self.extend(a if value else b),
                               self.extend(b if value else a)) + main
        elif self.tpl.extends is not None:
            main = self.extend(self.tpl.extends) + main
        out.append(('__main__', '', main))
        self.rng.shuffle(out)
        return out

    def body(self, nodes):
        out = []
        for n in nodes:
            out.extend(getattr(self, 'n_' + type(n).__name__)(n))
        return out


class IrWriter(Writer):
    """IR as lists: [class name, strings and lists of nodes...]"""

    def extend(self, name):
        return [['Extend', name]]

    def either(self, test, a, b):
        return [['If', test] + a, ['Else'] + b]

    def n_Text(self, n):
        if self.rng.random() < .1:
            return [['Text', c] for c in n.s]
        if len(n.s) > 3 and self.rng.random() < .3:      # the parts are joined
            i = self.rng.randrange(len(n.s))
            return [['Text', n.s[:i]], ['Text', n.s[i:]]]
        return [['Text', n.s]]

    def n_Expr(self, n):
        return [['Expr', self.code(n.code), not self.tpl.autoescape]]

    def n_If(self, n):
        out = [['If', self.code(n.test)] + self.body(n.body)]
        if n.orelse is not None:
            out.append(['Else'] + self.body(n.orelse))
        return out

    def n_For(self, n):
        return [['For', '%s in %s' % (n.target, self.code(n.iter))] + self.body(n.body)]

    def n_Switch(self, n):
        out = ['Switch', self.code(n.test)]
        out += [['Case', self.code(c)] + self.body(b) for c, b in n.cases]
        if n.orelse is not None:
            out.append(['Else'] + self.body(n.orelse))
        return [out]

    def n_Def(self, n):
        return []

    def n_Call(self, n):
        return [['Call', '$caller(%s)' % (n.args or ''),
                 self.code(n.callee).replace('%caller', '$caller')] + self.body(n.body)]

    def n_Block(self, n):
        if self.tpl.extends is not None:
            return []
        return [['Expr', 'self._kj_block_%s()' % n.name, True]]

    def n_Include(self, n):
        return [['Include', n.href]]

    def n_Import(self, n):
        return [['Import', n.href, n.alias]]


class PyWriter(Writer):
    """Lines of Python code."""

    def extend(self, name):
        by = self.rng.choice(["'%s'", 'classes["%s"]'])
        return ['yield local.__kj__.extend(%s).__main__()' % by % name]

    def either(self, test, a, b):
        return (['if %s:' % test] + ['    ' + l for l in a] +
                ['else:'] + ['    ' + l for l in b])

    def indented(self, nodes):
        return ['    ' + l for l in self.body(nodes) or ['yield ""']]

    def n_Text(self, n):
        return ['yield %r' % n.s]

    def n_Expr(self, n):
        if self.tpl.autoescape:
            return ['yield %s.__kj__.escape((%s))' % (self.rng.choice(['local', 'self']),
                                                    self.code(n.code))]
        return ['yield ' + self.code(n.code)]

    def n_If(self, n):
        out = ['if %s:' % self.code(n.test)] + self.indented(n.body)
        if n.orelse is not None:
            out += ['else:'] + self.indented(n.orelse)
        return out

    def n_For(self, n):
        return ['for %s in %s:' % (n.target, self.code(n.iter))] + self.indented(n.body)

    def n_Switch(self, n):
        self.n += 1
        k = self.n
        if self.services:
            out = ['sw%d_ = %s' % (self.n, self.code(n.test)),
                   'local.__kj__.push_switch(sw%d_)' % self.n]
            case = 'local.__kj__.case((%s))'
        else:
            out = ['sw%d_ = %s' % (self.n, self.code(n.test))]
            case = '(%%s) == sw%d_' % self.n
        word = 'if'
        for c, b in n.cases:
            out += ['%s %s:' % (word, case % self.code(c))] + self.indented(b)
            word = 'elif'
        if n.orelse is not None:
            if n.cases:
                out += ['else:'] + self.indented(n.orelse)
            else:
                out += self.body(n.orelse)
        if self.services:
            if self.rng.random() < .5:
                # whatever happened in a case, this is still the same switch
                out += ['if sw%d_ == sw%d_ and not local.__kj__.case(sw%d_):' % (k, k, k),
                        '    yield "lost"']
            out.append('local.__kj__.pop_switch()')
        return out

    def n_Def(self, n):
        if getattr(n, 'inner', False):
            return ['@__kj__.flattener.decorate',
                    'def %s(%s):' % (n.name, n.params)] + self.indented(n.body)
        return []

    def n_Call(self, n):
        self.n += 1
        name = 'caller%d_' % self.n
        return (['@__kj__.flattener.decorate', 'def %s(%s):' % (name, n.args or '')] +
                self.indented(n.body) +
                ['yield ' + self.code(n.callee).replace('%caller', name)])

    def n_Block(self, n):
        if self.tpl.extends is not None:
            return []
        return ['yield self._kj_block_%s()' % n.name]

    def n_Py(self, n):
        return n.code.split('\n')


def gen(rng, i, tier):
    if i % 3 == 0:
        g, world, nlevels, _ = chain(rng, 'text')
        g.ctx = dict(s0='ctx', b0=rng.random() < .5, n0=rng.randrange(5))
        g.used = g.refs
        name = 'l%d' % (nlevels - 1)
    else:
        name = None
        g, world = rich_world(rng, kind=rng.choice(['text'] * 5 + ['xml']),
                              size=rng.choice([2, 3, 4]), depth=(2, 3),
                              text=TEXT + ['switch', 'call'])
    for t in world.values():
        if t.kind == 'text' and rng.random() < .5:
            t.autoescape = True
        if rng.random() < .3:
            body = t.body if t.kind == 'text' else t.body[0].body
            body.append(Expr(rng.choice(LINES)))
    name = name or list(world)[0]
    try:
        want, log = predict(world, name, g.ctx)
    except RecursionError:
        raise TooBig()
    except (NameError, AttributeError):     # a function that only templates below would have
        return gen(rng, i, tier)
    sources, kinds = {}, set()
    # functions that do not run to their end leave the values of the switches they are in
    text = ''.join(repr(t.body) for t in world.values())
    calm = not any(w in text for w in ('mix(', 'peek(', 'att(', 'boom('))
    for n, tpl in world.items():
        nodes = set(type(m).__name__ for m in walk(tpl.body))
        kinds |= nodes
        how = ['xml'] if tpl.kind == 'xml' else ['text', 'ir', 'ir', 'python', 'python']
        if tpl.kind == 'text' and nodes & set(['Include', 'Import']):
            how = ['text', 'ir', 'ir']
        if tpl.kind == 'text' and ('Py' in nodes or any(
                isinstance(m, Def) and getattr(m, 'inner', False) for m in walk(tpl.body))):
            how = [h for h in how if h != 'ir']
        how = rng.choice(how)
        decoy = None
        if isinstance(tpl.extends, str) and how in ('ir', 'python') and rng.random() < .4:
            decoy = rng.choice([('b0', g.ctx['b0']), ('n0 > 2', g.ctx['n0'] > 2)])
        if how in ('xml', 'text'):
            src, _ = emit(tpl, rng)
            s = dict(how=how, kind=tpl.kind, source=src,
                     opts=dict(autoescape=True) if tpl.autoescape else {})
        elif how == 'ir':
            w = IrWriter(rng, tpl, False, decoy)
            s = dict(how=how, defs=[[('%s(%s)' % (f, p)), b] for f, p, b in w.template()])
        else:
            services = calm and rng.random() < .7
            w = PyWriter(rng, tpl, services, decoy)
            s = dict(how=how, funcs=w.template(),
                     shape=rng.choice(['class', 'derived', 'module', 'instance']),
                     services=services and 'Switch' in nodes)
        s['decoy'] = bool(decoy) or isinstance(tpl.extends, tuple)
        s['py_text'] = how != 'python' and rng.random() < .4
        sources[n] = s
    return dict(sources=sources, main=name, ctx=g.ctx, want=want, log=log,
                feats=sorted(g.used), nodes=sorted(kinds),
                nontrivial=bool(log) and any(s['how'] in ('ir', 'python')
                                             for s in sources.values()))


def build_ir(ir, spec):
    args = [build_ir(ir, a) if isinstance(a, list) else a for a in spec[1:]]
    return getattr(ir, spec[0] + 'Node')(*args)


HEAD = '''def make(kajiki, classes):
'''


def python_source(s):
    lines = []
    for name, params, body in s['funcs']:
        lines += ['@kajiki.expose', 'def %s(%s):' % (name, params)]
        lines += ['    ' + l for l in body or ['yield ""']]
    # not exposed, so the template must not know it
    for name in ('n0', 'len', 'sum', 'str', 'sorted', 'range'):
        lines += ['def %s(*args):' % name, '    return "not exposed"']
    lines += ['s0 = "not exposed"']
    if s['shape'] == 'derived':
        i = [k for k, l in enumerate(lines) if l.startswith('@kajiki.expose')]
        i = i[len(i) // 2]
        lines = (['class base:'] + ['    ' + l for l in lines[:i] or ['pass']] +
                 ['class template(base):'] + ['    ' + l for l in lines[i:] or ['pass']] +
                 ['return template'])
    else:
        lines = ['class template:'] + ['    ' + l for l in lines]
        if s['shape'] == 'class':
            lines += ['return template']
        elif s['shape'] == 'instance':
            lines += ['obj = template()', 'obj.__name__ = "template"', 'return obj']
        else:
            lines += ['import types', 'm = types.ModuleType("template")',
                      'm.__dict__.update((k, v) for k, v in vars(template).items()',
                      '                  if k == "__main__" or not k.startswith("__"))',
                      'return m']
    return HEAD + '\n'.join('    ' + l for l in lines) + '\n'


def build(case, mon):
    import kajiki
    from kajiki import ir, template
    # templates that share blocks with compiled ones have to call them what these do
    blocks = [n for n in dir(kajiki.TextTemplate('%block probe_\nx\n%end\n')())
              if n.endswith('probe_')]
    sources = json.loads(json.dumps(case['sources']).replace('_kj_block_', blocks[0][:-6]))
    mods = {}
    for n, s in sources.items():
        if s['how'] in ('xml', 'text'):
            t = compile_tpl(s['kind'], s['source'], **s['opts'])
        elif s['how'] == 'ir':
            mon.count('ir')
            t = template.from_ir(ir.TemplateNode(defs=[
                ir.DefNode(decl, *[build_ir(ir, b) for b in body]) for decl, body in s['defs']]))
        else:
            mon.count('python')
            mon.seen('shapes', s['shape'])
            ns = {}
            exec(python_source(s), ns)
            obj = ns['make'](kajiki, mods)
            t = kajiki.Template(obj)
            kajiki.Template(obj)        # it can be used again
            if s['services']:
                mon.count('switch_services')
        if s['decoy']:
            mon.count('dynamic_extends')
        if s['py_text']:
            mon.count('py_text')
            ns = dict(kajiki=kajiki)
            exec(t.py_text, ns)
            t = ns['template']
        mods[n] = t
    return kajiki.MockLoader(mods)


def run(case, mon):
    loader = build(case, mon)
    tpl = loader.import_(case['main'])
    for k in case['nodes']:
        mon.seen('node_kinds', k)
    for k in case['feats']:
        mon.seen('features', k)
    for again in (False, True):
        log = []
        got = tpl(make_ctx(case['ctx'], log, True)).render()
        mon.count('renders')
        mon.count('evaluation_events', len(log))
        mon.equal('output', case['want'], got)
        mon.equal('order of evaluations', case['log'], log)
    live = [(iter(tpl(make_ctx(case['ctx'], [], True))), []) for _ in (1, 2)]
    outs = [o for _, o in live]
    while live:     # two instances at the same time
        for it, out in list(live):
            for x in it:
                out.append(x)
                break
            else:
                live.remove((it, out))
    for out in outs:
        mon.equal('output of one of two instances', case['want'], ''.join(out))
