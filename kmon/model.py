# -*- coding: utf-8 -*-
"""Abstract templates and an independent reference interpreter.

A template is a tree of the node classes below. ``emit.py`` writes it as
source for either engine; ``Interp`` predicts what rendering must output and in
which order the expressions are evaluated. Nothing here imports kajiki: Python
expressions are evaluated by Python itself in scopes that this module keeps.
"""


import contextlib


class Node(object):
    _fields = ()

    def __init__(self, *args, **kw):
        for name, value in zip(self._fields, args):
            setattr(self, name, value)
        for name, value in kw.items():
            setattr(self, name, value)

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join(
            repr(getattr(self, f, None)) for f in self._fields))


class Text(Node):       # static text (decoded)
    _fields = ('s',)


class Expr(Node):       # ${code}
    _fields = ('code',)


class El(Node):         # an element; attrs: [(name, [Text|Expr, ...])]
    _fields = ('tag', 'attrs', 'body')
    strip = None        # code of py:strip ('' means always)
    content = None      # code of py:content
    pyattrs = None      # code of py:attrs


class If(Node):
    _fields = ('test', 'body', 'orelse')    # orelse: None or list


class For(Node):
    _fields = ('target', 'iter', 'body')


class Switch(Node):
    _fields = ('test', 'cases', 'orelse')   # cases: [(code, body)]


class With(Node):
    _fields = ('binds', 'body')             # binds: [(name, code)]


class Def(Node):
    _fields = ('name', 'params', 'body')    # params: Python source, '' or 'a, b=1'


class Call(Node):       # callee: code with %caller
    _fields = ('args', 'callee', 'body')    # args: None or Python source


class Block(Node):
    _fields = ('name', 'body')


class Include(Node):
    _fields = ('href',)


class Import(Node):
    _fields = ('href', 'alias')


class Py(Node):         # code block, run in the scope of the function it is in
    _fields = ('code',)


class ModPy(Node):      # <?py %...: module-level code
    _fields = ('code',)


class Replace(Node):    # <py:replace value=code>
    _fields = ('code',)


class Comment(Node):
    _fields = ('s', 'hidden')


class CData(Node):      # parts: Text | Expr
    _fields = ('parts',)


class Raw(Node):        # script/style element: parts Text | Expr, not escaped
    _fields = ('tag', 'attrs', 'parts')
    strip = pyattrs = None


class Nop(Node):        # <py:nop>
    _fields = ('body',)


class Template(Node):
    _fields = ('kind', 'body')      # kind 'xml' | 'text'
    extends = None
    mode = 'xml'
    autoescape = False
    doctype = None


# -- values ---------------------------------------------------------------

class Safe(object):
    """Output that must not be escaped again: a literal."""

    def __init__(self, text):
        self.text = text

    def pull(self):
        return self.text


class Lazy(object):
    """What calling a template function returns: runs when it is output, once."""

    def __init__(self, thunk):
        self.thunk = thunk

    def pull(self):
        thunk, self.thunk = self.thunk, None
        return thunk() if thunk else ''

    def __iter__(self):
        yield self.pull()


def escape(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;') \
        .replace('"', '&quot;')


def escape_text(s):
    """Static text of the template source."""
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


VOID = frozenset('area base br col hr img input link meta param'.split())
BOOLEAN = frozenset('checked disabled readonly multiple selected nohref ismap declare '
                    'defer'.split())


class Scope(object):
    def __init__(self, inst, parent=None):
        self.inst = inst
        self.parent = parent
        self.vars = {}

    def env(self):
        chain, s = [], self
        while s is not None:
            chain.append(s.vars)
            s = s.parent
        d = dict(self.inst.globals)
        for v in reversed(chain):
            d.update(v)
        return d

    def eval(self, code):
        return eval(code.strip(), self.env())

    def assign(self, target, value):
        env = {'__v': value}
        exec('%s = __v' % target, env)
        del env['__v'], env['__builtins__']
        self.vars.update(env)

    def run(self, code):
        env = self.env()
        before = dict(env)
        exec(code, env)
        for k, v in env.items():
            if k != '__builtins__' and (k not in before or before[k] is not v):
                self.vars[k] = v


class Inst(object):
    """One template of an inheritance chain (or an included one), being rendered."""

    def __init__(self, interp, tpl, context, gettext=None):
        self.interp = interp
        self.tpl = tpl
        self.context = context
        self.funcs = {}
        self.globals = dict(context)
        self.collect(tpl.body, False)
        self.parent = None
        self.child = None
        for name, f in self.funcs.items():
            self.globals.setdefault(name, f)
            self.globals[name] = f

    def collect(self, body, in_def):
        for n in body:
            if isinstance(n, Def):
                if not in_def:
                    self.funcs[n.name] = self.make_func(n.name, n.params, n.body)
            elif isinstance(n, Block):
                self.funcs['_kj_block_' + n.name] = self.make_func(
                    '_kj_block_' + n.name, '', n.body, block=n.name)
                self.collect(n.body, in_def)
                continue
            elif isinstance(n, ModPy):
                env = {}
                exec(n.code, env)
                del env['__builtins__']
                for k, v in env.items():
                    self.globals.setdefault(k, v)
                continue
            for sub in children(n):
                self.collect(sub, in_def or isinstance(n, Def))

    def make_func(self, name, params, body, scope=None, block=None):
        inst = self

        def call(*a, **kw):
            local = Scope(inst, scope)
            env = (scope or Scope(inst)).env()
            holder = {}
            exec('def __f(%s): return locals()' % params, env, holder)
            local.vars.update(holder['__f'](*a, **kw))
            if block and inst.parent is not None:
                local.vars['parent_block'] = inst.parent.lookup('_kj_block_' + block)
            return Lazy(lambda: inst.interp.render_body(body, local))
        call.__name__ = str(name)
        return call

    def lookup(self, name):
        """The function as seen from this template: its own or an inherited one."""
        i = self
        while i is not None:
            if name in i.funcs:
                return i.funcs[name]
            i = i.parent
        return None


def children(n):
    if isinstance(n, (El, For, With, Def, Call, Block, Nop)):
        return [n.body]
    if isinstance(n, If):
        return [n.body] + ([n.orelse] if n.orelse is not None else [])
    if isinstance(n, Switch):
        return [b for _, b in n.cases] + ([n.orelse] if n.orelse is not None else [])
    return []


class Ns(object):
    """self / local / parent / child as the template sees them."""

    def __init__(self, get):
        self.__dict__['_get'] = get

    def __getattr__(self, name):
        r = self.__dict__['_get'](name)
        if r is None:
            raise AttributeError(name)
        return r


class TooBig(Exception):
    """A random program that outputs or does too much to be useful."""


class Interp(object):
    """Reference interpreter for a world of templates {name: Template}."""
    MAX_CHARS = 4000000     # over all bodies
    MAX_NODES = 200000
    track = False       # is sofar() used?

    def __init__(self, world):
        self.world = world
        self.chars = self.nodes = 0
        self.pieces = []        # what has been output: lists of strings, outermost first
        self.frozen = None      # the same inside of an attribute, where nothing is output

    def sofar(self):
        """The text that comes before the place that is being interpreted."""
        if self.frozen is not None:
            return self.frozen
        return ''.join([''.join(p) for p in self.pieces])

    @contextlib.contextmanager
    def output(self, *head):
        self.pieces.append(list(head))
        try:
            yield self.pieces[-1]
        finally:
            self.pieces.pop()

    def render(self, name, context):
        return self.render_chain(name, context)

    def builtins(self, context, inst):
        d = dict(literal=lambda s: Safe(str(s)), Markup=lambda s: Safe(str(s)))
        d.update(context)
        return d

    def render_chain(self, name, context, borrowed=()):
        chain = self.make_chain(name, context, borrowed)
        with self.output() as out:
            for inst in reversed(chain):   # children: what they have outside of functions
                out.append(self.render_body(inst.tpl.body, Scope(inst)))
            return ''.join(out)

    def make_chain(self, name, context, borrowed=()):
        chain = []
        n = name
        while n is not None:
            tpl = self.world[n]
            inst = Inst(self, tpl, self.builtins(context, None))
            chain.append(inst)
            n = tpl.extends
            if isinstance(n, tuple):
                n = n[1] if eval(n[0], dict(context)) else n[2]
        for child, parent in zip(chain, chain[1:]):
            child.parent = parent
            parent.child = child
        # the most derived definition of every function is what a plain name means
        funcs = {}
        for inst in reversed(chain):
            funcs.update(inst.funcs)
        for inst in chain:
            inst.globals.update(funcs)
            inst.globals['self'] = Ns(chain[0].lookup)
            inst.globals['local'] = Ns(inst.lookup)
            if inst.parent is not None:
                inst.globals['parent'] = Ns(inst.parent.lookup)
            if inst.child is not None:
                inst.globals['child'] = Ns(inst.child.lookup)
            inst.leaf = chain[0]
            for g in borrowed:
                for k, v in g.items():
                    if k not in inst.globals and k not in ('parent', 'child'):
                        inst.globals[k] = v
        return chain

    # -- output ---------------------------------------------------------
    def out(self, v, tpl):
        if v is None:
            return ''
        if isinstance(v, (Safe, Lazy)):
            return v.pull()
        if tpl.kind == 'text' and not tpl.autoescape:
            return str(v)
        if hasattr(v, '__html__'):
            return v.__html__()
        return escape(str(v))

    def attr_value(self, v):
        if isinstance(v, (Safe, Lazy)):
            v = v.pull()
        elif hasattr(v, '__html__'):
            v = v.__html__()
        else:
            v = str(v).replace('&', '&amp;')
        return v.replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')

    def attr(self, name, value, mode):
        """value: None or the final, escaped text."""
        if value is None:
            return ''
        if mode.startswith('html') and name in BOOLEAN:
            return ' ' + name
        return ' %s="%s"' % (name, value)

    def render_body(self, body, scope):
        self.nodes += len(body)
        with self.output() as parts:
            for n in body:
                parts.append(self.node(n, scope))
            out = ''.join(parts)
        self.chars += len(out)
        if self.chars > self.MAX_CHARS or self.nodes > self.MAX_NODES:
            raise TooBig()
        return out

    def node(self, n, scope):
        return getattr(self, 'n_' + type(n).__name__)(n, scope)

    def n_Text(self, n, scope):
        return escape_text(n.s) if scope.inst.tpl.kind == 'xml' else n.s

    def n_Expr(self, n, scope):
        return self.out(scope.eval(n.code), scope.inst.tpl)

    n_Replace = n_Expr

    def start(self, n, scope):
        """-> (is it stripped, its start tag without the end of it)"""
        outer = self.frozen
        self.frozen = self.sofar() if self.track else None
        try:
            return self._start(n, scope)
        finally:
            self.frozen = outer

    def _start(self, n, scope):
        mode = scope.inst.tpl.mode
        strip = False
        if n.strip is not None:
            strip = True if n.strip == '' else bool(scope.eval(n.strip))
        head = ''
        if not strip:
            head = '<' + n.tag
            for name, parts in sorted(n.attrs, key=lambda a: a[0]):
                got = []
                for p in parts:
                    v = p.s if isinstance(p, Text) else scope.eval(p.code)
                    if v is not None:
                        got.append(self.attr_value(v))
                if not parts:
                    got = ['']
                head += self.attr(name, ''.join(got) if got else None, mode)
            if n.pyattrs is not None:
                v = scope.eval(n.pyattrs)
                if v is not None:
                    items = v.items() if hasattr(v, 'items') else v
                    for k, val in sorted(items, key=lambda kv: kv[0]):
                        if k in BOOLEAN and val in (True, False):
                            val = k if val else None
                        head += self.attr(
                            k, None if val is None else self.attr_value(val), mode)
        return strip, head

    def n_El(self, n, scope):
        mode = scope.inst.tpl.mode
        strip, head = self.start(n, scope)
        if n.content is not None:
            with self.output(*([] if strip else [head, '>'])):
                inner = self.out(scope.eval(n.content), scope.inst.tpl)
            if strip:
                return inner
            if mode.startswith('html') and n.tag in VOID:
                return head + '>' + inner
            return head + '>' + inner + '</%s>' % n.tag
        with self.output(*([] if strip else [head, '>'])):
            inner = self.render_body(n.body, scope)
        if strip:
            return inner
        if n.body:
            if mode.startswith('html') and n.tag in VOID:
                return head + '>' + inner
            return head + '>' + inner + '</%s>' % n.tag
        if n.tag == 'script':
            return head + '></script>'
        if mode.startswith('html'):
            return head + '>' if n.tag in VOID else head + '></%s>' % n.tag
        return head + '/>'

    def n_Raw(self, n, scope):
        mode = scope.inst.tpl.mode
        strip, head = self.start(n, scope)
        if not n.parts:
            return '' if strip else head + ('></%s>' % n.tag if n.tag == 'script' or mode != 'xml' else '/>')
        inner = ''
        for p in n.parts:
            inner += p.s if isinstance(p, Text) else self.out(
                scope.eval(p.code), scope.inst.tpl)
        if mode == 'xml':
            inner = '/*<![CDATA[*/' + inner + '/*]]>*/'
        if strip:
            return inner
        return head + '>' + inner + '</%s>' % n.tag

    def n_If(self, n, scope):
        if scope.eval(n.test):
            return self.render_body(n.body, scope)
        return self.render_body(n.orelse or [], scope)

    def n_For(self, n, scope):
        with self.output() as out:
            for v in scope.eval(n.iter):
                scope.assign(n.target, v)
                out.append(self.render_body(n.body, scope))
            return ''.join(out)

    def n_Switch(self, n, scope):
        v = scope.eval(n.test)
        for code, body in n.cases:
            if scope.eval(code) == v:
                return self.render_body(body, scope)
        return self.render_body(n.orelse or [], scope)

    def n_With(self, n, scope):
        old = [(name, name in scope.vars, scope.vars.get(name)) for name, _ in n.binds]
        for name, code in n.binds:
            scope.vars[name] = scope.eval(code)
        out = self.render_body(n.body, scope)
        for name, had, value in old:
            if had:
                scope.vars[name] = value
            else:
                del scope.vars[name]
        return out

    def n_Def(self, n, scope):
        if getattr(n, 'inner', False):
            scope.vars[n.name] = scope.inst.make_func(n.name, n.params, n.body, scope)
        return ''

    def n_Call(self, n, scope):
        body = scope.inst.make_func('caller', n.args or '', n.body, scope)
        inner = Scope(scope.inst, scope)
        inner.vars['__caller'] = body
        # the result of a py:call is output as it is
        v = inner.eval(n.callee.replace('%caller', '__caller'))
        if v is None:
            return ''
        return v.pull() if isinstance(v, (Safe, Lazy)) else str(v)

    def n_Block(self, n, scope):
        if scope.inst.parent is not None:
            return ''
        return self.out(scope.inst.globals['_kj_block_' + n.name](), scope.inst.tpl)

    def n_Include(self, n, scope):
        inst = scope.inst
        return self.render_chain(n.href, inst.context, (inst.globals, inst.leaf.globals))

    def n_Import(self, n, scope):
        inst = scope.inst
        alias = n.alias or n.href.rsplit('/', 1)[-1].rsplit('.', 1)[0]
        lib = self.make_chain(n.href, inst.context, (inst.globals, inst.leaf.globals))[0]
        inst.globals[alias] = inst.leaf.globals[alias] = Ns(lib.lookup)
        return ''

    def n_Py(self, n, scope):
        scope.run(n.code)
        return ''

    def n_ModPy(self, n, scope):
        return ''

    def n_Comment(self, n, scope):
        return '' if n.hidden else '<!-- %s -->' % n.s

    def n_CData(self, n, scope):
        out = ''
        for p in n.parts:
            out += p.s if isinstance(p, Text) else self.out(
                scope.eval(p.code), scope.inst.tpl)
        return '<![CDATA[' + out + ']]>'

    def n_Nop(self, n, scope):
        return self.render_body(n.body, scope)
