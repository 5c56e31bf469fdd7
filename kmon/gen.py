# -*- coding: utf-8 -*-
"""Random abstract templates together with the context they are rendered in."""
from .model import (Text, Expr, El, If, For, Switch, With, Def, Call, Block, Py, Replace,
                    Comment, Nop, Template, Raw, CData, children)

TAGS = ['a', 'b', 'div', 'p', 'span', 'ul', 'li', 'em', 'x-y', 'ns:t', 'section',
        'pre', 'code', 'textarea', 'title', 'option', 'td', 'button', 'label', 'kbd', 'h1']
WORDS = ['alpha', 'beta', 'gamma', 'delta', 'one', 'two', 'three', 'x', 'y z', 'Q', 'ok',
         'p  q']

CONSTANTS = ["''", '0', 'False', 'True', '[]', '()', '{}', '0.0', '""', '(0, None)']


class Env(object):
    """What expressions may refer to: {name: type}; ``own``: bound in this function."""

    def __init__(self, vars, own=(), funcs=()):
        self.vars = dict(vars)
        self.own = set(own)
        self.funcs = list(funcs)     # (name, [(param, type, default)])
        self.wrappers = []           # (name, [types passed to the body], params)
        self.in_def = False

    def child(self):
        """Same function, nested region."""
        return self._copy(Env(self.vars, self.own, self.funcs))

    def inner(self):
        """A function nested in this one."""
        return self._copy(Env(self.vars, (), self.funcs))

    def _copy(self, e):
        e.wrappers = list(self.wrappers)
        e.in_def = self.in_def
        return e

    def of(self, type):
        return [n for n, t in sorted(self.vars.items()) if t == type]


def speaking(body):
    """A function that does things but has nothing that could be output runs when it is called and
    not when its result is output; no property says which, so it gets some text."""
    def speaks(b):
        return any(isinstance(n, (Expr, Replace, Call, Raw, CData)) or
                   isinstance(n, El) and (n.strip != '' or n.content is not None) or
                   isinstance(n, Text) and n.s.strip() or
                   not isinstance(n, Def) and any(speaks(c) for c in children(n)) for n in b)
    if body and not speaks(body):
        body = body + [Text('.')]
    return body


class Gen(object):
    def __init__(self, rng, kind='xml', feats=(), depth=4, spy=.25, size=4, words=WORDS,
                 counters=True):
        self.rng = rng
        self.kind = kind
        self.feats = list(feats)
        self.maxdepth = depth
        self.spy = spy
        self.size = size
        self.words = words
        self.counters = counters
        self.n = 0
        self.used = set()
        self.ctx = {}
        r = rng
        for i in range(2):
            self.ctx['n%d' % i] = r.randrange(0, 5)
            self.ctx['s%d' % i] = r.choice(words)
            self.ctx['b%d' % i] = r.random() < .5
            self.ctx['l%d' % i] = [r.randrange(0, 5) for _ in range(r.randrange(0, 4))]
            self.ctx['w%d' % i] = [r.choice(words) for _ in range(r.randrange(0, 4))]
        self.types = {'n': 'int', 's': 'str', 'b': 'bool', 'l': 'ints', 'w': 'strs'}
        self.env0 = Env({k: self.types[k[0]] for k in self.ctx})
        self.ctx['z0'] = None
        for name in ('UP', 'camelCase', '_u0'):
            self.ctx[name] = r.choice(words)
            self.env0.vars[name] = 'str'

    # -- expressions ------------------------------------------------------
    def fresh(self, prefix='v'):
        self.n += 1
        if self.n % 9 == 7:
            return '%s%d' % (prefix.upper(), self.n)
        return ('%s_%d', '%s_%d', '%s%d_X', '_%sY%d')[self.n % 4] % (prefix, self.n)

    def spied(self, code):
        if code != '1, 2' and self.rng.random() < self.spy:
            self.n += 1
            return 'e(%d, %s)' % (self.n, code)
        return code

    def expr(self, env, type, depth=2):
        return self.spied(getattr(self, 'x_' + type)(env, depth))

    def var_or(self, env, type, alternatives):
        names = env.of(type)
        if names and self.rng.random() < .5:
            return self.rng.choice(names)
        return self.rng.choice(alternatives)()

    def x_int(self, env, d):
        r = self.rng
        if d <= 0:
            return self.var_or(env, 'int', [lambda: str(r.randrange(0, 6))])
        alts = [lambda: str(r.randrange(0, 6)),
                lambda: '%s + %s' % (self.expr(env, 'int', d - 1), self.expr(env, 'int', d - 1)),
                lambda: '(%s) * 2' % self.expr(env, 'int', d - 1),
                lambda: 'len(%s)' % self.expr(env, 'strs', d - 1),
                lambda: 'sum(%s)' % self.expr(env, 'ints', d - 1)]
        if self.counters:
            alts.append(lambda: 'nx()')
        return self.var_or(env, 'int', alts)

    def x_str(self, env, d):
        r = self.rng
        lit = lambda: repr(r.choice(self.words))
        if d <= 0:
            return self.var_or(env, 'str', [lit])
        if env.funcs and r.random() < self.joined and self.nesting < 4:
            self.used.add('function in expression')
            self.nesting += 1
            code = "''.join(map(str, %s))" % self.call_code(env)
            self.nesting -= 1
            return code
        return self.var_or(env, 'str', [
            lit,
            lambda: '%s + %s' % (self.expr(env, 'str', d - 1), self.expr(env, 'str', d - 1)),
            lambda: '(%s).upper()' % self.expr(env, 'str', d - 1),
            lambda: 'str(%s)' % self.expr(env, 'int', d - 1),
            lambda: '%s if %s else %s' % (self.expr(env, 'str', d - 1),
                                          self.expr(env, 'bool', d - 1), lit()),
            lambda: '"%%s:%%s" %% (%s, %s)' % (self.expr(env, 'int', d - 1), lit()),
            lambda: "','.join(%s)" % self.expr(env, 'strs', d - 1),
            lambda: '{1: %s, 2: "d"}[1]' % self.expr(env, 'str', d - 1)])

    def x_bool(self, env, d):
        r = self.rng
        if d <= 0:
            return self.var_or(env, 'bool', [lambda: r.choice(['True', 'False'])])
        return self.var_or(env, 'bool', [
            lambda: r.choice(['True', 'False', '1', '0', "''", "'x'", '[]', 'None']),
            lambda: '%s %s %s' % (self.expr(env, 'int', d - 1),
                                  r.choice(['<', '>', '==', '!=', '<=', '>=']),
                                  self.expr(env, 'int', d - 1)),
            lambda: 'not (%s)' % self.expr(env, 'bool', d - 1),
            lambda: '(%s) %s (%s)' % (self.expr(env, 'bool', d - 1), r.choice(['and', 'or']),
                                      self.expr(env, 'bool', d - 1)),
            lambda: '%s in %s' % (self.expr(env, 'int', d - 1), self.expr(env, 'ints', d - 1))])

    def x_ints(self, env, d):
        r = self.rng
        if d <= 0:
            return self.var_or(env, 'ints', [lambda: '[1, 2]', lambda: '[]'])
        return self.var_or(env, 'ints', [
            lambda: 'range(%d)' % r.randrange(0, 4),
            lambda: '[%s]' % ', '.join(self.expr(env, 'int', d - 1)
                                       for _ in range(r.randrange(0, 3))),
            lambda: '[q * 2 for q in %s]' % self.expr(env, 'ints', d - 1),
            lambda: 'sorted(%s)' % self.expr(env, 'ints', d - 1)])

    def x_strs(self, env, d):
        r = self.rng
        if d <= 0:
            return self.var_or(env, 'strs', [lambda: repr([r.choice(self.words)])])
        return self.var_or(env, 'strs', [
            lambda: repr([r.choice(self.words) for _ in range(r.randrange(0, 3))]),
            lambda: '[str(q) for q in %s]' % self.expr(env, 'ints', d - 1)])

    def x_mixed(self, env, d):
        """Values of any type, many of which are equal to one of another type, or equal
        without being identical."""
        r = self.rng
        return self.var_or(env, r.choice(['int', 'bool', 'str']), [lambda: r.choice([
            '0', '1', '2', '1.0', '0.0', 'True', 'False', 'None', "''", "'1'", '[]', '()',
            '[1]', '(1, 2)', '1, 2', '[1, 2]', '{}', "{'a': 1}", '10 ** 20', '1e20', "b'1'",
            "float('nan')", 'set()', 'frozenset()', "'a' 'b'", "'AB'.lower()"])])

    def value(self, env):
        """An expression to output; None outputs nothing."""
        if env.funcs and self.rng.random() < self.fn_rate:
            return self.odd_call(env)
        r = self.rng.random()
        if self.boomy and env.in_def and r < self.boomy:
            self.used.add('failing function')
            self.n += 1
            return 'boom(%d, %s)' % (self.n, self.expr(env, 'bool', 1))
        if r < .08:
            return self.spied('z0' if r < .05 and 'z0' in self.ctx else 'None')
        if r < .1:
            return self.spied(self.rng.choice(CONSTANTS))
        if r < .45:
            return self.expr(env, 'int')
        return self.expr(env, 'str')

    # -- nodes ------------------------------------------------------------
    def text(self):
        r = self.rng
        if self.kind == 'text':
            if r.random() < self.blank:
                return Text(r.choice([' ', '  ', '\t']))
            return Text(r.choice(['', ' ', '\n', '']) + r.choice(self.words) +
                        r.choice(['', ' ', '\n', '\n\n', '; ']))
        return Text(r.choice(['', ' ', '\n', '\n  ']) + r.choice(self.words) +
                    r.choice(['', ' ', '\n', '. ']))

    def body(self, env, depth, lo=0):
        nodes = []
        for _ in range(self.rng.randrange(lo, self.size + 1)):
            n = self.node(env, depth)
            if isinstance(n, Text) and nodes and isinstance(nodes[-1], Text):
                nodes[-1] = Text(nodes[-1].s + n.s)
            else:
                nodes.append(n)
        return nodes

    def node(self, env, depth):
        r = self.rng
        x = r.random()
        if depth <= 0 or x < .2:
            return self.text() if r.random() < .5 else Expr(self.value(env))
        if x < .3 or not self.feats:
            return Expr(self.value(env))
        if self.kind == 'xml' and x < .5:
            return self.el(env, depth)
        feat = r.choice(self.feats)
        self.used.add(feat)
        return getattr(self, 'g_' + feat)(env, depth)

    def el(self, env, depth):
        r = self.rng
        attrs = []
        names = ['id', 'class', 'title', 'data-k', 'href', 'xml:lang']
        if r.random() < .2:
            names = ['for', 'content', 'name', 'value', 'test', 'each', 'if', 'with', 'strip']
        for name in r.sample(names, r.choice([0, 0, 1, 1, 2, 3])):
            attrs.append((name, self.attr_parts(env)))
        n = El(r.choice(TAGS), attrs, self.body(env.child(), depth - 1))
        if 'strip' in self.feats and r.random() < .2:
            self.used.add('strip')
            n.strip = '' if r.random() < .2 else self.expr(env, 'bool')
        if 'content' in self.feats and r.random() < .15:
            self.used.add('content')
            n.content = self.value(env)
            n.body = []
        if 'pyattrs' in self.feats and r.random() < .2:
            self.used.add('pyattrs')
            n.pyattrs = self.pyattrs(env)
        return n

    def attr_parts(self, env):
        r = self.rng
        parts = []
        for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 3, 7, 20])):
            if r.random() < .5:
                if parts and isinstance(parts[-1], Text):
                    continue
                parts.append(Text(r.choice(['', '', ' ', '  ']) + r.choice(self.words) +
                                  r.choice(['', ' ', '-'])))
            else:
                parts.append(Expr(self.value(env)))
        return parts

    def pyattrs(self, env):
        r = self.rng
        items = ["'p%d': %s" % (i, self.value(env)) for i in range(r.randrange(0, 3))]
        form = r.random()
        if form < .1:
            return 'None'
        if form < .7:
            return '{%s}' % ', '.join(items)
        return '[%s]' % ', '.join('(%s, %s)' % tuple(i.split(': ', 1)) for i in items)

    def g_if(self, env, depth):
        orelse = None
        if self.rng.random() < .5:
            orelse = self.branch(env, depth)
        return If(self.expr(env, 'bool'), self.branch(env, depth), orelse)

    def branch(self, env, depth, lo=0):
        """A body; often exactly one element, so that the attribute form applies."""
        if self.kind == 'xml' and self.rng.random() < .4:
            return [self.el(env.child(), depth - 1)]
        if self.feats and self.rng.random() < .2 and depth > 1:
            feat = self.rng.choice(self.feats)
            self.used.add(feat)
            return [getattr(self, 'g_' + feat)(env.child(), depth - 1)]
        return self.body(env.child(), depth - 1, lo)

    def g_for(self, env, depth):
        r = self.rng
        inner = env.child()
        v = self.fresh()
        form = r.random()
        if form < .5:
            target, it, binds = v, self.expr(env, 'ints'), {v: 'int'}
        elif form < .8:
            target, it, binds = v, self.expr(env, 'strs'), {v: 'str'}
        else:
            w = self.fresh()
            target = '%s, %s' % (v, w)
            it, binds = 'enumerate(%s)' % self.expr(env, 'strs'), {v: 'int', w: 'str'}
        inner.vars.update(binds)
        inner.own.update(binds)
        return For(target, it, self.branch(inner, depth))

    def g_switch(self, env, depth):
        r = self.rng
        type = r.choice(['int', 'str', 'mixed'])
        cases = [(self.expr(env, type, 1), self.branch(env, depth))
                 for _ in range(r.randrange(0, 4))]
        orelse = self.branch(env, depth) if r.random() < .6 else None
        if not cases and orelse is not None and self.kind == 'text':
            orelse = None
        return Switch(self.expr(env, type, 1), cases, orelse)

    def g_with(self, env, depth):
        r = self.rng
        inner = env.child()
        binds = []
        own = [n for n in sorted(env.own) if env.vars.get(n) in ('int', 'str', 'bool')]
        for _ in range(r.randrange(1, 4)):
            if own and r.random() < .4:
                name = r.choice(own)
                if name in [b[0] for b in binds] and r.random() < .5:
                    continue
                type = env.vars[name]
            else:
                name, type = self.fresh(), r.choice(['int', 'str', 'bool'])
            value = self.expr(inner, type)
            if type == 'str' and r.random() < .2:
                value = r.choice(["'a;b=1' + %s", "%s + '; %s = 2;c=='", "';%s=' + %s",
                                  "(%s, ';x=(')[0]", "{';k=': %s}[';k=']"]).replace(
                    ' %s ', ' q ').replace(';%s', ';q') % value
            binds.append((name, value))
            inner.vars[name] = type
            inner.own.add(name)
        if not binds:
            return self.text()
        n = With(binds, self.branch(inner, depth))
        if r.random() < .3 and 'nop' in self.feats and 'py' in self.feats:
            # a variable of its own, also one that is false, which is there again afterwards
            name = self.fresh()
            value = r.choice(['0', "''", 'False', 'None', '[]', '0.0', '7', "'old'", '(1,)'])
            binds.insert(0, (name, self.expr(env, r.choice(['int', 'str', 'bool']))))
            if r.random() < .4:
                all_ = r.random() < .5
                n.body[len(n.body) // 2:len(n.body) // 2] = [
                    With([(b, r.choice(['0', "'in'", 'None'])) for b, _ in binds
                          if b == name or all_], [Expr(name)]), Expr(name)]
            return Nop([Py('%s = %s' % (name, value)), n, Expr("'%%r' %% (%s,)" % name)])
        return n

    def g_replace(self, env, depth):
        return Replace(self.value(env))

    def g_nop(self, env, depth):
        return Nop(self.body(env.child(), depth - 1))

    def g_strip(self, env, depth):
        n = self.el(env, depth)
        n.strip = '' if self.rng.random() < .2 else self.expr(env, 'bool')
        return n

    def g_content(self, env, depth):
        n = self.el(env, depth)
        n.content, n.body = self.value(env), []
        return n

    def g_pyattrs(self, env, depth):
        n = self.el(env, depth)
        n.pyattrs = self.pyattrs(env)
        return n

    def g_comment(self, env, depth):
        return Comment(' %s ' % self.rng.choice(self.words), self.rng.random() < .5)

    def g_py(self, env, depth):
        name = self.fresh()
        type = self.rng.choice(['int', 'str'])
        code = '%s = %s' % (name, self.expr(env, type))
        env.vars[name] = type
        env.own.add(name)
        return Py(code)

    # -- functions ----------------------------------------------------------
    fn_rate = 0     # how many of the values that are output are calls
    joined = 0      # how many of the strings used in expressions are calls
    closures = 0    # how many of the functions begin with several nested ones

    boomy = 0       # how many of the values in functions are failures
    mixed = 0       # how many calls are not run to their end, or alternately

    def odd_call(self, env):
        """A call, or an expression that runs functions in an unusual way."""
        r = self.rng
        if self.boomy and r.random() < .6:
            self.used.add('handled failure')
            return 'att(lambda: %s)' % self.call_code(env)
        if self.mixed and r.random() < self.mixed:
            if r.random() < .3:
                self.used.add('partial run')
                return 'peek(%s)' % self.call_code(env)
            self.used.add('alternate runs')
            return 'mix(%s)' % ', '.join(self.call_code(env) for _ in range(r.choice([2, 2, 3])))
        return self.call_code(env)

    def call_code(self, env):
        name, params = self.rng.choice(env.funcs)
        self.used.add('call')
        if name in self.top_names and self.rng.random() < .3:
            name = self.rng.choice(['self.', 'local.']) + name
        return '%s(%s)' % (name, self.call_args(env, params))

    top_names = ()
    nesting = 0
    blank = 0

    def params(self, n):
        out, dflt = [], False
        if n and self.rng.random() < .1:
            n, dflt = 6, self.rng.random() < .5
        for _ in range(n):
            type = self.rng.choice(['int', 'str', 'bool', 'ints'])
            if self.rng.random() < .3:
                dflt = True
            d = {'int': '7', 'str': repr(self.words[0]), 'bool': 'True', 'ints': '(1, 2)'}[type]
            out.append((self.fresh('p'), type, d if dflt else None))
        if self.stars and self.rng.random() < self.stars:
            self.used.add('*args')
            out.append((self.fresh('p'), self.rng.choice(['*', '*', '*only']), None))
            for _ in range(self.rng.randrange(0 if out[-1][1] == '*' else 1, 3)):
                type = self.rng.choice(['int', 'str'])
                out.append((self.fresh('p'), type, {'int': '8', 'str': "'kw'"}[type]
                            if self.rng.random() < .5 else None))
        if self.stars and self.rng.random() < self.stars:
            self.used.add('**kwargs')
            out.append((self.fresh('p'), '**', None))
        return out

    stars = 0       # how many of the functions have *args, keyword-only, **kwargs

    @staticmethod
    def sig(params):
        return ', '.join(
            '*' if t == '*only' else t + n if t in ('*', '**') else
            n if d is None else '%s=%s' % (n, d) for n, t, d in params)

    @staticmethod
    def forward(params):
        """Arguments that pass on all parameters."""
        out, star = [], False
        for n, t, _ in params:
            if t in ('*', '*only'):
                star = True
            if t != '*only':
                out.append(t + n if t in ('*', '**') else '%s=%s' % (n, n) if star else n)
        return out

    def fn_env(self, env, params):
        e = env.inner()
        for n, t, _ in params:
            if t != '*only':
                e.vars[n] = {'*': 'ints', '**': 'strs'}.get(t, t)
                e.own.add(n)
        e.in_def = True
        return e

    def functions(self, env, count, depth):
        """Top-level functions; calls only go to later ones or recur on a counter."""
        r = self.rng
        sigs = [('f%d' % i, self.params(r.randrange(0, 4))) for i in range(count)]
        self.top_names = [n for n, _ in sigs]
        counters = {}
        for name, params in sigs:
            if r.random() < .3:     # recursion on a counter, the first parameter
                counters[name] = self.fresh('k')
                params.insert(0, (counters[name], 'depth', None))
        wrappers = []
        for i in range(r.randrange(0, 3)):
            types = [r.choice(['int', 'str']) for _ in range(r.randrange(0, 3))]
            bodies = 2 if self.stars and r.random() < .3 else 1
            wrappers.append(('wrap%d' % i, types, self.params(r.randrange(0, 2)), bodies))
        defs = []
        for i, (name, params) in enumerate(sigs):
            e = self.fn_env(env, params)
            e.funcs = sigs[i + 1:]
            e.wrappers = []
            body = []
            if r.random() < self.closures:
                for _ in range(r.randrange(1, 4)):
                    body.append(self.g_innerdef(e, depth))
                    if r.random() < .5:
                        body.append(Expr(self.call_code(e)))
            body += self.body(e, depth)
            if name in counters:
                c = counters[name]
                again = Expr('%s(%s)' % (name, ', '.join(
                    [c + ' - 1'] + self.forward(params[1:]))))
                self.used.add('recursion')
                node = If('%s > 0' % c, [Text('(')] + [again] * r.choice([1, 1, 2]) + [Text(')')],
                          None if r.random() < .5 else [Text('.')])
                body.insert(r.randrange(len(body) + 1), node)
            defs.append(Def(name, self.sig(params), speaking(body)))
        for name, types, params, bodies in wrappers:
            e = self.fn_env(env, params)
            e.funcs, e.wrappers = sigs, []
            body = self.body(e.child(), depth - 1)
            for _ in range(r.randrange(1, 3)):
                code = r.choice(['body', 'body2'][:bodies]) + '(%s)' % ', '.join(self.expr(e, t, 1) for t in types)
                node = Expr(code)
                x = r.random()
                if x < .3:
                    v = self.fresh()
                    node = For(v, 'range(%d)' % r.randrange(0, 4), [Text('['), node, Text(']')])
                elif x < .5:
                    node = If(self.expr(e, 'bool', 1), [node], None)
                elif x < .6 and self.kind == 'xml':
                    node = El('q', [('title', [node])], [])
                body.insert(r.randrange(len(body) + 1), node)
            defs.append(Def(name, self.sig(
                [(b, None, None) for b in ['body', 'body2'][:bodies]] + params), speaking(body)))
        env.funcs = list(sigs)
        env.wrappers = wrappers
        if wrappers and r.random() < .4:    # nothing but a call with a body
            e = self.fn_env(env, [])
            defs.append(Def('only', '', speaking([self.g_call(e, depth)])))
            env.funcs.append(('only', []))
        return defs

    def g_call(self, env, depth):
        if not env.wrappers:
            return Expr(self.value(env))
        name, types, params, bodies = self.rng.choice(env.wrappers)
        argnames = [(self.fresh('a'), t, None) for t in types]
        e = env.inner()
        for n, t, _ in argnames:
            e.vars[n] = t
            e.own.add(n)
        e.wrappers = []
        self.used.add('py:call')
        r = self.rng
        decl = [n for n, _, _ in argnames]
        if self.stars and r.random() < .4:
            x = r.random()
            if x < .4 and len(set(types)) == 1:
                k = r.randrange(len(types))
                for n in decl[k:]:
                    del e.vars[n]
                decl[k:] = ['*' + self.fresh('a')]
                e.vars[decl[k][1:]] = types[0] + 's'
                e.own.add(decl[k][1:])
            elif x < .7:
                decl.append(self.fresh('a') + '=5')
                e.vars[decl[-1][:-2]] = 'int'
                e.own.add(decl[-1][:-2])
            else:
                decl.append('**' + self.fresh('a'))
            self.used.add('arguments of a body')
        given = ['%caller'] * bodies
        if self.stars and r.random() < .3:
            given = ['%s=%%caller' % b for b in ['body', 'body2'][:bodies]]
        args = self.call_args(env, params, '=' in given[0])
        callee = name
        if self.stars and r.random() < .3:
            callee = r.choice(['(%s if True else None)', '[%s][0]', '(lambda *a, **k: %s(*a, **k))',
                               'self.%s']) % name
        return Call(', '.join(decl) or None,
                    '%s(%s%s)' % (callee, ', '.join(given), ', ' + args if args else ''),
                    speaking(self.body(e, depth - 1)))

    def g_innerdef(self, env, depth):
        if not env.in_def:
            return Expr(self.value(env))
        name, params = self.fresh('g'), self.params(self.rng.randrange(0, 3))
        e = self.fn_env(env, params)
        d = Def(name, self.sig(params), speaking(self.body(e, depth - 1)))
        d.inner = True
        env.funcs = env.funcs + [(name, params)]
        self.used.add('inner def')
        return d

    def call_args(self, env, params, kw=False):
        r = self.rng
        args = []
        for pname, ptype, default in params:
            if ptype in ('*', '*only'):
                if ptype == '*' and not kw:
                    if r.random() < .3:
                        args.append('*%s' % r.choice(['[5, 6]', '()', 'l0', 'range(2)']))
                    else:
                        args += [self.expr(env, 'int', 1) for _ in range(r.randrange(0, 3))]
                kw = True
                continue
            if ptype == '**':
                if r.random() < .3:
                    args.append("**%s" % r.choice(['{}', "{'k9': 1}", 'dict(k8=1, k7=2)']))
                else:
                    args += ['k%d=%s' % (i, self.expr(env, 'int', 1))
                             for i in range(r.randrange(0, 3))]
                continue
            if default and r.random() < .4:
                kw = True
                continue
            code = (str(r.randrange(0, 4)) if ptype == 'depth' else
                    self.expr(env, ptype, 1))
            if kw or r.random() < .2:
                kw = True
                args.append('%s=%s' % (pname, code))
            else:
                args.append(code)
        return ', '.join(args)

    # -- whole templates ----------------------------------------------------
    def template(self, mode='xml', extra=(), functions=0, depth=2):
        env = self.env0.child()
        defs = self.functions(env, functions, depth) if functions else []
        tpl = self._template(mode, extra, env)
        body = tpl.body if tpl.kind == 'text' else tpl.body[0].body
        for d in defs:
            body.insert(self.rng.randrange(len(body) + 1), d)
        return tpl

    def _template(self, mode, extra, env):
        if self.kind == 'text':
            body = self.body(env, self.maxdepth, 1)
            if not any(not isinstance(n, Text) or n.s for n in body):
                body.append(Text('x'))
            return Template('text', list(extra) + body)
        root = El(self.rng.choice(TAGS), [], None)
        root.body = list(extra) + self.body(env, self.maxdepth, 1)
        return Template('xml', [root], mode=mode)
