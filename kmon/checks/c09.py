"""C09: embedded Python expressions are delimited correctly."""
import re

from ..emit import IDENT
from ..model import escape, escape_text

ID = 'C09'
RULE = ('Random Python expressions (strings of every quoting with braces, quotes, dollars, tags '
        'and markup inside, f-strings, dicts, sets, comprehensions, lambdas, comparisons, '
        'tuples, calls, line breaks and comments inside brackets) as ${...} and $name.attr '
        'between hostile texts (unbalanced quotes and brackets, $$, lone $, other alphabets), in '
        'XML content, attributes, CDATA, script, py:content and text templates (LF and CRLF); '
        'random code blocks (nested blocks, strings and brackets over lines, comments, blank lines, '
        'any indentation, every form of the block). '
        'Non-trivial when an expression contains a brace, quote, dollar or line break. Oracle: '
        'Python evaluates the same expression or code; text must be unchanged.')
COUNT = {'quick': 14000, 'thorough': 400000}
MIN = {'renders': 10000, 'positions': 9, 'expressions': 20000, 'expression_forms': 38}
INNER = ['}', '{', '$', '${x}', '$x', '$$', '"', "'", '#', '#!', '\\', '<b>', '&amp;', '%}', '{%if%}', ']]',
         'abc', ' ', '\u00e9', '\u4e2d', '\U0001f600', '\u2028', '\x85', '(', ')', '[', ']', '${', '}}',
         '{{', '%s', "'''", '"""', '-->', '0', ';', ':', '/>', '\t', '  ']
TEXTS = ["it's", '"', "'''", '"""', '\\', '(', '[', '{', '}', ')', ']', '{{', '}}', '#', '# x', '`',
         '@', '~', ' ', '\n', '\n  ', '\t', '\u00e9', '\u4e2d', '\u201cq\u201d', '0777', '1e', '\u2028',
         '\U0001f600', '\u2026', 'abc', 'lambda:', ' if', '?', '!', '.', ',', '-', '=', '==', 'x y',
         '&', '<', '>', 'f"', '\u00a0', ':', ';', '%', '\u00f1ame', '\u00df', '\u0663', '\u03a9',
         '\u0301', '\u65e5', '\u00b2', '\u00b7']


NAME = re.compile(r'[a-zA-Z0-9_.]')


class Obj(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __str__(self):
        return 'obj'

    __repr__ = __str__

    def m(self, *a, **k):
        return 'm%r%r' % (a, sorted(k.items()))


def context():
    return dict(x=3, y='why', z=None, d={'k': 1, '}': 'brace', 'n': {'m': [1, 2]}}, l=[1, 2, 3],
                o=Obj(a=Obj(b='deep'), c=7), UP='up', _u1='u', camelCase=5,
                Deep=Obj(Nx=Obj(y_1=Obj(_z=Obj(q9=Obj(E=Obj(end='fin')))))), f=lambda *a, **k: 'f%r%r' % (a, sorted(k.items())))


class EGen(object):
    def __init__(self, rng, multiline, wide=True):
        self.rng = rng
        self.multiline = multiline
        self.forms = set()

    def nl(self):
        """A line break, allowed inside brackets only."""
        r = self.rng
        if not self.multiline or r.random() < .7:
            return r.choice(['', '', ' '])
        if r.random() < .2:
            self.forms.add('comment in brackets')
            return ' # it\'s } {\n'
        self.forms.add('line break in brackets')
        return r.choice(['\n', '\n  ', ' \n\n '])

    def string(self):
        r = self.rng
        s = ''.join(r.choice(INNER) for _ in range(r.randrange(0, 4)))
        form = r.random()
        if form < .35:
            self.forms.add('string')
            return repr(s)
        if form < .6:
            self.forms.add('double-quoted string')
            return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')
        if form < .75:
            self.forms.add('triple-quoted string')
            q = r.choice(["'''", '"""'])
            if self.multiline and r.random() < .5:
                self.forms.add('line break in string')
                s = s + '\n' + r.choice(INNER)
            return q + s.replace('\\', '\\\\').replace(q[0], '\\' + q[0]) + q
        if form < .85:
            self.forms.add('adjacent strings')
            return repr(s) + r.choice(['', ' ']) + '"%s"' % r.choice(['}', '{', 'b', '$'])
        if form < .93:
            self.forms.add('raw string')
            return "r'%s'" % s.replace("'", '').rstrip('\\').replace('\n', '')
        self.forms.add('byte string')
        return repr(s.encode('utf-8'))

    def fstring(self, d):
        r = self.rng
        self.forms.add('f-string')
        inner = r.choice(['x', 'y', 'x + 1', 'l[0]', 'd["k"]', 'o.c', '{"a": 1}["a"]', 'x!r', 'x:>5',
                          'y!s:<{x}', '(lambda q: q)(x)'])
        if inner.startswith('{'):
            inner = ' ' + inner + ' '
        return "f'%s{%s}%s'" % (r.choice(['', 'a', '{{', '$', '}}']), inner,
                                r.choice(['', 'b', '}}', '{{', '$']))

    def expr(self, d):
        r = self.rng
        if d <= 0:
            return r.choice([lambda: r.choice(['x', 'y', 'z', 'l', 'd', 'o', 'o.a.b', 'o.c', 'None',
                                               'True', '1', '0x1f', '1.5', '-2', '1_000']),
                             self.string])()
        forms = [self.string, self.string, lambda: self.fstring(d), self.dict, self.set_,
                 self.list_, self.tuple_, self.comp, self.dictcomp, self.lambda_, self.ternary,
                 self.compare, self.call, self.method, self.subscript, self.boolean, self.percent,
                 self.format_, self.paren, self.walrus, self.star, self.gen, self.arith,
                 self.baretuple]
        f = r.choice(forms)
        if f is self.baretuple and d < self.top:
            f = self.tuple_
        self.d = d - 1
        return f()

    top = 3

    def sub(self):
        d = self.d
        out = self.expr(d if self.rng.random() < .8 else 0)
        self.d = d
        return out

    def atom(self):
        return '(%s)' % self.sub()

    def items(self, lo=0):
        return [self.sub() for _ in range(self.rng.randrange(lo, 3))]

    def join(self, items):
        return (',' + self.nl()).join(items)

    def dict(self):
        self.forms.add('dict')
        return '{%s%s%s}' % (self.nl(), self.join(
            ['%s: %s' % (self.string(), self.sub()) for _ in range(self.rng.randrange(0, 3))]),
            self.nl())

    def set_(self):
        self.forms.add('set')
        return '{%s%s}' % (self.rng.choice(['1', "'}'", 'x']), self.rng.choice(['', ',']))

    def list_(self):
        self.forms.add('list')
        return '[%s%s%s]' % (self.nl(), self.join(self.items()), self.nl())

    def tuple_(self):
        self.forms.add('tuple')
        return '(%s,%s%s)' % (self.sub(), self.nl(), self.join(self.items()))

    def baretuple(self):
        self.forms.add('tuple without parentheses')
        return self.sub() + ', ' + ', '.join(self.items())

    def comp(self):
        self.forms.add('list comprehension')
        return '[%s %sfor q in %s%s]' % (self.rng.choice(['q', 'str(q) + %s' % repr('}')]),
                                         self.nl(), self.rng.choice(['l', 'range(2)', "'a}'"]),
                                         self.rng.choice(['', ' if q != 1', " if q != '}'"]))

    def dictcomp(self):
        self.forms.add('dict comprehension')
        return '{q: %s %sfor q in l if q < 3}' % (self.sub(), self.nl())

    def gen(self):
        self.forms.add('generator expression')
        return "','.join(str(q) for q in %s)" % self.rng.choice(['l', "{'}': 1}"])

    def lambda_(self):
        self.forms.add('lambda')
        return '(lambda q, p={}: %s)(%s)' % (self.rng.choice(['q', '[q, p]', "{'a': q}"]), self.sub())

    def ternary(self):
        self.forms.add('conditional')
        return '%s if %s else %s' % (self.atom(), self.atom(), self.atom())

    def compare(self):
        self.forms.add('comparison')
        return self.rng.choice(['x < 3', 'x > 1 and x <= 5', 'x != 3', '1 < x < 9', 'x == 3',
                                'z is None', '3 in l', 'x >= 2', 'not x', "'}' in d", 'x<4>2'])

    def call(self):
        self.forms.add('call')
        return 'f(%s%s%s)' % (self.nl(), self.join(
            self.items() + ['%s=%s' % (k, self.sub()) for k in self.rng.sample(['a', 'b'], 1)]),
            self.nl())

    def method(self):
        self.forms.add('method call')
        return 'o.m(%s).%s' % (self.sub(), self.rng.choice(['upper()', "replace('}', '{')", 'strip()']))

    def subscript(self):
        self.forms.add('subscript')
        return self.rng.choice(["d['k']", "d['}']", "d['n']['m'][0]", 'l[0]', 'l[-1:]', 'l[::2]',
                                "{'a': {'b': {'c': 1}}}['a']['b']['c']", "d.get('{', '}')",
                                '[{}][0]', "d['n']['m'][d['k']]"])

    def boolean(self):
        self.forms.add('boolean')
        return '%s %s %s' % (self.atom(), self.rng.choice(['and', 'or']), self.atom())

    def percent(self):
        self.forms.add('% formatting')
        return self.rng.choice(["'%s}' % x", "'%(k)s' % d", "'%d%%' % x", 'x % 2', '"{%s}" % (y,)'])

    def format_(self):
        self.forms.add('str.format')
        return self.rng.choice(["'{}'.format(x)", "'{0}{{}}'.format(y)", "'{a}'.format(a='}')",
                                "'{0[k]}'.format(d)"])

    def paren(self):
        self.forms.add('parentheses')
        return '(%s%s%s)' % (self.nl(), self.sub(), self.nl())

    def walrus(self):
        self.forms.add('assignment expression')
        return '(w := %s)' % self.sub()

    def star(self):
        self.forms.add('unpacking')
        return self.rng.choice(['[*l, *l]', "{**d, 'b': 2}", 'f(*l)', "f(**{'a': '}'})", '(*l, x)'])

    def arith(self):
        self.forms.add('arithmetic')
        return self.rng.choice(['x+1', '-x', '~x', 'x**2', 'x // 2', '1+1', '(x+1)*2', 'x@x if 0 else 1',
                                '1if x else 2', 'x<<2', 'x&1', 'x|4'])


def segments(rng, g, kind):
    """Alternating hostile text and expressions: [('t', text) | ('e', code)]."""
    out = []
    for _ in range(rng.randrange(1, 4)):
        out.append(('t', ''.join(rng.choice(TEXTS) for _ in range(rng.randrange(0, 4)))))
        x = rng.random()
        if x < .2:
            out.append(('e', rng.choice(['x', 'y', 'o.a.b', 'o.c', 'z', 'd', 'o.a', 'UP', '_u1', 'camelCase',
                                      'Deep.Nx.y_1._z.q9.E.end', 'Deep.Nx.y_1._z'])))
        elif x < .3:
            out.append(('t', '$' * rng.randrange(1, 3)))
        else:
            g.top = rng.choice([1, 2, 3])
            out.append(('e', g.expr(g.top)))
    out.append(('t', ''.join(rng.choice(TEXTS) for _ in range(rng.randrange(0, 4)))))
    return out


def write(rng, segs, kind, text, code):
    """Source of the segments; text/code quote them for the position."""
    out = ''
    following = ''
    pieces = []
    for what, s in reversed(segs):
        if what == 'e':
            # names consist of ASCII letters, digits and _; other characters end them
            if IDENT.match(s) and rng.random() < .6 and not NAME.match(following):
                piece = '$' + s
            else:
                pad = rng.choice(['', '', '', ' ', '  ', '\n', '\n   ', '\t', ' \n\t '])
                if kind == 'attr':
                    pad = pad.replace('\n', '&#10;').replace('\t', '&#9;')
                piece = '${' + pad + code(s) + rng.choice(['', pad[:1] if pad[0:1] != '&' else '']) + '}'
            following = '$'
        else:
            piece = ''
            for i, c in enumerate(s):
                if c == '$':
                    nxt = s[i + 1:i + 2] or following[:1]
                    # a lone $ is literal in XML when it starts no expression
                    lone = kind != 'text' and (nxt in ' \n\t)]}.,;:!?#@~=-"\'&<>\\%' and nxt != '')
                    piece += '$' if lone and rng.random() < .5 else '$$'
                else:
                    piece += text(c)
            if s:
                following = s
        pieces.append(piece)
    return ''.join(reversed(pieces))


def xtext(c):
    return {'&': '&amp;', '<': '&lt;', '>': '&gt;', '\r': '&#13;'}.get(c, c)


def xattr(c):
    return {'&': '&amp;', '<': '&lt;', '"': '&quot;', '\n': '&#10;', '\t': '&#9;', '\r': '&#13;'}.get(c, c)


def value(code):
    return eval(code.strip(), context())


def statements(rng, g, d, n=0):
    """Lines of a random code block (indented by 4 per level) that adds to the list `r`."""
    lines = []
    for _ in range(rng.randrange(1, 4)):
        x = rng.random()
        g.top = rng.choice([1, 2, 3])
        if d <= 0 or x < .45:
            e = g.expr(g.top)
            lines.append(rng.choice(['r.append((%s))', 'r.extend([%s])', 'v = (%s); r.append(v)']) % e)
            g.forms.add('statement')
        elif x < .55:
            lines.append("s = '''a%s\nb\n   c%s'''" % (
                rng.choice(['', ' ', '#', '"', '\\t']), rng.choice(['', '\n', '\n  '])))
            lines.append('r.append(s)')
            g.forms.add('string over lines')
        elif x < .62:
            lines.append(rng.choice(['# c }', '#', '', '   ', "# it's"]))
            g.forms.add('comment or blank line')
        elif x < .7:
            lines.append('v = 1 + \\\n%s2; r.append(v)' % rng.choice(['', '  ', '        ']))
            g.forms.add('joined lines')
        elif x < .78:
            lines.append('v = [1,%s2,\n%s3]' % (rng.choice(['\n', '\n\n', ' # x\n']),
                                              rng.choice(['', '  ', '\t'])))
            lines.append('r.extend(v)')
            g.forms.add('brackets over lines')
        else:
            head = rng.choice(['if %s:' % g.expr(1), 'for q in %s:' % rng.choice(['l', '"ab"']),
                               'if x > 5: # c', 'def h%d(a,\n      b=2):' % n,
                               'try:', 'while len(r) < 3:'])
            if head.startswith('if') and '\n' in head:
                head = 'if x:'
            body = statements(rng, g, d - 1, n + 1)
            if head.startswith('while'):
                body = ['r.append(0)'] + body
            g.forms.add('block of ' + head.split()[0].rstrip(':'))
            if not any(b.strip() and not b.lstrip().startswith('#') for b in body):
                body.append('pass')
            lines.append(head)
            lines += ['    ' + b for b in body]
            if head.startswith('if') and rng.random() < .5:
                lines += ['else:', '    r.append("else")']
            elif head == 'try:':
                lines += ['finally:', '    pass']
            elif head.startswith('def'):
                lines += ['h%d(1)' % n]
    return lines


def gen_code(rng, kind):
    g = EGen(rng, multiline=True)
    while True:
        lines = statements(rng, g, rng.choice([0, 1, 2]))
        code = '\n'.join(lines)
        if '?>' in code or (kind == 'code text' and '%' in code):
            continue
        if not any(l.strip() and not l.lstrip().startswith('#') for l in lines):
            if not code.strip() and kind != 'code':
                continue
            g.forms.add('no statement')
        ctx = dict(context(), r=[])
        try:
            exec(code, ctx)
        except Exception:
            continue
        break
    want = ''.join('|%s' % (v,) for v in ctx['r'])
    indent = rng.choice(['', '', '  ', '    ', '\t'])
    # comments may be indented like nothing else
    body = '\n'.join(rng.choice([indent, '', ' ', '   ', '          ', '\t']) + l.lstrip()
                     if l.lstrip().startswith('#') else indent + l if l.strip() else l
                     for l in lines)
    form = rng.random()
    if kind == 'code':
        if form < .25:
            g.forms.add('# form')
            source = '<?py #\n%s\n%s?>' % (body, rng.choice(['', '  ']))
        elif form < .5:     # the first line is not indented like the others
            g.forms.add('indented like the instruction')
            source = '%s<?%s\n%s\n%s?>' % (indent, rng.choice(['py', 'python']), body, indent)
        elif form < .75:
            g.forms.add('on the same line')
            source = '<?py %s?>' % code
        else:
            source = '<?py\n%s\n?>' % code
        out = '<a>%s<i py:for="q in r">|${q}</i></a>' % source
        if indent and form < .5 and form >= .25:
            out = '<a>%s<i py:for="q in r">|${q}</i></a>' % source.lstrip()
        if rng.random() < .2:
            out = '<a py:if="1">%s</a>' % out[3:-4]
        return dict(source=out.replace('|${q}', '${q}'), want='<a>%s</a>' % ''.join(
            '<i>%s</i>' % ('' if v is None else escape(str(v))) for v in ctx['r']),
            forms=sorted(g.forms), exprs=[code], kind=kind, nontrivial=True)
    body = body.replace('$', '$$')
    if form < .5:
        source = '{%%py%%}\n%s\n{%%end%%}' % body
    else:
        g.forms.add('%py form')
        source = '%%py\n%s\n%%end\n' % body
    source += '{%for q in r%}|${q}{%end%}.'
    want = ''.join('|%s' % ('' if v is None else v,) for v in ctx['r']) + '.'
    if rng.random() < .2 and "'''" not in code and '"""' not in code:
        source = source.replace('\n', '\r\n')
    return dict(source=source, want=want, forms=sorted(g.forms), exprs=[code], kind='text code',
                nontrivial=True)


def gen(rng, i, tier):
    if rng.random() < .2:
        return gen_code(rng, rng.choice(['code', 'code', 'code text']))
    kind = rng.choice(['content', 'content', 'attr', 'attr', 'cdata', 'script', 'text', 'text', 'text crlf',
                       'py:content'])
    g = EGen(rng, multiline=rng.random() < .5)
    while True:
        if kind == 'py:content':
            g.top = 3
            segs = [('e', g.expr(3))]
        else:
            segs = segments(rng, g, kind)
        try:
            vals = [(w, s if w == 't' else value(s)) for w, s in segs]
        except Exception:       # not every random expression is meaningful
            continue
        code = ''.join(s for w, s in segs if w == 'e')
        break
    mapq = lambda f: (lambda s: ''.join(map(f, s)))
    if kind in ('content', 'py:content'):
        if kind == 'content':
            source = '<a>' + write(rng, segs, kind, xtext, mapq(xtext)) + '</a>'
        else:
            source = '<a py:content="%s"/>' % mapq(xattr)(segs[0][1])
        want = '<a>' + ''.join(escape_text(v) if w == 't' else '' if v is None else escape(str(v))
                               for w, v in vals) + '</a>'
    elif kind == 'attr':
        source = '<a t="%s"/>' % write(rng, segs, kind, xattr, mapq(xattr))
        parts = [escape(str(v)) for w, v in vals if v is not None and not (w == 't' and v == '')]
        has = any(w == 'e' or v for w, v in vals)
        want = '<a t="%s"/>' % ''.join(parts) if parts or not has else '<a/>'
    elif kind in ('cdata', 'script'):
        src = write(rng, segs, kind, lambda c: c, lambda s: s)
        want = ''.join(v if w == 't' else '' if v is None else escape(str(v)) for w, v in vals)
        if ']]>' in src or ']]>' in want:
            return gen(rng, i, tier)
        if kind == 'cdata':
            source, want = '<a><![CDATA[%s]]></a>' % src, '<a><![CDATA[%s]]></a>' % want
        elif src == '':
            return gen(rng, i, tier)
        else:
            source = '<script>' + ''.join(map(xtext, src)) + '</script>'
            want = '<script>/*<![CDATA[*/' + want + '/*]]>*/</script>'
    else:
        def ttext(c):
            return {'\\': '\\\\', '%': '\\%'}.get(c, c)
        source = write(rng, segs, 'text', ttext, lambda s: s)
        want = ''.join(v if w == 't' else '' if v is None else str(v) for w, v in vals)
        if kind == 'text crlf':
            if "'''" in code or '"""' in code:
                return gen(rng, i, tier)
            source, want = source.replace('\n', '\r\n'), want.replace('\n', '\r\n')
        if not source:
            return gen(rng, i, tier)
    return dict(kind=kind, source=source, want=want, forms=sorted(g.forms),
                exprs=[s for w, s in segs if w == 'e'],
                nontrivial=any(c in code for c in '{}\'"$\n'))


def run(case, mon):
    import kajiki
    make = kajiki.TextTemplate if case['kind'].startswith('text') else kajiki.XMLTemplate
    got = make(case['source'])(dict(context(), r=[])).render()
    mon.count('renders')
    mon.seen('positions', case['kind'])
    for f in case['forms']:
        mon.seen('expression_forms', f)
    for e in case['exprs']:
        mon.count('expressions')
        mon.seen('distinct_expressions', e)
    mon.equal('output', case['want'], got)
