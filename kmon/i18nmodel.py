"""What static text is a message: shared by C10 (rendering) and C18 (extraction)."""
from .gen import Gen, WORDS
from .model import Interp, Text, Expr, CData, Raw, escape_text

SPACE = ' \t\n'


def runs(body):
    """Split siblings into ('run', [Text|Expr...]) (one text of the document, with the
    expressions in it) and ('node', n)."""
    out = []
    for n in body:
        if isinstance(n, (Text, Expr)):
            if isinstance(n, Text) and not n.s:
                continue
            if out and out[-1][0] == 'run':
                if isinstance(n, Text) and isinstance(out[-1][1][-1], Text):
                    out[-1][1][-1] = Text(out[-1][1][-1].s + n.s)
                else:
                    out[-1][1].append(n)
            else:
                out.append(('run', [n]))
        else:
            out.append(('node', n))
    return out


def pieces(run, escape=True):
    """(kind, value) of a run: 'ws' white space at its ends, 'msg' a message, 'text' blank
    text between expressions, 'expr' code."""
    run = list(run)
    before = after = ''
    if isinstance(run[0], Text):
        s = run[0].s
        core = s.lstrip(SPACE)
        if core or len(run) > 1:
            before, run[0] = s[:len(s) - len(core)], Text(core)
    if isinstance(run[-1], Text):
        s = run[-1].s
        core = s.rstrip(SPACE)
        if core or len(run) > 1:
            after, run[-1] = s[len(core):], Text(core)
    if len(run) == 1 and isinstance(run[0], Text) and not run[0].s.strip(SPACE):
        return [('ws', run[0].s)]
    out = [('ws', before)]
    for n in run:
        if isinstance(n, Expr):
            out.append(('expr', n.code))
        elif n.s:
            out.append(('msg' if n.s.strip(SPACE) else 'text',
                        escape_text(n.s) if escape else n.s))
    out.append(('ws', after))
    return out


class TrInterp(Interp):
    def __init__(self, world, gettext, strip_text=False):
        Interp.__init__(self, world)
        self.gettext = gettext
        self.strip_text = strip_text

    def builtins(self, context, inst):
        d = Interp.builtins(self, context, inst)
        d['gettext'] = d['_'] = self.gettext
        return d

    def run(self, run, scope, escape=True):
        out = []
        for kind, v in pieces(run, escape):
            if kind == 'ws':
                out.append('' if self.strip_text else v)
            elif kind == 'msg':
                out.append(self.gettext(v))
            elif kind == 'text':
                out.append(v)
            else:
                out.append(self.out(scope.eval(v), scope.inst.tpl))
        return ''.join(out)

    def render_body(self, body, scope):
        if scope.inst.tpl.kind == 'text':
            return Interp.render_body(self, body, scope)
        out = []
        for kind, x in runs(body):
            out.append(self.run(x, scope) if kind == 'run' else self.node(x, scope))
        return ''.join(out)

    def n_Raw(self, n, scope):
        if self.strip_text and n.parts:
            parts = list(n.parts)
            if isinstance(parts[0], Text):
                parts[0] = Text(parts[0].s.lstrip(SPACE))
            if isinstance(parts[-1], Text):
                parts[-1] = Text(parts[-1].s.rstrip(SPACE))
            n = Raw(n.tag, n.attrs, parts)
        return Interp.n_Raw(self, n, scope)

    def n_CData(self, n, scope):
        parts = runs(n.parts)
        return '<![CDATA[' + (self.run(parts[0][1], scope, False) if parts else '') + ']]>'


class TrGen(Gen):
    """Documents with all kinds of text, messages and what looks like messages."""
    trwords = ['Hello', 'a & b', 'x < y', 'p > q', 'Olá mundo', '日本語', 'say "hi"', "it's",
               'two\nlines', 'two  words', '%s items', '100%', '{brace}', 'back\\slash', 'é',
               'a.b', '&amp;', 'semi;colon', '#', '😀 smile', 'x', '42', '3.14', '-', '&', '...', 'WORD',
               'http://x.y/z', '()', '%', '_', 'None', 'x\u2028y', 'x' * 300]
    marks = False       # number the messages so that each can be told from the others
    gettext_rate = .1
    raws = True

    def text(self):
        r = self.rng
        if r.random() < .12:
            return Text(r.choice([' ', '\n', '\n  \t', '   ']))
        w = r.choice(self.trwords)
        if self.marks:
            self.n += 1
            w = r.choice(['m%d %s', 'm%d.%s', 'm%d, %s']) % (self.n, w)
        if self.kind == 'text':
            return Text(r.choice(['', ' ']) + w + r.choice(['', ' ', '\n']))
        return Text(r.choice(['', '', ' ', '\n', '\n  ', '\t']) + w +
                    r.choice(['', '', ' ', '\n', ' \n ', '. ']))

    def value(self, env):
        r = self.rng
        if r.random() < self.gettext_rate:
            self.used.add('gettext in an expression')
            w = r.choice(self.trwords)
            if self.marks:
                self.n += 1
                w = 'x%d %s' % (self.n, w)
            return '%s(%r)' % (r.choice(['_', 'gettext']), w)
        return Gen.value(self, env)

    def parts(self, env, ok):
        r = self.rng
        out = []
        for _ in range(r.randrange(0, 4)):
            if r.random() < .6:
                if out and isinstance(out[-1], Text):
                    continue
                out.append(Text(r.choice(['', ' ', '\n']) + r.choice(ok) + r.choice(['', ' '])))
            else:
                out.append(Expr(Gen.value(self, env)))
        return out

    def g_cdata(self, env, depth):
        self.used.add('cdata')
        parts = self.parts(env, self.trwords)
        if self.marks:
            for p in parts:
                if isinstance(p, Text):
                    self.n += 1
                    p.s = 'm%d ' % self.n + p.s
        return CData(parts)

    def g_raw(self, env, depth):
        self.used.add('script or style')
        return Raw(self.rng.choice(['script', 'style']), [],
                   self.parts(env, ['var a = 1;', 'b { c: d }', 'if (x < y && z) {}', 'é']))
