"""C08: text templates reproduce their text and white space."""
import os
import re
import shutil
import tempfile

ID = 'C08'
RULE = ('Random texts over many alphabets, white space characters, dollars, backslashes, braces '
        'and percent signs, cut into random nests of if/for/switch/def/block/py tags written '
        'inline, with {%-, with -%} or on % lines, with LF or CRLF, as string or file in several '
        'encodings, with and without autoescape. Each source character is generated together '
        'with what it must output; non-trivial when at least two tags of different forms occur. '
        'Oracle: per-character bookkeeping of what each tag form removes.')
COUNT = {'quick': 24000, 'thorough': 600000}
MIN = {'renders': 15000, 'forms': 5, 'characters_compared': 100000, 'via_files': 1000,
       'distinct_characters': 60}
LETTERS = u'abcXYZ019.,;:!?()[]<>&"\'#@*+-/=_~^|`'
WIDE = (u'\u00e9\u00df\u4e2d\u0416\u05d0\u0e01\U0001f600\u0301\u200b\ufeff\u2028\u2029\u0085\u00a0'
        u'\u3000\x0b\x0c\x1c\x7f\r\r')
WS = re.compile(r'\s', re.U)


class Tok(object):
    """A piece of source and what it outputs. ``raw``: an unescaped character."""

    def __init__(self, src, out, raw=False):
        self.src, self.out, self.raw = src, out, raw
        self.gone = self.eaten = False

    def blank(self):
        return self.raw and not self.eaten and self.src.isspace()


class G(object):
    def __init__(self, rng, crlf, wide):
        self.rng, self.crlf, self.wide = rng, crlf, wide
        self.nl = '\r\n' if crlf else '\n'
        self.stream = []
        self.forms = set()
        self.eating = False     # right after -%}
        self.nfun = 0

    def put(self, src, out, raw=False):
        t = Tok(src, out, raw)
        if self.eating and raw and src in (' ', '\t'):
            t.eaten = t.gone = True
        else:
            self.eating = False
        self.stream.append(t)
        return t

    def last(self):
        return self.stream[-1].src if self.stream else ''

    def at_line_start(self):
        """Only white space since the start of the line (of the source)?"""
        for t in reversed(self.stream):
            if t.src.endswith('\n'):
                return True
            if not t.blank():
                return False
        return True

    # -- text ---------------------------------------------------------------
    def literal(self, n):
        r = self.rng
        out = []
        for _ in range(n):
            x = r.random()
            if x < .12:
                c = '\n'
            elif x < .3:
                c = r.choice(' \t  ')
            elif x < .36:
                c = r.choice('$$$\\\\')
            elif x < .44:
                c = r.choice('{%}{%')
            elif x < .44 + self.wide:
                c = r.choice(WIDE)
            else:
                c = r.choice(LETTERS)
            out.extend(self.char(c))
        return out

    def char(self, c):
        r = self.rng
        if c == '\n':
            return [self.put(self.nl, self.nl, True)]
        if c == '$':
            return [self.put('$$', '$')]
        if c == '\\':
            return [self.put('\\\\', '\\')]
        if c == '%':
            start = self.at_line_start()
            if self.last().endswith('{') or start and r.random() < .6:
                return [self.put('\\%', '%')]
            if start:    # not a tag, as no letter follows
                return [self.put('%', '%', True), self.put('9', '9', True)]
            return [self.put('%', '%', True)]
        if not WS.match(c) and r.random() < .04:
            return [self.put('\\' + c, c)]
        if r.random() < .01:
            b = r.choice(' \t')
            return [self.put('\\' + b, b), self.put('x', 'x', True)]
        if r.random() < .03:
            return [self.put('\\' + self.nl, ''), self.put(c, c, True)]
        return [self.put(c, c, True)]

    def lone(self):
        """A backslash before a tag or an expression stands for itself."""
        if self.rng.random() < .04:
            return [self.put('\\', '\\')]
        return []

    # -- tags ---------------------------------------------------------------
    def tag(self, text):
        r = self.rng
        x = r.random()
        if x < .35 and self.at_line_start():
            self.strip_before(True)
            self.put('%' + text + self.nl, '')
            self.forms.add('%')
            return
        left, right = r.choice(['{%', '{%', '{%-']), r.choice(['%}', '%}', '-%}'])
        if left == '{%-':
            self.strip_before(False)
        self.put(left + text + r.choice(['', ' ']) + right, '')
        self.forms.add(left + ' ' + right)
        self.eating = right == '-%}'

    def strip_before(self, lines):
        """Mark the white space that a {%- or % tag removes."""
        run = []
        for t in reversed(self.stream):
            if not t.blank():
                break
            run.insert(0, t)
        prev = self.stream[-len(run) - 1].src if len(run) < len(self.stream) else '\n'
        for i, t in enumerate(run):
            if prev.endswith('\n') or (
                    not lines and not ''.join(t.src for t in run[i:]).strip(' \t')):
                for t in run[i:]:
                    t.gone = True
                break
            prev = t.src

    def expr(self, src):
        self.put(src, '')
        return ('val', src)

    # -- structure ----------------------------------------------------------
    def body(self, depth):
        r = self.rng
        nodes = []
        for _ in range(r.randrange(0, 4)):
            x = r.random()
            if depth <= 0 or x < .45:
                nodes.append(('lit', self.literal(r.randrange(0, 8))))
                continue
            nodes.append(('lit', self.lone()))
            if x < .52:
                nodes.append(self.expr(r.choice(["${'<%s>' % n}", '${n}'])))
            elif x < .66:
                test = r.random() < .5
                self.tag('if %s' % test)
                a, b = self.body(depth - 1), []
                if r.random() < .5:
                    self.tag('else')
                    b = self.body(depth - 1)
                nodes.append(('rep', 1, a if test else b))
                self.tag('end')
            elif x < .78:
                k = r.randrange(0, 3)
                self.tag('for i in range(%d)' % k)
                nodes.append(('rep', k, self.body(depth - 1)))
                self.tag('end')
            elif x < .86:
                nodes.append(self.switch(depth))
            elif x < .92:
                self.tag('py x = 1')
            elif x < .96:
                self.nfun += 1
                self.tag('block b%d' % self.nfun)
                nodes.append(('rep', 1, self.body(depth - 1)))
                self.tag('end')
            else:
                self.nfun += 1
                name = 'f%d' % self.nfun
                self.tag('def %s()' % name)
                inner = self.body(depth - 1)
                self.tag('end')
                for _ in range(r.randrange(0, 3)):
                    self.put('${%s()}' % name, '')
                    nodes.append(('rep', 1, inner))
        return nodes

    def switch(self, depth):
        r = self.rng
        n, hit = r.randrange(1, 4), r.randrange(0, 4)
        self.put('{%%switch %d%%}{%%case 0%%}' % hit, '')
        branches = [self.body(depth - 1)]
        for i in range(1, n):
            self.tag('case %d' % i)
            branches.append(self.body(depth - 1))
        orelse = []
        if r.random() < .5:
            self.tag('else')
            orelse = self.body(depth - 1)
        self.tag('end')
        return ('rep', 1, branches[hit] if hit < n else orelse)


def output(nodes, autoescape):
    out = []
    for n in nodes:
        if n[0] == 'lit':
            out.append(''.join('' if t.gone else t.out for t in n[1]))
        elif n[0] == 'val':
            v = '5' if n[1] == '${n}' else '<5>'
            out.append(v.replace('<', '&lt;').replace('>', '&gt;') if autoescape else v)
        else:
            out.append(output(n[2], autoescape) * n[1])
    return ''.join(out)


def gen(rng, i, tier):
    while True:
        g = G(rng, rng.random() < .15, rng.choice([0, .05, .3]))
        nodes = g.body(rng.choice([1, 2, 3, 4]))
        source = ''.join(t.src for t in g.stream)
        if source:
            break
    autoescape = rng.random() < .2
    enc = None
    if i % 8 == 0:
        enc = rng.choice(['utf-8', 'utf-16', 'utf-8', 'latin-1'])
        try:
            source.encode(enc)
        except UnicodeError:
            enc = 'utf-8'
    if rng.random() < .2 and source.endswith('\n') and g.stream[-1].src.startswith('%'):
        source = source[:-2 if g.crlf else -1]      # no newline at the end of the file
    return dict(source=source, want=output(nodes, autoescape), autoescape=autoescape, enc=enc,
                forms=sorted(g.forms), nontrivial=len(g.forms) >= 2)


def run(case, mon):
    import kajiki
    kw = dict(autoescape=True) if case['autoescape'] else {}
    if case['enc']:
        d = tempfile.mkdtemp(prefix='kmon-c08-')
        try:
            fn = os.path.join(d, 't.txt')
            with open(fn, 'wb') as f:
                f.write(case['source'].encode(case['enc']))
            tpl = kajiki.TextTemplate(filename=fn, encoding=case['enc'], **kw)
        finally:
            shutil.rmtree(d)
        mon.count('via_files')
    else:
        tpl = kajiki.TextTemplate(case['source'], **kw)
    got = tpl(dict(n=5)).render()
    mon.count('renders')
    mon.count('characters_compared', len(got))
    for f in case['forms']:
        mon.seen('forms', f)
    for c in set(got):
        mon.seen('distinct_characters', '%04x' % ord(c))
    mon.equal('output', case['want'], got)
