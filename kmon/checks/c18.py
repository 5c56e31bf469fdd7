"""C18: the messages the Babel extractor finds, against those rendering looks up."""
import io
import re
from xml.parsers import expat

from ..gen import Env, Gen
from ..i18nmodel import TrGen, pieces, runs
from ..harness import emit, make_ctx
from ..model import Block, CData, Expr, Text

ID = 'C18'
RULE = ('Random XML templates (all directives, functions, blocks, comments, CDATA sections, '
        'scripts, attributes; pages, children of a layout, DOCTYPEs, LF or CRLF, start tags '
        'and texts over several lines) whose texts and gettext calls are numbered, extracted '
        'from binary, BOM or text files, directly and through babel.messages.extract, with '
        'all options, and then rendered. Non-trivial when the template has at least three '
        'messages. Oracle: the static texts of the abstract template, each once, on the line '
        'where its number is found in the source; the numbered calls in ${...} on a line '
        'between the start and the end of their expression; every message that rendering '
        'passes to gettext must have been extracted, and with the catalog made from the '
        'extracted messages no static text is output untranslated.')
COUNT = {'quick': 6000, 'thorough': 150000}
MIN = {'extractions': 5000, 'messages': 15000, 'python_messages': 1500, 'lookups': 10000,
       'lines': 25, 'features': 14, 'options': 60, 'plurals': 150, 'through_babel': 1000,
       'repeated_messages': 300}
XML = ['if', 'for', 'switch', 'with', 'strip', 'content', 'replace', 'nop', 'py', 'pyattrs',
       'comment', 'cdata', 'cdata', 'raw', 'call', 'innerdef']
KEYWORDS = [['_', 'gettext', 'ngettext'],
            {'_': None, 'gettext': None, 'ngettext': (1, 2), 'N_': None}]
HEADS = ['', '', '\n\n', '<!-- c -->\n', '<!-- Not\na message -->\n', '<!DOCTYPE html>\n',
         '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN"\n  '
         '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">\n',
         '<!DOCTYPE html\n  PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN"\n\n  '
         '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd"\n>\n']


class ExGen(TrGen):
    marks = True
    gettext_rate = .15
    same_rate = .08

    def text(self):
        t = TrGen.text(self)
        r = self.rng
        if r.random() < self.same_rate and 'm%d' % self.n in t.s:
            t.s = t.s.replace('m%d' % self.n, 'm0')     # the same message in several places
        x = r.random()
        if x > .97:    # any text is a message
            t.s = r.choice(['1', '2024', '-', '%', '*', '\u2192', '(%s)' % self.n, '...', '1.5', 'x'])
        elif x < .15:
            t.s = r.choice(['\n', '\n\n ', ' ']) + t.s
        elif x < .3:
            t.s += r.choice(['\n\n', ' end', '\nlast\n'])
        return t

    def value(self, env):
        r = self.rng
        if r.random() >= self.gettext_rate:
            return Gen.value(self, env)
        self.n += 1
        w = 'x%d %s' % (self.n, r.choice(self.trwords))
        self.calls[self.n] = w
        f = r.choice(['_', 'gettext'])
        k = r.randrange(8)
        if k == 0:
            self.calls[self.n] = [w, w + 's']
            return 'ngettext(%r, %r, n0)' % (w, w + 's')
        if k == 1:
            self.calls[self.n] = w + 'joined'
            return "%s(%r 'joined')" % (f, w)
        if k == 2:
            return '(lambda: %s(%r))()' % (f, w)
        if k == 3:
            return '[%s(%r)][0]' % (f, w)
        if k == 4:
            self.used.add('call over lines')
            return '(n0,\n %s(%r))[1]' % (f, w)
        if k == 5:
            return "{'a': %s(%r)}['a'] + '{}'" % (f, w)
        if k == 6:
            return "%s(%r) + str(n1)" % (f, w)
        return '%s(%r)' % (f, w)

    def g_raw(self, env, depth):
        n = TrGen.g_raw(self, env, depth)
        if self.rng.random() < .4 and not n.parts:
            n.parts = [Text('alert('), Expr(self.value(env)), Text(')')]
        return n


def static(nodes, out):
    """All static messages below the nodes."""
    for kind, x in runs(nodes):
        if kind == 'run':
            out.extend(v for k, v in pieces(x) if k == 'msg')
        elif isinstance(x, CData):
            for _, p in runs(x.parts):
                out.extend(v for k, v in pieces(p, False) if k == 'msg')
        else:
            for b in bodies(x):
                static(b, out)
    return out


def bodies(n):
    """The lists of nodes a node contains."""
    name = type(n).__name__
    if name in ('Raw', 'Comment', 'Py', 'ModPy', 'Expr', 'Text', 'Replace', 'Include',
                'Import'):
        return []
    if name == 'El' and n.content is not None:
        return []
    out = []
    for k, v in sorted(vars(n).items()):
        if isinstance(v, list):
            if k in ('body', 'orelse'):
                out.append(v)
            elif k == 'cases':
                for c in v:
                    out.extend(x for x in c if isinstance(x, list))
    return out


def gen(rng, i, tier):
    big = tier == 'thorough' and rng.random() < .3
    g = ExGen(rng, 'xml', XML, depth=rng.choice([3, 4] if big else [2, 3]),
              size=rng.choice([3, 4, 5]), spy=.1, counters=False)
    g.calls = {}
    g.fn_rate = .15
    tpl = g.template(functions=rng.choice([0, 0, 1, 2]))
    child = rng.random() < .25
    if child:
        inner = tpl.body[0].body
        defs = [n for n in inner if type(n).__name__ == 'Def']
        tpl.body = defs + [Block('main', [n for n in inner if n not in defs])]
        tpl.extends = 'lay'
        g.used.add('child')
    elif rng.random() < .3:
        tpl.body[0].body.insert(rng.randrange(len(tpl.body[0].body) + 1),
                                Block('side', g.body(Env({}), 1)))
        g.used.add('block')
    messages = static(tpl.body, [])
    src = emit(tpl, rng, breaks=rng.choice([0, 0, .3]))[0]
    src = rng.choice(HEADS) + src
    if rng.random() < .15:
        src = src.replace('\n', '\r\n')
    opts = {}
    for k, vs in [('extract_python', [True, True, False]), ('strip_text', [True, False]),
                  ('mode', ['xml', 'html', 'html5']), ('is_fragment', [True, False])]:
        if rng.random() < .6:
            opts[k] = rng.choice(vs)
    return dict(source=src, ctx=g.ctx, messages=messages, calls=g.calls, opts=opts,
                child=child, feats=sorted(g.used), keywords=rng.randrange(2),
                file=rng.choice(['binary', 'binary', 'bom', 'text']),
                babel=rng.random() < .3, nontrivial=len(messages) >= 3)


def lines_of(source):
    """{number of a static message: line of its number}"""
    return {m.group(): source.count('\n', 0, m.start()) + 1
            for m in re.finditer(r'm\d+', source)}


def places(source, calls):
    """{number of a call: (first line, last line, must be extracted)}"""
    out = {}
    for m in re.finditer(r'\bx(\d+) ', source):
        line = source.count('\n', 0, m.start()) + 1
        out.setdefault(int(m.group(1)), (line - 1, line, True, m.start()))
    p = expat.ParserCreate()

    def start(name, attrs):
        for a, v in attrs.items():
            for k in re.findall(r'\bx(\d+) ', v):
                out[int(k)] = (p.CurrentLineNumber, out[int(k)][1],
                               not a.startswith('py:') and not name.startswith('py:'))

    def pi(target, data):
        for k in re.findall(r'\bx(\d+) ', data):
            out[int(k)] = (p.CurrentLineNumber, out[int(k)][1], False)
    p.StartElementHandler, p.ProcessingInstructionHandler = start, pi
    p.Parse(source.encode('utf-8'), True)
    return out


def open_file(source, how):
    if how == 'text':
        return io.StringIO(source)
    return io.BytesIO((u'\ufeff' if how == 'bom' else u'').encode('utf-8') +
                      source.encode('utf-8'))


def run(case, mon):
    import kajiki
    from kajiki import i18n
    source, opts = case['source'], case['opts']
    keywords = KEYWORDS[case['keywords']]
    got = list(i18n.extract(open_file(source, case['file']), keywords, [], dict(opts)))
    mon.count('extractions')
    mon.seen('options', repr(sorted(opts.items())))
    for f in case['feats']:
        mon.seen('features', f)
    at = lines_of(source)
    want = []
    for msg in case['messages']:
        mark = re.search(r'm\d+', msg)
        if mark is None or mark.group() == 'm0':    # without a number of its own
            want.append([None, msg])
            continue
        want.append([at[mark.group()] - msg.count('\n', 0, mark.start()), msg])
        mon.seen('lines', want[-1][0])
    calls = {int(k): v for k, v in case['calls'].items()}
    gots, gotc = [], []
    for lineno, func, msg, comments in got:
        first = msg if not isinstance(msg, (tuple, list)) else msg[0]
        m = re.match(r'x(\d+) ', first or '')
        if m and int(m.group(1)) in calls:
            gotc.append((lineno, func, msg))
        else:
            gots.append([lineno, msg])
            mon.equal('function and comments of a static text', ['_', []],
                      [func, list(comments)])
    mon.count('messages', len(want))
    nolines = [m for l, m in want if l is None]
    mon.equal('the static messages', sorted(m for l, m in want), sorted(m for l, m in gots))
    mon.equal('the lines of the static messages',
              sorted([l, m] for l, m in want if l is not None),
              sorted([l, m] for l, m in gots if m not in nolines))
    same = [source.count('\n', 0, m.start()) + 1 for m in re.finditer(r'm0(?!\d)', source)]
    for l, m in gots:
        if m in nolines and 'm0' in m:
            mon.count('repeated_messages')
            mon.count('comparisons')
            if l + m.count('\n', 0, m.index('m0')) not in same:
                mon.fail('the line of a repeated message', want=same, got=l, message=m)
    found = set()
    if not opts.get('extract_python'):
        mon.equal('calls without extract_python', [], gotc)
    else:
        where = places(source, calls)
        for lineno, func, msg in gotc:
            first = msg if not isinstance(msg, (tuple, list)) else msg[0]
            k = int(re.match(r'x(\d+) ', first).group(1))
            if isinstance(calls[k], list):
                mon.equal('plural', ['ngettext'] + calls[k], [func] + list(msg)[:2])
                mon.count('plurals')
            else:
                mon.equal('message of a call', calls[k], msg)
                if func not in ('_', 'gettext'):
                    mon.fail('function of a call', want='_ or gettext', got=func)
            if k in found:
                mon.fail('a call extracted twice', want=1, got=msg)
            found.add(k)
            mon.count('comparisons')
            if not where[k][0] <= lineno <= where[k][1]:
                mon.fail('line of a call', want=list(where[k][:2]), got=lineno, message=msg)
        must = set(k for k, v in where.items() if v[2])
        mon.count('python_messages', len(must))
        mon.equal('the calls in expressions', sorted(must), sorted(must & found))

    if case['babel']:
        from babel.messages.extract import extract
        mon.count('through_babel')
        via = list(extract(i18n.extract, open_file(source, case['file']),
                           KEYWORDS[1], (), dict(opts)))
        mon.equal('messages through Babel',
                  sorted(repr((l, tuple(m) if isinstance(m, (tuple, list)) else m))
                         for l, f, m, c in got if f != 'ngettext'),
                  sorted(repr((l, tuple(m) if isinstance(m, (tuple, list)) else m))
                         for l, m, c, x in via if not isinstance(m, (tuple, list))))

    # rendering looks up nothing else, and with a catalog made of what was found everything
    # is translated
    catalog = set(m for l, f, m, c in got if not isinstance(m, (tuple, list)))
    looked = []

    def gettext(s):
        looked.append(s)
        return 'T%d!' % len(looked) if s in catalog else s

    def ngettext(a, b, n):
        return a if n == 1 else b
    ctx = make_ctx(case['ctx'], [], True)
    ctx.update(gettext=gettext, ngettext=ngettext)
    kw = {k: opts[k] for k in ('strip_text', 'mode', 'is_fragment') if k in opts}
    mods = {'t': kajiki.XMLTemplate(source, **kw),
            'lay': kajiki.XMLTemplate('<html><py:block name="main">M</py:block></html>')}
    out = kajiki.MockLoader(mods).import_('t')(ctx).render()
    mon.count('renders')
    statics = set(m for l, m in gots) | set(['M'])
    for s in looked:
        mon.count('lookups')
        m = re.match(r'x(\d+) ', s)
        if not (m and int(m.group(1)) in calls) and s not in statics:
            mon.fail('rendering looked up a message that was not extracted',
                     want=sorted(statics)[:20], got=s)
    mon.count('comparisons')
    left = re.search(r'm\d+', re.sub(r'(?s)<!--.*?-->', '', out))
    if left:
        mon.fail('a message was output untranslated', want='none', got=out,
                 message=left.group())
