"""C13: exceptions raised while rendering, and where their tracebacks point."""
import os
import re
import shutil
import tempfile
import traceback
from xml.parsers import expat

from ..core import REPO
from ..gen import Gen
from ..harness import emit, make_ctx, compile_tpl
from ..model import CData, Comment, Expr, Interp, ModPy, Raw, Text
from ..worlds import rich_world, XML, TEXT

ID = 'C13'
RULE = ('Random worlds of templates (page, layout, include, import; both engines) with texts, '
        'expressions, comments, CDATA sections, DOCTYPEs, start tags and code blocks that span '
        'lines (LF or CRLF; compiled from strings or files), in which every spied expression is numbered; the rendering is '
        'repeated with an exception (of one of 34 types) raised at a random evaluation, or when a value is '
        'converted, iterated, tested or compared. '
        'Non-trivial when a failure was injected. Oracle: the numbered expression occurs once '
        'in the sources, which gives the file and the line (for start tags and code blocks the '
        'range from their first line); identity of the exception object; the pieces output '
        'before must be the beginning of the normal output.')
COUNT = {'quick': 4000, 'thorough': 120000}
MIN = {'injected': 6000, 'lines': 60, 'exceptions': 22, 'features': 22, 'places': 4,
       'deep_tracebacks': 8, 'from_files': 250}


SPY = re.compile(r'\b[eo]\((\d+),')
LATE = re.compile(r"\bo\((\d+), '(?:str|html)'")


class LineGen(Gen):
    lazy = .1       # how many values do not fail before they are used

    def late(self, how, code):
        """A value that evaluates `code` when it is converted, iterated, tested or compared."""
        if self.rng.random() >= self.lazy:
            return code
        self.n += 1
        self.used.add('failing ' + how)
        return "o(%d, '%s', %s)" % (self.n, how, code)

    def spread(self, code):
        if self.rng.random() < .15:
            self.used.add('directive over lines')
            return self.rng.choice(['(%s\n)', '(\n %s)', '(\n\n%s\n)', '[1,\n %s][1]']) % code
        return code

    def g_if(self, env, depth):
        n = Gen.g_if(self, env, depth)
        n.test = self.late('bool', self.spread(n.test))
        return n

    def g_for(self, env, depth):
        n = Gen.g_for(self, env, depth)
        n.iter = self.late(self.rng.choice(['iter', 'next']), self.spread(n.iter))
        return n

    def g_switch(self, env, depth):
        n = Gen.g_switch(self, env, depth)
        n.cases = [(c if c == '1, 2' else self.late('eq', c), b) for c, b in n.cases]
        return n

    def pyattrs(self, env):
        return self.late(self.rng.choice(['iter', 'items']), Gen.pyattrs(self, env))

    def text(self):
        r = self.rng
        t = Gen.text(self)
        x = r.random()
        if x < .35:
            t.s = r.choice(['\n', '\n\n', '  \n', 'a\nb\n\n']) + t.s
        elif x < .55:
            t.s += r.choice(['\n\n\n', ' é\n', '\n 日本\n', '&<>\n', '\n "q" \n'])
        return t

    def value(self, env):
        r = self.rng
        if r.random() < .1:
            self.used.add('expression over lines')
            return r.choice(['(%s,\n %s)[0]', '[%s,\n\n%s][1]', '{1: %s,\n 2: %s}[2]']) % (
                r.randrange(9), r.randrange(9))
        v = Gen.value(self, env)
        return self.late(r.choice(['str', 'html']), v)

    def g_comment(self, env, depth):
        return Comment(self.rng.choice([' c ', '\nc\n\n', ' a\n b ']), self.rng.random() < .5)

    def parts(self, env):
        r, out = self.rng, []
        for _ in range(r.randrange(0, 4)):
            if r.random() < .5:
                if not out or not isinstance(out[-1], Text):
                    out.append(Text(r.choice(['\n', 'a\n', ' x = 1;\n', 'b', '\n\n y'])))
            else:
                out.append(Expr(Gen.value(self, env)))
        return out

    def g_cdata(self, env, depth):
        return CData(self.parts(env))

    def g_raw(self, env, depth):
        return Raw(self.rng.choice(['script', 'style']), [], self.parts(env))

    def g_py(self, env, depth):
        n = Gen.g_py(self, env, depth)
        if self.rng.random() < .4:
            n.code = self.rng.choice(['_u = 1\n', '_u = [1,\n  2]\n', '\n_u = 3\n']) + n.code
            self.used.add('code over lines')
        return n


DOCTYPES = ['', '', '\n\n', '\n' * 260 + '<!-- -->', '<!-- c -->\n', '<!DOCTYPE html>\n', '<!DOCTYPE html>\n\n<!-- c\n -->\n',
            '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN"\n  '
            '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">\n',
            '<!DOCTYPE html\n  PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN"\n\n  '
            '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd"\n>\n']


def gen(rng, i, tier):
    big = tier == 'thorough' and rng.random() < .3
    g, w = rich_world(rng, size=rng.choice([2, 3, 4]), depth=(3, 4) if big else (2, 3),
                      spy=rng.choice([.3, .6]),
                      cls=LineGen, xml=XML + ['comment', 'cdata', 'raw'], text=TEXT)
    Interp(w).render(list(w)[0], add_late(make_ctx(g.ctx, [], False)))   # not too big?
    sources = {}
    crlf = rng.random() < .2
    for k, t in w.items():
        body = t.body if t.kind == 'text' or t.extends else t.body[0].body
        if rng.random() < .25:
            n = 9000000 + len(sources)
            body.insert(0, ModPy('def mod%d(e): return e(%d, 5)' % (n, n)))
            body.insert(1, Expr('mod%d(e)' % n))
            if t.extends:   # goes where it is output
                del body[1]
        top = ''
        if rng.random() < .15:      # far down
            if t.kind == 'text':
                top = 'x' * rng.choice([1, 1, 5000]) + '\n' * rng.choice([150, 400])
            else:
                body.insert(0, Comment('\n' * rng.choice([150, 400]), False))
        src = emit(t, rng, **({'breaks': rng.choice([0, .3])} if t.kind == 'xml' else {}))[0]
        src = top + src
        src = re.sub(r'(?<!\$)\$\{(?=[eo]\()', lambda m: '${' + (
            rng.choice(['\n', '\n  ', ' \n\n ', '  ']) if rng.random() < .06 else ''), src)
        if t.kind == 'xml':
            src = rng.choice(DOCTYPES) + src
        if crlf:
            src = src.replace('\n', '\r\n')
        sources[k] = dict(kind=t.kind, source=src)
    return dict(sources=sources, main=list(w)[0], ctx=g.ctx, feats=sorted(g.used),
                files=rng.choice([None] * 8 + ['utf-8', 'utf-16']),
                nontrivial=any(SPY.search(s['source']) for s in sources.values()),
                fail=[rng.random() for _ in range(4)], strip=rng.random() < .2,
                types=[rng.randrange(len(TYPES)) for _ in range(4)])


class Quiet(Exception):
    """Has no message and no repr."""

    def __str__(self):
        raise ValueError('must not be called')
    __repr__ = __str__


class Base(BaseException):
    pass


def make_exception(i):
    return TYPES[i]()


TYPES = [lambda: ValueError('boom'), lambda: KeyError('boom'), lambda: IndexError(),
         lambda: NameError("name 'x' is not defined"), lambda: AttributeError('parent'),
         lambda: TypeError('boom'), lambda: UnboundLocalError('x'), lambda: IOError('Unknown'),
         lambda: SyntaxError('boom'), lambda: Quiet(), lambda: Base('boom'),
         lambda: KeyboardInterrupt(), lambda: SystemExit(3), lambda: AssertionError(),
         lambda: UnicodeDecodeError('utf-8', b'x', 0, 1, 'no'), lambda: RuntimeError('boom'),
         lambda: RecursionError('maximum recursion depth exceeded'), lambda: MemoryError(),
         lambda: ImportError('boom'), lambda: GeneratorExit(), lambda: FileNotFoundError(2, 'boom'),
         lambda: NotImplementedError(), lambda: ZeroDivisionError('boom'), lambda: LookupError('boom'),
         lambda: StopAsyncIteration(), lambda: OverflowError('boom'),
         lambda: UnicodeEncodeError('ascii', '\xe9', 0, 1, 'no'), lambda: UnicodeError('boom'),
         lambda: ConnectionError('boom'), lambda: TimeoutError(), lambda: EOFError('boom'),
         lambda: UserWarning('boom'), lambda: KeyError(('a', 1)), lambda: ModuleNotFoundError('boom')]


def places(kind, source):
    """{number of the spied expression: (first line, last line, where)}"""
    out = {}
    for m in SPY.finditer(source):
        line = source.count('\n', 0, m.start()) + 1
        k = int(m.group(1))
        out[k] = None if k in out else (line, line, 'content')   # copied: ambiguous
    if kind == 'text':
        for m in re.finditer(r'\{%py%\}.*?\{%end%\}', source, re.S):
            first = source.count('\n', 0, m.start()) + 1
            for k in SPY.findall(m.group()):
                if out[int(k)]:
                    out[int(k)] = (first, out[int(k)][1], 'code block')
        return out
    p = expat.ParserCreate()

    def start(name, attrs):
        for a, v in attrs.items():
            for k in SPY.findall(v):
                if out.get(int(k)):
                    where = 'directive' if a.startswith('py:') or name.startswith('py:') \
                        else 'attribute'
                    out[int(k)] = (p.CurrentLineNumber, out[int(k)][1], where)

    def pi(target, data):
        for k in SPY.findall(data):
            if out.get(int(k)):
                out[int(k)] = (p.CurrentLineNumber, out[int(k)][1], 'code block')
    p.StartElementHandler, p.ProcessingInstructionHandler = start, pi
    p.Parse(source.encode('utf-8'), True)
    return out


class Value(object):
    """Asks for its value when it is used."""

    def __init__(self, ask):
        self.ask = ask

    def __str__(self):
        return 'late'

    @classmethod
    def make(cls, how, ask):
        def string(self):
            v = self.ask()
            return str(v) if isinstance(v, (str, int)) else 'late'

        def iterate(self):
            return iter(self.ask() or ())

        def each(self):
            for x in self.ask():
                yield x
        methods = {'str': {'__str__': string}, 'html': {'__html__': string},
                   'bool': {'__bool__': lambda self: bool(self.ask())},
                   'iter': {'__iter__': iterate},
                   'next': {'__iter__': each},
                   'items': {'items': lambda self: list(getattr(self.ask() or {}, 'items', dict)())},
                   'eq': {'__eq__': lambda self, other: self.ask() == other, '__hash__': None}}
        return type('Late', (cls,), methods[how])(ask)


def add_late(ctx):
    ctx['o'] = lambda k, how, v: Value.make(how, lambda: ctx['e'](k, v))
    return ctx


def run(case, mon):
    if not case.get('files'):
        return run_in(case, mon, '/kmon/')
    d = tempfile.mkdtemp(prefix='kmon-c13-')
    try:
        mon.count('from_files')
        run_in(case, mon, d + os.sep)
    finally:
        shutil.rmtree(d)


def run_in(case, mon, top):
    import kajiki
    mods, where, late = {}, {}, set()
    for n, s in case['sources'].items():
        opts = {'strip_text': True} if case['strip'] and s['kind'] == 'xml' else {}
        fn = top + '%s.%s' % (n, s['kind'])
        if case.get('files'):
            with open(fn, 'w', encoding=case['files'], newline='') as f:
                f.write(s['source'])
            opts['encoding'] = case['files']
            mods[n] = compile_tpl(s['kind'], None, filename=fn, **opts)
        else:
            mods[n] = compile_tpl(s['kind'], s['source'], filename=fn, **opts)
        # PyPy 3.9 itself reports wrong lines after code that steps back by more than 127 lines,
        # as the end of a long element does
        long = s['source'].strip('x\r\n').count('\n') > 110 + s['source'].count('\n' * 150) * 400
        if s['kind'] == 'text':     # converted to a string outside of the template's code
            late.update(map(int, LATE.findall(s['source'])))
        for k, v in places(s['kind'], s['source']).items():
            where[k] = v and not long and (fn,) + v
    tpl = kajiki.MockLoader(mods).import_(case['main'])
    log = []
    full = tpl(add_late(make_ctx(case['ctx'], log, True))).render()
    for f in case['feats']:
        mon.seen('features', f)
    spies = [i for i, k in enumerate(log) if k != 'nx' and where.get(k)]
    if not spies:
        return
    for frac, t in zip(case['fail'], case['types']):
        at = spies[int(frac * len(spies))]
        exc = make_exception(t)
        events = []
        ctx = add_late(make_ctx(case['ctx'], events, True))
        e = ctx['e']

        def failing(k, v=None):
            r = e(k, v)
            if len(events) == at + 1:
                raise exc
            return r
        ctx['e'] = failing
        parts = []
        mon.count('injected')
        mon.seen('exceptions', type(exc).__name__)
        whole = int(frac * 1000) % 3 == 0
        try:
            if whole:
                mon.count('failing_render_calls')
                parts.append(tpl(ctx).render())
            else:
                for piece in tpl(ctx):
                    parts.append(piece)
        except BaseException as got:
            if type(got).__name__ == 'CaseTimeout':
                raise
            if got is not exc:
                mon.fail('another exception', want=type(exc).__name__,
                         got='%s %s' % (type(got).__name__,
                                        got if type(got) is not Quiet else ''))
                continue
        else:
            mon.fail('the exception was lost', want=type(exc).__name__, got=''.join(parts))
            continue
        mon.equal('evaluations up to the failing one', log[:at + 1], events)
        out = ''.join(parts)
        mon.count('comparisons')
        if not full.startswith(out):
            mon.fail('what was output is not the beginning of the output', want=full, got=out)
        if log[at] in late:
            mon.count('failing_conversions')
            continue
        fn, first, last, place = where[log[at]]
        frames = [(f.f_code.co_filename, l) for f, l in traceback.walk_tb(exc.__traceback__)
                  if f.f_code.co_filename.startswith(top)]
        mon.seen('places', place)
        mon.seen('lines', last)
        if len(frames) > 2:
            mon.count('deep_tracebacks')
        mon.count('comparisons')
        if not frames or frames[-1][0] != fn or not first <= frames[-1][1] <= last:
            mon.fail('the traceback points elsewhere', want=[fn, first, last, place],
                     got=frames, expression=log[at])
