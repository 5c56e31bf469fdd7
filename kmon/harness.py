# -*- coding: utf-8 -*-
"""Drives the real code at its public boundary and the model with twin contexts."""
import re
import types

from .model import Interp, Safe
from .emit import XmlEmitter, TextEmitter


class Html(object):
    """A value that brings its own markup."""

    def __init__(self, s):
        self.s = s

    def __html__(self):
        return self.s

    def __str__(self):
        return 'str(%s)' % self.s

    __repr__ = __str__


class Str(object):
    """A value with a hostile __str__."""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    def __repr__(self):
        return 'Str<%s>' % self.s


class Once(Str):
    """An iterator; it has nothing to do with the ones that template functions return."""

    def __iter__(self):
        return self

    def __next__(self):
        raise StopIteration()


class SafeStr(str):
    """Like Markup of other libraries: a string that is its own markup."""

    def __html__(self):
        return str(self)


def sub_of(base, value, s):
    """A value of a class derived from a built-in one, with its own __str__."""
    return type(base.__name__.title(), (base,), {
        '__str__': lambda self: s, '__repr__': lambda self: s})(value)


SUBS = {'str': (str, 'inner<zz9>'), 'int': (int, 7), 'float': (float, 1.5), 'list': (list, [1]),
        'tuple': (tuple, (1, 2)), 'dict': (dict, {'k': 1}), 'bytes': (bytes, b'<zz9>'),
        'exception': (ValueError, 'inner<zz9>'), 'complex': (complex, 1), 'set': (frozenset, [])}


# Objects whose str() has markup and an address, the same ones for the model and the templates
PLAIN = {'generator': (i for i in ()), 'function': lambda: 0, 'object': object(), 'iter': iter([]),
         'map': map(str, ()), 'method': 'x'.join, 'module': re, 'types': types.SimpleNamespace(a='<zz9>')}


def build(spec, real):
    """Values in a case are JSON; tagged dicts stand for what JSON cannot hold."""
    if isinstance(spec, dict) and '$' in spec:
        kind, v = spec['$'], spec.get('v')
        if kind == 'literal':
            if real:
                from kajiki.util import literal
                return literal(v)
            return Safe(str(v))
        if kind == 'html':
            return Html(v)
        if kind == 'markup':
            return SafeStr(v)
        if kind == 'sub':
            base, value = SUBS[spec['base']]
            return sub_of(base, value, v)
        if kind == 'exception':
            return KeyError(v)
        if kind == 'type':
            return {'int': int, 'dict': dict, 'Str': type(None)}.get(v) or PLAIN[v]
        if kind == 'obj':
            return Str(v)
        if kind == 'iterator':
            return Once(v)
        if kind == 'float':
            return float(v)
        if kind == 'bytes':
            return v.encode('utf-8')
        if kind == 'tuple':
            return tuple(build(x, real) for x in v)
        if kind == 'none':
            return None
        raise ValueError(kind)
    if isinstance(spec, dict):
        return {k: build(v, real) for k, v in spec.items()}
    if isinstance(spec, list):
        return [build(v, real) for v in spec]
    return spec


class Boom(Exception):
    """Raised by functions of the context for other ones to handle."""


def mix(*calls):
    """Run several template functions alternately."""
    out = [[] for _ in calls]
    live = [(iter(c), o) for c, o in zip(calls, out)]
    while live:
        for it, o in list(live):
            for x in it:
                o.append(str(x))
                break
            else:
                live.remove((it, o))
    return '|'.join(map(''.join, out))


def peek(call):
    """Begin to run a template function, no more."""
    for x in call:
        return ''
    return ''


def make_ctx(spec, log, real):
    ctx = {k: build(v, real) for k, v in spec.items()}
    counter = [0]

    def e(k, v=None):
        log.append(k)
        return v

    def nx():
        counter[0] += 1
        log.append('nx')
        return counter[0]

    def boom(k, v):
        log.append(k)
        if v:
            raise Boom(k)
        return '!'

    def att(f):
        try:
            return ''.join(map(str, f()))
        except Boom:
            return 'failed'
    ctx.setdefault('boom', boom)
    ctx.setdefault('att', att)
    ctx.setdefault('mix', mix)
    ctx.setdefault('peek', peek)
    ctx.setdefault('e', e)
    ctx.setdefault('nx', nx)
    return ctx


def predict(world, name, spec):
    log = []
    out = Interp(world).render(name, make_ctx(spec, log, False))
    return out, log


def emit(tpl, rng, **kw):
    em = (XmlEmitter if tpl.kind == 'xml' else TextEmitter)(rng, **kw)
    return em.template(tpl), em.stats


def compile_tpl(kind, source, **opts):
    import kajiki
    if kind == 'xml':
        return kajiki.XMLTemplate(source, **opts)
    return kajiki.TextTemplate(source, **opts)


def world_case(rng, world, name, spec, emit_kw=None, opts=None, **extra):
    """A case that renders template `name` of a world."""
    want, log = predict(world, name, spec)
    sources, stats = {}, {}
    for n, tpl in world.items():
        src, st = emit(tpl, rng, **(emit_kw or {}).get(tpl.kind, {}))
        o = dict((opts or {}).get(n, {}))
        if tpl.kind == 'xml' and tpl.mode != 'xml':
            o['mode'] = tpl.mode
        if tpl.kind == 'text' and tpl.autoescape:
            o['autoescape'] = True
        sources[n] = dict(kind=tpl.kind, source=src, opts=o)
        for k, v in st.items():
            stats[k] = stats.get(k, 0) + v
    case = dict(sources=sources, main=name, ctx=spec, want=want, log=log,
                forms=stats)
    case.update(extra)
    return case


def load_world(case):
    import kajiki
    mods = {n: compile_tpl(s['kind'], s['source'], **s['opts'])
            for n, s in case['sources'].items()}
    return kajiki.MockLoader(mods)


def run_world(case, mon, check_log=True):
    """Render and compare output and evaluation events with the prediction."""
    loader = load_world(case)
    tpl = loader.import_(case['main'])
    log = []
    got = tpl(make_ctx(case['ctx'], log, True)).render()
    mon.count('renders')
    mon.count('evaluation_events', len(log))
    mon.count('output_chars', len(got))
    for k in case.get('forms', {}):
        mon.seen('source_forms', k)
    for k in case.get('feats', ()):
        mon.seen('features', k)
    mon.equal('output', case['want'], got)
    if check_log:
        mon.equal('order of evaluations', case['log'], log)
    return got


def probe(spec):
    """Known findings: what the fixed template of the finding renders."""
    if 'source' in spec:
        spec = dict(sources={'t': dict(kind=spec.get('kind', 'xml'), source=spec['source'],
                                       opts=spec.get('opts', {}))},
                    main='t', ctx=spec.get('ctx', {}))
    return load_world(spec).import_(spec['main'])(make_ctx(spec['ctx'], [], True)).render()


TEXT_WS = re.compile(r'[ \t\n]+')
