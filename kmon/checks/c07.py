"""C07: output mode, DOCTYPE and serialization tables."""
import os
import shutil
import tempfile

from ..emit import XmlEmitter
from ..gen import Gen
from ..harness import make_ctx
from ..model import (El, Text, Expr, Raw, Template, Interp, Block, Comment, If, VOID, BOOLEAN,
                     escape_text)

ID = 'C07'
RULE = ('Documents with void, ordinary, script and style elements (empty, with content, with '
        'py:content, stripped), boolean attributes written in every way and CDATA, for every '
        'combination of mode argument, DOCTYPE (12 known, 5 unknown, none; reformatted), '
        'is_fragment, cdata_scripts, directly, through FileLoader (extension, force_mode) and '
        'as parent or included template. Non-trivial when the mode is html/html5 or a DOCTYPE is '
        'involved. Oracle: serializer written from the documented tables.')
COUNT = {'quick': 8000, 'thorough': 150000}
MIN = {'renders': 6000, 'doctypes': 18, 'ways': 6, 'modes': 3, 'void_tags': 10, 'boolean_attrs': 9,
       'matching': 12}
KNOWN = [
    ('<!DOCTYPE html>', 'html5'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Transitional//EN" '
     '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-transitional.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" '
     '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML+RDFa 1.0//EN" '
     '"http://www.w3.org/MarkUp/DTD/xhtml-rdfa-1.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.1//EN" '
     '"http://www.w3.org/TR/xhtml11/DTD/xhtml11.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Frameset//EN" '
     '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-frameset.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML Basic 1.1//EN" '
     '"http://www.w3.org/TR/xhtml-basic/xhtml-basic11.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//WAPFORUM//DTD XHTML Mobile 1.2//EN" '
     '"http://www.openmobilealliance.org/tech/DTD/xhtml-mobile12.dtd">', 'xml'),
    ('<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01 Transitional//EN" '
     '"http://www.w3.org/TR/html4/loose.dtd">', 'html'),
    ('<!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 4.01//EN" '
     '"http://www.w3.org/TR/html4/strict.dtd">', 'html'),
    ('<!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 4.01 Frameset//EN" '
     '"http://www.w3.org/TR/html4/frameset.dtd">', 'html'),
]
UNKNOWN = [
    '<!DOCTYPE note SYSTEM "Note.dtd">',
    '<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 3.2 Final//EN">',
    '<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN" '
    '"http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">',
    '<!DOCTYPE html SYSTEM "about:legacy-compat">',
    '<!DOCTYPE root>',
    '<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01 Transitional//XX" "http://example.org/x">',
]
TAGS = ['div', 'p', 'span', 'a', 'td', 'textarea', 'i', 'title', 'iframe', 'select', 'option']
CODE = ['var x = "a";', 'if (a < b && c > d) { y() }', 'p { color: red }', 'a > b { }', '"q"',
        '// \u00e9\u4e2d', 'x & y', 'i++ ;', "alert('x')", 'f($$ )'.replace('$$', '$'),
        '<b>not an element</b>', '&amp; stays']


class DocGen(Gen):
    def doc(self, depth):
        r = self.rng
        x = r.random()
        if depth > 0 and x < .3:
            return self.element(r.choice(TAGS), depth)
        if depth > 0 and x < .5:
            return self.element(r.choice(sorted(VOID)), depth)
        if x < .62:
            return self.raw()
        if x < .68 and depth > 0:
            return If(r.choice(['b0', 'not b0', 'True']), [self.doc(depth - 1)], None)
        if x < .75:
            return Expr(r.choice(['s0', 'n0', 'None']))
        return Text(r.choice(['text', ' ', 'a < b', '\n  ', 'x & y', 'tail ']))

    def element(self, tag, depth):
        r = self.rng
        attrs = []
        for name in r.sample(sorted(BOOLEAN) + ['class', 'id', 'async', 'open'], r.choice(
                [0, 1, 1, 2, 3])):
            attrs.append((name, r.choice([
                [], [Text(name)], [Text('true')], [Text('x y')], [Expr('s0')], [Expr('None')],
                [Text('a'), Expr('n0')], [Expr('None'), Expr("''")]])))
        n = El(tag, attrs, [])
        if tag in VOID and r.random() < .7:
            pass
        else:
            n.body = self.docs(depth - 1, r.randrange(0, 4))
        if r.random() < .25:
            used = [a for a, _ in attrs]
            names = [b for b in r.sample(sorted(BOOLEAN), 3) + ['title', 'data-x']
                     if b not in used]
            n.pyattrs = '{%s}' % ', '.join('%r: %s' % (k, r.choice(
                ['True', 'False', 'None', "'yes'", "''", 'b0', 'n0 > 1'] if k in BOOLEAN else
                ["'v'", 'None', 'n0'])) for k in names)
        if r.random() < .1:
            n.strip = r.choice(['', 'b0', 'True', 'False', 'not b0'])
        if r.random() < .1:
            n.content, n.body = r.choice(['s0', 'None', "'<'"]), []
        return n

    def docs(self, depth, n):
        out = []
        for _ in range(n):
            x = self.doc(depth)
            if isinstance(x, Text) and out and isinstance(out[-1], Text):
                out[-1] = Text(out[-1].s + x.s)
            else:
                out.append(x)
        return out

    def raw(self):
        r = self.rng
        parts = []
        for _ in range(r.randrange(0, 3)):
            s = ' '.join(r.choice(CODE) for _ in range(r.randrange(1, 3)))
            s = r.choice(['', '\n', '  ']) + s + r.choice(['', '\n', ' '])
            if parts and isinstance(parts[-1], Text):
                parts[-1] = Text(parts[-1].s + s)
            else:
                parts.append(Text(s))
            if r.random() < .3:
                parts.append(Expr(r.choice(['n0', 's0'])))
        attrs = [('type', [Text(r.choice(['text/x', 'text/x', 'text/html', 'module', 'text/css', '']))])] if r.random() < .5 else []
        if r.random() < .2:
            attrs.append(('src', [Text('x.js')]))
        if r.random() < .2:
            attrs.append(('defer', [Text('defer')]))
        n = Raw(r.choice(['script', 'style']), attrs, parts)
        if r.random() < .2:
            n.strip = r.choice(['', 'b0', 'True', 'False', 'not b0'])
        if r.random() < .1:
            n.pyattrs = r.choice(["{'async': True}", "{'id': n0, 'disabled': b0}", "[('id', s0)]"])
        return n


class Serializer(Interp):
    cdata_scripts = True

    def n_Raw(self, n, scope):
        if self.cdata_scripts or not n.parts:
            return Interp.n_Raw(self, n, scope)
        strip, head = self.start(n, scope)
        inner = ''
        for p in n.parts:
            if isinstance(p, Text):
                inner += p.s if n.cdata else escape_text(p.s)
            else:
                inner += self.out(scope.eval(p.code), scope.inst.tpl)
        if n.cdata:
            inner = '<![CDATA[' + inner + ']]>'
        if strip:
            return inner
        return head + '>' + inner + '</%s>' % n.tag


class Emitter(XmlEmitter):
    def e_Raw(self, n):
        out = XmlEmitter.e_Raw(self, n)
        n.cdata = '<![CDATA[' in out
        return out


def reformat(rng, dt):
    if rng.random() < .6:
        return dt
    dt = dt.replace(' PUBLIC', rng.choice(['  PUBLIC', '\nPUBLIC', '\t PUBLIC']))
    return dt.replace('" "', rng.choice(['"\n    "', '"  "', '" "']))


def mode_of(mode, dt):
    if mode:
        return mode
    return dict(KNOWN).get(dt, 'xml') if dt else 'xml'


def gen(rng, i, tier):
    dt = rng.choice([None, None, KNOWN[i % len(KNOWN)][0], KNOWN[0][0],
                     UNKNOWN[i % len(UNKNOWN)]])
    way = rng.choice(['direct', 'direct', 'direct', 'extension', 'extension', 'force_mode',
                      'parent', 'included'])
    g = DocGen(rng, 'xml')
    g.ctx = {k: v for k, v in g.ctx.items() if k in ('s0', 'n0', 'b0')}
    root = El(rng.choice(['html', 'div', 'body', 'section']), [], g.docs(3, rng.randrange(1, 5)))
    tpl = Template('xml', [root])
    case = dict(way=way, ctx=g.ctx)
    opts = {}
    if rng.random() < .2:
        opts['cdata_scripts'] = False
    if way in ('direct', 'included') and rng.random() < .15:
        opts['autoblocks'] = ['no-such-element']
    fragment = way == 'included'
    if way in ('direct', 'parent', 'included'):
        mode = rng.choice([None, None, 'xml', 'html', 'html5'])
        if mode:
            opts['mode'] = mode
        if way == 'direct' and rng.random() < .2:
            opts['is_fragment'] = fragment = True
        if way == 'included':
            opts['is_fragment'] = True
    elif way == 'extension':
        case['ext'] = rng.choice(['xml', 'html', 'html5'])
        mode = {'xml': None}.get(case['ext'], case['ext'])
    else:
        case['ext'] = rng.choice(['xml', 'html', 'html5', 'tmpl', 'txt'])
        mode = rng.choice(['xml', 'html', 'html5'])
        case['force_mode'] = mode
    tpl.mode = mode_of(mode, dt)
    em = Emitter(rng, attr_form=.3)
    body = em.template(tpl)
    ser = Serializer({'t': tpl})
    ser.cdata_scripts = opts.get('cdata_scripts', True)
    want = ser.render('t', make_ctx(g.ctx, [], False))
    source = body
    head = ''
    if dt:
        written = reformat(rng, dt)
        prolog = rng.choice(['', '', '', '<?xml version="1.0"?>\n', '<!-- c -->\n', '\n', '  ', '<!--\n a\n-->\n<!-- <!DOCTYPE b> -->\n',
                             '<?xml version="1.0" encoding="utf-8"?>'])
        source = prolog + written + rng.choice(['', '\n', '\n\n<!-- after -->\n']) + body
        head = written + '\n'
    elif tpl.mode == 'html5':
        head = '<!DOCTYPE html>\n'
    if fragment:
        head = ''
    case.update(source=source, opts=opts, want=head + want, doctype=dt, mode=tpl.mode,
                tags=sorted(set(t for t in VOID if '<' + t in source)),
                bools=sorted(b for b in BOOLEAN if b in source),
                nontrivial=bool(dt) or tpl.mode != 'xml')
    if way == 'parent':
        case['child'] = rng.choice([
            '<py:extends href="t"/>', '<py:extends href="t"><py:def function="f()">x</py:def>'
            '</py:extends>', '<!DOCTYPE html>\n<py:extends href="t"/>'])
        case['child_opts'] = rng.choice([{}, {'mode': 'html5'}, {'mode': 'html'}])
    return case


def render(case):
    import kajiki
    way, src, opts = case['way'], case['source'], case['opts']
    ctx = make_ctx(case['ctx'], [], True)
    if way == 'direct':
        return kajiki.XMLTemplate(src, **opts)(ctx).render()
    if way == 'parent':
        ld = kajiki.MockLoader({'t': kajiki.XMLTemplate(src, **opts),
                                'c': kajiki.XMLTemplate(case['child'], **case['child_opts'])})
        return ld.import_('c')(ctx).render()
    if way == 'included':
        ld = kajiki.MockLoader({'t': kajiki.XMLTemplate(src, **opts),
                                'c': kajiki.XMLTemplate('<py:include href="t"/>')})
        return ld.import_('c')(ctx).render()
    d = tempfile.mkdtemp(prefix='kmon-c07-')
    try:
        name = 'page.' + case['ext']
        with open(os.path.join(d, name), 'w', encoding='utf-8') as f:
            f.write(src)
        kw = dict(opts)
        if case.get('force_mode'):
            kw['force_mode'] = case['force_mode']
        return kajiki.FileLoader(d, **kw).load(name)(ctx).render()
    finally:
        shutil.rmtree(d)


def fixed(tier):
    return [dict(way='matching', source=dt, want=mode, nontrivial=True) for dt, mode in KNOWN] + \
        [dict(way='matching', source=dt, want=None, nontrivial=True) for dt in UNKNOWN]


def run(case, mon):
    if case['way'] == 'matching':
        from kajiki.doctype import DocumentTypeDeclaration
        for dt in (case['source'], case['source'].replace(' ', '\n'), case['source'].lower()):
            dtd = DocumentTypeDeclaration.matching(dt)
            mon.count('matching')
            mon.equal('rendering mode of the matching DTD', case['want'],
                      None if dtd is None else dtd.rendering_mode)
        return
    got = render(case)
    mon.count('renders')
    mon.seen('ways', case['way'] + ('' if case['way'] != 'extension' else ' .' + case['ext']))
    mon.seen('modes', case['mode'])
    mon.seen('doctypes', case['doctype'])
    mon.seen('mode x doctype x options', repr((case['mode'], case['doctype'],
                                               sorted(case['opts'].items()))))
    for t in case['tags']:
        mon.seen('void_tags', t)
    for t in case['bools']:
        mon.seen('boolean_attrs', t)
    mon.equal('output', case['want'], got)
