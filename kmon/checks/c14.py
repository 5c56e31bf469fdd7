"""C14: malformed templates are rejected when compiled, with the right error and location."""
import os
import re
import shutil
import tempfile
from html.entities import html5
from xml.parsers import expat

from ..emit import TextEmitter, XmlEmitter
from ..gen import Gen
from ..model import Call, Def, El, For, If, Nop, Switch, With
from ..worlds import TEXT
from .c13 import DOCTYPES, LineGen

ID = 'C14'
RULE = ('Random valid templates (both engines; texts, tags and expressions over several lines, '
        'LF or CRLF, odd characters, with or without DOCTYPE) must compile; then one fault of '
        'some 90 kinds is planted at a random place, or the source is cut short, or one '
        'character of it is changed, and compiled again from a string, from a file or through a '
        'FileLoader. Non-trivial: always. Oracle: the kind of the fault tells class and line; '
        'for truncations and changed characters a plain expat parser tells whether and where the '
        'document is not well formed; what it accepts may only compile or raise one of the three '
        'error classes.')
COUNT = {'quick': 6000, 'thorough': 200000}
MIN = {'faults': 3000, 'kinds': 80, 'lines': 40, 'truncations': 300, 'mutations': 800,
       'in_switch': 100, 'mutations_malformed': 200, 'mutations_wellformed': 200, 'from_file': 500}
XML = ['if', 'for', 'switch', 'with', 'strip', 'content', 'replace', 'nop', 'py', 'pyattrs',
       'call', 'innerdef', 'comment', 'cdata']
HERE = u'\ue000'    # where the fault goes
LINE = u'\ue001'    # the line that has to be reported
PARSE, COMPILE, SYNTAX = ['XMLTemplateParseError'], ['XMLTemplateCompileError'], \
    ['KajikiSyntaxError', 'XMLTemplateCompileError']

# not well formed, wherever they are
BROKEN = {
    'bare &': 'a & b', 'bare <': 'a < b', '& at the end of text': 'fish &', 'no ; ': '&amp x',
    'mismatched tags': '<p>\n<b>\n</p></b>', 'end tag alone': '</i>', 'unclosed': '<u>\n',
    'duplicate attribute': '<p a="1"\n a="2"/>', 'unquoted attribute': '<p a=1/>',
    'attribute without value': '<input disabled/>', '< in attribute': '<p a="<"/>',
    '& in attribute': '<p a="x & y"/>', 'control character': '\n\x01', '-- in comment':
    '<!-- a -- b -->', 'open comment': '<!-- a\n', 'open cdata': '<![CDATA[ a\n',
    'open instruction': '<?py a = 1\n', 'open tag': '<p a="1"\n', 'open attribute': '<p a="1>\n',
    ']]> in text': 'a ]]> b', 'bad character reference': '&#0;', 'bad reference 2': '&#xZ;',
    'bad name': '<1a/>', 'doctype inside': '\n<!DOCTYPE html>', 'no space between attributes':
    '<p a="1"b="2"/>', 'case of tags': '<p></P>', 'slash in the wrong place': '<br/ >',
    'xml declaration inside': '<?xml version="1.0"?>', 'duplicate directive':
    '<p py:if="1" py:if="0"/>', 'percent': '<%= 1 %>', 'half an entity': '&;',
}
ENTITIES = {
    'unknown entity': LINE + '&foo;', 'entity of the wrong case': LINE + '&NBSP;',
    'unknown entity in attribute': LINE + '<p a="x &foo; y"/>',
    'unknown entity in directive': LINE + '<p py:content="1 &ltt; 2"/>',
    'unknown entity among known': '&nbsp;&eacute;\n&lt;' + LINE + '&Foo1;',
}
# whole documents: {} is the root element of a valid one
WHOLE = {
    'two roots': '{}\n\n<div/>', 'text after': '{}\n abc', 'text before': ' abc\n{}',
    'no root': '\n<!-- c -->\n', 'nothing': '', 'only text': ' a\n', 'expression outside':
    '{}\n${{1}}', 'doctype after': '{}\n<!DOCTYPE html>', 'two doctypes':
    '<!DOCTYPE html>\n<!DOCTYPE html>\n{}', 'cdata outside': '{}<![CDATA[ a ]]>',
    'entity outside': '{}\n&nbsp;', 'late declaration': '\n<?xml version="1.0"?>\n{}',
}
MISPLACED = {
    'case outside': LINE + '<py:case value="1">x</py:case>',
    'case attribute outside': LINE + '<p py:case="1">x</p>',
    'case after if': '<py:if test="0">a</py:if>\n' + LINE + '<py:case value="1">x</py:case>',
    'case right after if': LINE + '<py:if test="0">a</py:if><py:case value="1">x</py:case>',
    'case in if in switch': '<py:switch test="1">\n<py:if test="1">\n' + LINE +
                            '<py:case value="1">x</py:case></py:if></py:switch>',
    'case in element in switch': '<py:switch test="1"><p>' + LINE +
                                 '<py:case value="1">x</py:case></p></py:switch>',
    'case in case': '<py:switch test="1"><py:case value="1">\n' + LINE +
                    '<py:case value="1">x</py:case></py:case></py:switch>',
    'case in for': '<py:for each="i in [1]">\n' + LINE + '<py:case value="1">x</py:case></py:for>',
    'else alone': 't' + LINE + '<py:else>x</py:else>',
    'else attribute alone': 't' + LINE + '<p py:else="">x</p>',
    'else after text': '<py:if test="0">a</py:if> t\n' + LINE + '<py:else>x</py:else>',
    'else after blank': '<py:if test="0">a</py:if> \n' + LINE + '<py:else>x</py:else>',
    'else after element': '<py:if test="0">a</py:if><b/>' + LINE + '<py:else>x</py:else>',
    'else after expression': '<py:if test="0">a</py:if>${1}' + LINE + '<py:else>x</py:else>',
    'else after comment': '<py:if test="0">a</py:if><!-- c\n-->' + LINE + '<py:else>x</py:else>',
    'else after else': '<py:if test="0">a</py:if><py:else>\nx</py:else>' + LINE +
                       '<py:else>x</py:else>',
    'else after for': '<py:for each="i in []">\na</py:for>' + LINE + '<py:else>x</py:else>',
    'else after for in nop': '<py:nop><py:for each="i in []">a</py:for>' + LINE +
                             '<py:else>x</py:else></py:nop>',
    'else in for': '<py:for each="i in []">a\n' + LINE + '<py:else>x</py:else></py:for>',
    'else in if': '<py:if test="1">a' + LINE + '<py:else>x</py:else></py:if>',
    'else in if after element': '<py:if test="1"><p/>\n' + LINE + '<p py:else="">x</p></py:if>',
    'else first in if': '<py:if test="1">' + LINE + '<py:else>x</py:else></py:if>',
    'else in nop': '<py:nop>a' + LINE + '<py:else>x</py:else></py:nop>',
    'else in with': '<py:with vars="a=1">' + LINE + '<py:else>x</py:else></py:with>',
    'text in switch': LINE + '<py:switch test="1">\n t <py:case value="1">y</py:case></py:switch>',
    'text after case': LINE + '<py:switch test="1"><py:case value="1">y</py:case>\n t</py:switch>',
    'element in switch': LINE + '<py:switch test="1"><b/><py:else>y</py:else></py:switch>',
    'expression in switch': LINE + '<py:switch test="1">${1}<py:else>y</py:else></py:switch>',
    'comment in switch': LINE + '<py:switch test="1"><!-- c --><py:else>y</py:else></py:switch>',
    'code in switch': LINE + '<py:switch test="1"><?py x=1?><py:else>y</py:else></py:switch>',
    'cdata in switch': LINE + '<py:switch test="1"><![CDATA[a]]><py:else>y</py:else></py:switch>',
    'if in switch': LINE + '<py:switch test="1"><py:if test="1">x</py:if></py:switch>',
    'for in switch': LINE + '<py:switch test="1"><p py:for="i in [1]">x</p></py:switch>',
    'switch on tag': LINE + '<p py:switch="1">\nx</p>',
    'with without assignment': LINE + '<py:with vars="a">a</py:with>',
    'with without value': LINE + '<p py:with="">a</p>',
    'switch in switch': LINE + '<py:switch test="1"><py:switch test="1"/></py:switch>',
}
# what a switch must not have directly in it, at every place in it
for _name, _what in [
        ('text', 't'), ('expression', '${1}'), ('named expression', '$zq'), ('element', '<b>x</b>'),
        ('empty element', '<br/>'), ('comment', '<!-- c -->'), ('code', '<?py x = 1 ?>'),
        ('cdata', '<![CDATA[a]]>'), ('if', '<py:if test="1">x</py:if>'),
        ('for', '<p py:for="i in [1]">x</p>'), ('with', '<py:with vars="a=1">x</py:with>'),
        ('nop', '<py:nop>x</py:nop>'), ('include', '<py:include href="x"/>'),
        ('replace', '<py:replace value="1"/>'), ('entity', '&eacute;'),
        ('call', '<py:call function="f(%caller)">x</py:call>'),
        ('script', '<script>x</script>'), ('block', '<py:block name="zqb">x</py:block>')]:
    for _place in ('{}%s<py:case value="1">y</py:case>', '<py:case value="1">y</py:case>{}%s',
                   '<py:case value="1">y</py:case>\n{}%s<py:case value="2">z</py:case>',
                   '<py:case value="1">y</py:case>{}%s<py:else>z</py:else>',
                   '<p py:case="1">y</p><p py:else="">z</p>{}%s\n', '{}'):
        for _sp in ('', '\n '):
            MISPLACED['%s in switch %r %r' % (_name, _place, _sp)] = (
                LINE + '<py:switch test="1">' + _place.replace('%s', _sp).replace('{}', _what) +
                '</py:switch>')
# invalid Python; # stands for the broken code
BAD = ['zq +', 'zq zr', '(zq', 'zq[1', '* zq', 'zq if', 'not zq or', 'for zq', 'zq === 1', 'lambda: zq:',
       'zq..a', '1zq', 'zq $ 1', 'f(zq', '{zq: }', 'zq !', '"zq', 'zq and', 'import zq', 'yield = zq']
PYTHON = {
    'if': '<py:if test="#">a</py:if>', 'if attribute': '<p py:if="#">a</p>',
    'for': '<py:for each="i in #">a</py:for>', 'for target': '<p py:for="zq +, in [1]"/>',
    'for without in': '<p py:for="zq">a</p>', 'content': '<p py:content="#"/>',
    'attrs': '<p py:attrs="#"/>', 'strip': '<p py:strip="#">a</p>',
    'replace': '<p py:replace="#">a</p>', 'replace element': '<py:replace value="#"/>',
    'switch': '<py:switch test="#"><py:case value="1">a</py:case></py:switch>',
    'case': '<py:switch test="1"><py:case value="#">a</py:case></py:switch>',
    'with': '<py:with vars="a=#">a</py:with>', 'second with': '<p py:with="a=1; b=#">a</p>',
    'with target': '<p py:with="zq +=1;1=zq">a</p>', 'def': '<py:def function="zq(">a</py:def>',
    'def without ()': '<py:def function="zq">a</py:def>',
    'def argument': '<p py:def="zq(1)">a</p>', 'call': '<py:call function="zq(%caller">a</py:call>',
    'code': '<?py a = 1\nb = # ?>', 'module code': '<?py %a = # ?>',
    'code statement': '<?py if zq ?>', 'code indentation': '<?py a = 1\nb = 1\n  zq = 2 ?>',
    'block name': '<py:block name="1 zq">a</py:block>',
    'two else': '<py:switch test="1"><py:else>zq</py:else><py:else>zq</py:else></py:switch>',
    'else before case': '<py:switch test="1"><py:else>zq</py:else><py:case value="1">zq'
                        '</py:case></py:switch>',
    'name with a dot at the end': '$zq. ',
}
EXPRS = {
    'expression': LINE + '${#}', 'expression in text': 'a\n b' + LINE + '${#} c',
    'expression in attribute': LINE + '<p a="${#}"/>',
    'second in attribute': LINE + '<p a="${1} ${#}"/>',
    'empty expression': LINE + '${}', 'blank expression': LINE + '${ }',
    'open expression': LINE + '${zq', 'open expression in attribute': LINE + '<p a="${zq"/>',
    'expression in cdata': '<![CDATA[ x\n' + LINE + '${#}]]>',
    'expression in script': '<script>var a = 1;\n' + LINE + '${#};\n</script>',
}
TEXT_EXPRS = {
    'expression': LINE + '${#}', 'expression in text': 'a\n b ' + LINE + '${#} c',
    'empty expression': LINE + '${}', 'open expression': LINE + '${zq',
}
TEXT_PYTHON = {
    'if': '{%if #%}a{%end%}', '%if': 'b\n%if #\na\n%end\n', 'for': '{%for i in #%}a{%end%}',
    'for without in': '\n%for zq\na\n%end\n', 'def': '{%def zq(%}a{%end%}',
    'def argument': '\n%def zq(1)\na\n%end\n',
    'switch': '{%switch #%}{%case 1%}a{%end%}', 'case': '{%switch 1%}{%case #%}a{%end%}',
    'code': '{%py b = #%}', 'code block': '{%py%}a = 1\nb = #\n{%end%}',
    '%code': '\n%py b = #\n', 'module code': '{%py %b = #%}',
    'block name': '{%block 1 zq%}a{%end%}',
}
TEXT_STRUCT = {
    'unknown tag': LINE + '{%foo 1%}', 'unknown %tag': 'a\n' + LINE + '%foo\nb\n',
    'lone $': 'a\nb ' + LINE + '$ c', 'lone $ 2': LINE + '$(x)', 'lone {%': 'a\n' + LINE + '{% if 1 %}',
    'open tag': None, 'include without name': LINE + '{%include %}',
    'include with more': '\n' + LINE + '%include "a" b\n', 'extends with more':
    LINE + '{%extends "a" "b"%}', 'import without as': LINE + '{%import "a" b%}',
    'open string': LINE + '{%include "a%}', 'call without arguments': LINE + '{%call f(%}b{%end%}',
    'tag of the wrong case': LINE + '{%IF 1%}',
}
for _w in ('body', 'text', 'expr', 'error', 'elif', 'endif', 'with', 'nop', 'replace'):
    TEXT_STRUCT['tag ' + _w] = LINE + '{%' + _w + '%}'
    TEXT_STRUCT['%tag ' + _w] = '\n' + LINE + '%' + _w + ' 1\n'
WHOLE_TEXT = {
    'end alone': '{}\n' + LINE + '{%end%}', '%end alone': '{}\n' + LINE + '%end\n',
    'if without end': '{}\n' + LINE + '{%if 1%}a\n', 'open tag': '{}\n' + LINE + '{%if 1\n',
    'open code': '{}\n' + LINE + '{%py a = 1\n', 'open code 2': '{}\n' + LINE + '{%py a = 1',
    'open include': '{}' + LINE + '{%include "zq"', 'open import': '{}' + LINE + 'a {%-import "zq" as b }',
    'open def': '{}\n' + LINE + '{%def zq() }a{ %end }', 'open end': '{}\n' + '{%for zq in [1]%}a\n' + LINE + '{%end',
    'open block': '{}' + LINE + '{%block zq', 'open for': '{}' + LINE + '{%for a in [1] % }',
}
del TEXT_STRUCT['open tag']
# names of parts of templates that are not (all) directives
WORDS = ['body', 'text', 'expr', 'node', 'comment', 'pi', 'xml', 'cdata', 'tag', 'error', 'compile',
         'nop', 'end', 'case', 'else', 'elif', 'block', 'py', 'python', 'doc', 'element', 'main',
         'template', 'attrs', 'content', 'strip', 'autoblock', 'for:if', 'if:', '_if', 'while',
         'extends', 'include', 'import', 'def', 'call', 'switch', 'with', 'replace', 'set', 'raw']
SWITCHED = sorted(k for k in MISPLACED if k.endswith("'"))
SITES = sorted(k for k in MISPLACED if not k.endswith("'"))
KINDS = [('broken', BROKEN), ('entities', ENTITIES), ('whole', WHOLE), ('misplaced', MISPLACED),
         ('misplaced', MISPLACED), ('python', PYTHON), ('exprs', EXPRS)]


class Fault(object):
    """A node whose source is the fault."""


class FaultyXml(XmlEmitter):
    def e_Fault(self, n):
        return HERE


class FaultyText(TextEmitter):
    def e_Fault(self, n):
        self.out += HERE


def bodies(nodes, out):
    out.append(nodes)
    for n in nodes:
        if isinstance(n, El) and n.content is None:
            bodies(n.body, out)
        elif isinstance(n, (For, With, Def, Call, Nop)):
            bodies(n.body, out)
        elif isinstance(n, If):
            bodies(n.body, out)
            if n.orelse is not None:
                bodies(n.orelse, out)
        elif isinstance(n, Switch):
            for _, b in n.cases:
                bodies(b, out)
            if n.orelse is not None:
                bodies(n.orelse, out)
    return out


ODD = [u'\u2028', u'\x85', u'é\n', u'\u2029\n', u'日本 \n']


class OddGen(LineGen):
    def text(self):
        t = LineGen.text(self)
        if self.rng.random() < .15:
            t.s = self.rng.choice(ODD) + t.s
        return t


def gen(rng, i, tier):
    kind = rng.choice(['xml', 'xml', 'xml', 'text'])
    big = tier == 'thorough' and rng.random() < .3
    g = OddGen(rng, kind, XML if kind == 'xml' else TEXT, size=rng.choice([2, 3, 4]),
               depth=rng.choice([3, 4] if big else [1, 2, 3]), spy=.1)
    g.fn_rate = .1
    tpl = g.template(functions=rng.choice([0, 0, 1, 2]))
    valid = bodies(tpl.body if kind == 'text' else tpl.body[0].body, [])
    em = (FaultyXml(rng, breaks=rng.choice([0, .3])) if kind == 'xml' else FaultyText(rng))
    place = rng.choice(valid)
    place.insert(rng.randrange(len(place) + 1), Fault())
    with_fault = em.template(tpl)
    before = u''
    if kind == 'xml' and rng.random() < .4:
        before = rng.choice(DOCTYPES)
    eol = '\r\n' if rng.random() < .15 else '\n'
    how = rng.choice(['fault', 'fault', 'fault', 'cut', 'mutate'] if kind == 'xml' else
                     ['fault', 'mutate'])
    case = dict(kind=kind, how=how, via=rng.choice(['string', 'string', 'file', 'loader']),
                strip=kind == 'xml' and rng.random() < .2, source=None)
    ok = before + with_fault.replace(HERE, '')
    case['valid'] = ok.replace('\n', eol)
    if how == 'cut':
        end = ok.rindex('>')
        start = len(before)
        case['source'] = ok[:rng.randrange(start, end) if end > start else start].replace('\n', eol)
        return case
    if how == 'mutate':
        ok = with_fault.replace(HERE, '')
        case['valid'] = ok
        chars = '<>&;"\'=/!?-[]{}$ \n\t:a1%()._pX\x0bé'
        for _ in range(rng.choice([1, 1, 1, 2])):
            p = rng.randrange(len(ok))
            x = rng.random()
            if x < .1:
                word = rng.choice(WORDS)
                piece = ('{%%%s%%}' % word if kind == 'text' else
                         rng.choice(['<py:%s/>', '<py:%s>t</py:%s>', '<b py:%s=""/>', '<%s/>',
                                     '<b py:%s="1">t</b>', '<py:%s a="1"/>']).replace('%s', word))
                ends = [m.end() for m in re.finditer('[>}]', ok)]
                p = rng.choice(ends) if ends else p
                ok = ok[:p] + piece + ok[p:]
            elif x < .4:
                ok = ok[:p] + ok[p + 1:]
            elif x < .7:
                ok = ok[:p] + rng.choice(chars) + ok[p:]
            elif x < .9:
                ok = ok[:p] + rng.choice(chars) + ok[p + 1:]
            else:       # a piece moves
                q = min(len(ok), p + rng.randrange(1, 30))
                piece, ok = ok[p:q], ok[:p] + ok[q:]
                p = rng.randrange(len(ok) + 1)
                ok = ok[:p] + piece + ok[p:]
        case['source'] = ok
        return case
    if kind == 'text':
        group, faults = rng.choice([('text exprs', TEXT_EXPRS), ('text python', TEXT_PYTHON),
                                    ('text tags', TEXT_STRUCT), ('whole text', WHOLE_TEXT)])
        klass = ['KajikiSyntaxError']
    else:
        group, faults = rng.choice(KINDS)
        klass = {'broken': PARSE, 'entities': PARSE, 'whole': PARSE, 'misplaced': COMPILE,
                 'python': SYNTAX, 'exprs': COMPILE}[group]
    name = rng.choice(sorted(faults))
    if group == 'misplaced':
        name = rng.choice(SWITCHED if rng.random() < .3 else SITES)
    fault = faults[name]
    if name == 'else after blank':
        case['strip'] = False   # otherwise there is no blank
    bad = rng.choice(BAD)
    if group in ('exprs', 'text exprs', 'text python') and '"' in bad:
        bad = 'zq +'    # an open string takes the rest of the text with it
    if kind == 'xml':
        bad = bad.replace('"', '&quot;')
    fault = fault.replace('#', bad)
    if group == 'whole text':
        src = fault.replace('{}', with_fault.replace(HERE, ''), 1)
    elif group == 'whole':
        src = fault.replace('{}', with_fault.replace(HERE, ''), 1).replace('{{', '{').replace(
            '}}', '}')
        if name == 'two doctypes':
            before = ''
    else:
        src = with_fault.replace(HERE, fault)
    src = before + src
    case['line'] = None
    if LINE in src:
        case['line'] = src.count('\n', 0, src.index(LINE)) + 1
        src = src.replace(LINE, '')
    elif group in ('broken', 'whole'):
        case['line'] = 'expat'
    case.update(source=src.replace('\n', eol), fault='%s: %s' % (group, name), klass=klass,
                shows='zq' if 'python' in group else None)
    return case


def expat_error(source):
    """-> (line, message) where the document is not well formed, or None."""
    p = expat.ParserCreate('utf-8')
    try:
        p.Parse(source.encode('utf-8'), True)
    except expat.ExpatError as e:
        return e.lineno, expat.ErrorString(e.code)
    return None


def compile_via(case, source, tmp):
    """-> (exception or None, file name that errors must name)"""
    import kajiki
    from kajiki.loader import FileLoader
    ext = {'xml': 'xml', 'text': 'txt'}[case['kind']]
    opts = {'strip_text': True} if case['strip'] else {}
    fn = os.path.join(tmp, 'dir', 't.' + ext)
    cls = kajiki.XMLTemplate if case['kind'] == 'xml' else kajiki.TextTemplate
    if case['via'] != 'string':
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        with open(fn, 'wb') as f:
            f.write(source.encode('utf-8'))
    try:
        if case['via'] == 'string':
            fn = 'some/where é.' + ext
            cls(source, filename=fn, **opts)
        elif case['via'] == 'file':
            cls(filename=fn, **opts)
        else:
            FileLoader(path=[os.path.join(tmp, 'nowhere'), os.path.dirname(fn)],
                       **opts).load('t.' + ext)
    except Exception as e:
        return e, fn
    return None, fn


INJECTED = re.compile(r'<!DOCTYPE kajiki \[.*?\]>')
DOCTYPE = re.compile(r'<!DOCTYPE[^>]*>')


def check_location(mon, e, fn, line, source):
    mon.equal('file name of the error', fn, e.filename)
    mon.equal('line of the error', line, e.linenum)
    text = str(e)
    mon.equal('message starts with the location', '[%s:%s] ' % (fn, line),
              text[:len('[%s:%s] ' % (fn, line))])
    shown = [l for l in text.split('\n') if l.startswith('\t --> ')]
    mon.equal('one line is shown', 1, len(shown))
    lines = re.split('\r\n?|\n', source)
    want = lines[line - 1] if line <= len(lines) else ''
    got = shown[0][6:]
    if INJECTED.search(got) or DOCTYPE.search(want) or '<!DOCTYPE' in want:
        got = INJECTED.sub('', got)
        want = re.sub(r'^.*?>', '', want) if '<!DOCTYPE' in want and got not in want else want
        mon.count('comparisons')
        if got.strip() not in want and want not in got:
            mon.equal('the line shown', want, got)
    else:
        mon.equal('the line shown', want, got)


def own_code(e, fn):
    """Raised by the template's own code, as defaults of functions are evaluated?"""
    tb = e.__traceback__ if e is not None else None
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    return tb is not None and tb.tb_frame.f_code.co_filename == fn


def run(case, mon):
    tmp = tempfile.mkdtemp(prefix='kmon-c14-')
    try:
        _run(case, mon, tmp)
    finally:
        shutil.rmtree(tmp)


def _run(case, mon, tmp):
    e, fn = compile_via(case, case['valid'], tmp)
    if e is not None:
        mon.fail('a valid template does not compile: %s: %s' % (type(e).__name__, str(e)[:400]))
        return
    mon.count('valid')
    source = case['source']
    e, fn = compile_via(case, source, tmp)
    if case['via'] != 'string':
        mon.count('from_file')
    name = type(e).__name__ if e is not None else None
    if case['how'] == 'fault':
        if case['fault'].startswith('broken') and expat_error(source) is None:
            return      # what follows happens to close it
        mon.count('faults')
        if case['fault'].endswith("'"):
            mon.seen('in_switch', case['fault'])
        else:
            mon.seen('kinds', case['fault'])
        if e is None:
            mon.fail('compiles in spite of the fault %r' % case['fault'], want=case['klass'])
            return
        mon.count('comparisons')
        if name not in case['klass']:
            mon.fail('error class for the fault %r' % case['fault'], want=case['klass'],
                     got='%s: %s' % (name, str(e)[:300]))
            return
        if case['shows']:
            mon.equal('the faulty code is shown', True, case['shows'] in str(e))
        line = case['line']
        if line == 'expat':
            err = expat_error(source)
            line = err[0] if err and 'entity' not in err[1] else None
        if line:
            mon.seen('lines', line)
            check_location(mon, e, fn, line, source)
        return
    if case['kind'] == 'text':
        mon.count('mutations')
        mon.count('comparisons')
        mon.seen('text_mutation_outcomes', name)
        if own_code(e, fn):
            return
        if name not in (None, 'KajikiSyntaxError'):
            mon.fail('a changed template raises %s: %s' % (name, str(e)[:400]))
        return
    err = expat_error(source)
    if case['how'] == 'cut':
        mon.count('truncations')
        if err is None:
            return
        mon.equal('class of the error', PARSE[0], name)
        if name == PARSE[0]:
            mon.seen('lines', err[0])
            check_location(mon, e, fn, err[0], source)
        return
    mon.count('mutations')
    if err and err[1] == 'undefined entity':
        known = all(n + ';' in html5 for n in re.findall(r'&(\w+);', source))
        if known:
            return
    if err:
        mon.count('mutations_malformed')
        mon.equal('class of the error', PARSE[0], name)
        if name == PARSE[0]:
            check_location(mon, e, fn, err[0], source)
        return
    mon.count('mutations_wellformed')
    mon.count('comparisons')
    mon.seen('mutation_outcomes', name)
    if own_code(e, fn):
        return
    if name not in (None, 'XMLTemplateCompileError', 'KajikiSyntaxError'):
        mon.fail('a changed template raises %s: %s' % (name, str(e)[:400]))
    elif name == 'XMLTemplateCompileError':
        check_location(mon, e, fn, e.linenum, source)


def probe(spec):
    import kajiki
    kajiki.XMLTemplate(spec['source'])
    return 'compiles'
