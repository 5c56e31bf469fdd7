# -*- coding: utf-8 -*-
"""C15: static content of XML templates."""
import html.entities
import os
import random
import re
import shutil
import tempfile

ID = 'C15'
RULE = ('Every character that XML allows (in text, attribute, CDATA section and comment), every '
        'HTML entity (text and attribute), and random static documents whose characters are '
        'written literally, as decimal, hexadecimal or named references, with CDATA sections, '
        'comments, hidden comments, code blocks between texts, white space of every kind, both '
        'quotes, LF/CRLF/CR, XML declaration, byte order mark, strip_text on and off, in '
        'xml/html/html5 mode; long (200000 characters), wide and deep documents; compiled from a string, a file in one of six encodings or through '
        'a FileLoader. Non-trivial when the document has a reference, a CDATA section, a comment '
        'or edge white space. Oracle: the tokens of the output (elements, attributes, decoded '
        'text, comments, CDATA) are those of the abstract document.')
COUNT = {'quick': 8000, 'thorough': 250000}
MIN = {'renders': 8000, 'characters': 1000000, 'entities': 2000, 'source_kinds': 8, 'tokens': 30000,
       'big_documents': 60}

HTML5 = dict((k[:-1], v) for k, v in html.entities.html5.items() if k.endswith(';'))
NAMED = {}
for _n, _v in sorted(HTML5.items()):
    NAMED.setdefault(_v, []).append(_n)
PREDEFINED = {'&': 'amp', '<': 'lt', '>': 'gt', '"': 'quot', "'": 'apos'}
TAGS = ['a', 'b', 'div', 'p', 'span', 'pre', 'x-y', 'n:t', '\u00e9l', '_u', 'li', 'textarea', 'title',
        'T', 'py', 'aB1.c']
ATTRS = ['id', 'class', 'title', 'data-k', 'xml:lang', 'xml:space', '\u00f1', 'href', 'value', 'alt',
         'onclick', 'Name', 'py', 'for', 'if', 'strip']
CHARS = (list('abcXYZ019.,;:!?()[]{}#%@*+-=/\\|~^_`\'"<>&$') + [
    ' ', ' ', '\n', '\t', '  ', '\n  ', '\r', '\xa0', '\u2003', '\u3000', '\xad', '\u200b', '\u2028', '\x85',
    '\u00e9', '\u00df', '\u4e2d', '\u05d0', '\u0301', '\U0001f600', '\U0010fffd', '\ufeff', '\ufffd', '\x7f', '\x9f',
    '\u201c', '\u2026', '&amp;', '&lt;', '&nbsp;', '&#65;', ']]>', '-->', '<!--', '<b>', '${', '${1+1}',
    '$x', '$$', '{%', '%}', '?>', '</a>', 'word', 'two words', 'fj', '\u2242\u0338', '\u22da\ufe00'])
ENCODINGS = ['utf-8', 'utf-16', 'latin-1', 'cp1252', 'utf-8-sig', 'ascii', 'shift_jis']


def xml_chars():
    yield 0x9
    yield 0xa
    yield 0xd
    for lo, hi in ((0x20, 0xd7ff), (0xe000, 0xfffd), (0x10000, 0x10ffff)):
        for c in range(lo, hi + 1):
            yield c


def fixed(tier):
    cases = [dict(kind='entities', part=i, of=16, nontrivial=True) for i in range(16)]
    chars = 0x10ffff // 2048 + 1
    cases += [dict(kind='chars', lo=i * 2048, hi=i * 2048 + 2048, nontrivial=True)
              for i in range(chars)]
    sizes = [3000, 32768, 65535, 65536, 65537, 131072, 200000]
    cases += [dict(kind='big', what=w, n=n, seed=n + k, nontrivial=True)
              for k, n in enumerate(sizes) for w in ('words', 'lines', 'escapes', 'wide')]
    cases += [dict(kind='big', what='elements', n=n, seed=n, nontrivial=True)
              for n in (100, 1000, 4000)]
    cases += [dict(kind='big', what='deep', n=n, seed=n, nontrivial=True)
              for n in (10, 40, 100)]
    return cases


def big(case):
    """A long or deep document and its tokens."""
    r, n = random.Random(case['seed']), case['n']
    if case['what'] == 'deep':
        names = [r.choice('abcdi') for _ in range(n)]
        src = ''.join('<%s>%d' % (t, k) for k, t in enumerate(names)) + \
            ''.join('</%s>|' % t for t in reversed(names[1:])) + '</%s>' % names[0]
        toks = []
        for k, t in enumerate(names):
            toks += [('s', t, {}), ('t', str(k))]
        for t in reversed(names[1:]):
            toks += [('e', t), ('t', '|')]
        return src, toks + [('e', names[0])]
    if case['what'] == 'elements':
        src, toks = ['<r>'], [('s', 'r', {})]
        for k in range(n):
            t = r.choice(['p', 'q', 'i'])
            src.append('<%s n="%d">%d</%s>' % (t, k, k, t))
            toks += [('s', t, {'n': str(k)}), ('t', str(k)), ('e', t)]
        return ''.join(src) + '</r>', toks + [('e', 'r')]
    piece = {'words': ['word ', 'two ', 'x', '$', '. '], 'lines': ['a line\n', '\n', 'b ', '  c\n'],
             'escapes': ['&amp;', '&lt;', 'a', '&eacute;', '&#233;', '$$'],
             'wide': ['\u00e9', '\u4e2d', '\U0001f600', 'a ', '\xa0']}[case['what']]
    text = ''
    while len(text) < n:
        text += ''.join(r.choice(piece) for _ in range(500)) if r.random() < .5 \
            else r.choice(piece) * 300
    text = text.replace('$', '$$') if case['what'] == 'words' else text
    plain = text.replace('$$', '$').replace('&lt;', '<').replace('&eacute;', '\xe9').replace(
        '&#233;', '\xe9').replace('&amp;', '&')
    src = '<r><t>%s|</t><a v="%s|"/>%s</r>' % (text, text, 'z')
    return src, [('s', 'r', {}), ('s', 't', {}), ('t', plain + '|'), ('e', 't'),
                 ('s', 'a', {'v': plain.replace('\n', ' ') + '|'}), ('e', 'a'), ('t', 'z'),
                 ('e', 'r')]


# -- random documents -------------------------------------------------------

class Doc(object):
    def __init__(self, rng, encoding, ascii_space):
        self.rng = rng
        self.encoding = encoding
        self.ascii_space = ascii_space
        self.feats = set()

    def chars(self, n):
        out = ''.join(self.rng.choice(CHARS) for _ in range(n))
        if self.rng.random() < .2:
            out += chr(self.rng.choice([self.rng.randrange(0x20, 0x2fff),
                                        self.rng.randrange(0x3000, 0xd7ff),
                                        self.rng.randrange(0x10000, 0x10ffff)]))
        if self.ascii_space:
            out = ''.join(c for c in out if c in ' \t\n\r' or c.strip())
        return out

    def encodable(self, s):
        if self.encoding is None:
            return True
        try:
            return s.encode(self.encoding).decode(self.encoding) == s
        except UnicodeError:
            return False

    def only(self, s):
        return ''.join(c for c in s if self.encodable(c))

    def ref(self, c):
        r = self.rng
        x = r.random()
        if c in NAMED and x < .5:
            self.feats.add('named reference')
            return '&%s;' % r.choice(NAMED[c])
        if x < .75:
            self.feats.add('decimal reference')
            return '&#%d;' % ord(c)
        self.feats.add('hexadecimal reference')
        return '&#%s;' % (r.choice(['x%x', 'x%X', 'x0%x']) % ord(c))

    def write(self, s, quote=None):
        """Source of the text (or of the attribute value inside the quotes)."""
        r = self.rng
        out = ''
        i = 0
        while i < len(s):
            c = s[i]
            two = s[i:i + 2]
            if len(two) == 2 and two in NAMED and '$' not in two and r.random() < .8:
                self.feats.add('entity of two characters')
                out += '&%s;' % r.choice(NAMED[two])
                i += 2
                continue
            i += 1
            if c == '$':
                out += '$$'
            elif c in '&<':
                out += '&%s;' % PREDEFINED[c] if r.random() < .6 else self.ref(c)
            elif c == '\r' or not self.encodable(c):
                out += self.ref(c)
            elif quote and (c == quote or c in '\n\t'):
                out += self.ref(c)
            elif c == '>' and (out.endswith(']]') or out.endswith(']') or r.random() < .5):
                out += '&gt;' if r.random() < .6 else self.ref(c)
            elif c in PREDEFINED and r.random() < .3:
                self.feats.add('predefined reference')
                out += '&%s;' % PREDEFINED[c]
            elif r.random() < .1:
                out += self.ref(c)
            else:
                out += c
        return out

    def element(self, depth):
        r = self.rng
        tag = r.choice(TAGS)
        if not self.encodable(tag):
            tag = 'b'
        attrs = {}
        for name in r.sample(ATTRS, r.choice([0, 0, 1, 2, 3])):
            if self.encodable(name):
                attrs[name] = self.chars(r.randrange(0, 4))
        kids = [self.node(depth - 1) for _ in range(r.randrange(0, 5))] if depth else []
        return ('el', tag, attrs, kids)

    def node(self, depth):
        r = self.rng
        x = r.random()
        if x < .45 or depth <= 0:
            s = self.chars(r.randrange(1, 6))
            if r.random() < .4:
                s = r.choice([' ', '\n', '\n    ', '\t']) + s
            if r.random() < .4:
                s += r.choice([' ', '\n', '\n  '])
            return ('text', s)
        if x < .65:
            return self.element(depth)
        if x < .75:
            s = self.only(self.chars(r.randrange(0, 4))).replace(']]>', '').replace('\r', '') \
                .replace('$', '')
            return ('cdata', '' if ']]>' in s else s)
        if x < .9:
            s = self.only(self.chars(r.randrange(0, 3))).replace('\r', '')
            while '--' in s:
                s = s.replace('--', '-')
            return ('comment', s.strip('-').lstrip('!'), r.random() < .4)
        return ('code',)

    # source and expected tokens
    def source(self, n):
        r = self.rng
        if n[0] == 'text':
            return self.write(n[1])
        if n[0] == 'cdata':
            self.feats.add('CDATA')
            return '<![CDATA[%s]]>' % n[1]
        if n[0] == 'comment':
            self.feats.add('hidden comment' if n[2] else 'comment')
            return '<!--%s%s-->' % ('!' if n[2] else '', n[1])
        if n[0] == 'code':
            return r.choice(['<?py x = 1 ?>', '<?python y = 2?>'])
        _, tag, attrs, kids = n
        out = '<' + tag
        for k in r.sample(sorted(attrs), len(attrs)):
            q = r.choice('"\'')
            out += '%s%s=%s%s%s' % (r.choice([' ', '\n ', '  ']), k, q,
                                    self.write(attrs[k], q), q)
        if not kids:
            return out + r.choice(['/>', ' />', '></%s>' % tag])
        return out + r.choice(['', ' ']) + '>' + ''.join(map(self.source, kids)) + '</%s>' % tag


def expected(n, strip, out):
    """Append the tokens of the node."""
    if n[0] == 'text':
        # adjacent texts in the abstract document are one text of the source
        out.append(('t', n[1].strip(' \t\n\r') if strip else n[1]))
    elif n[0] == 'cdata':
        out.append(('d', n[1].strip(' \t\n\r') if strip else n[1]))
    elif n[0] == 'comment':
        if not n[2]:
            out.append(('c', n[1].strip()))
    elif n[0] == 'el':
        out.append(('s', n[1], dict(n[2])))
        for kid in merged(n[3]):
            expected(kid, strip, out)
        out.append(('e', n[1]))


def merged(kids):
    out = []
    for k in kids:
        if k[0] == 'text' and out and out[-1][0] == 'text':
            out[-1] = ('text', out[-1][1] + k[1])
        else:
            out.append(k)
    return out


TOKEN = re.compile(r'<!--(.*?)-->|<!\[CDATA\[(.*?)\]\]>|<!DOCTYPE[^>]*>\s*|</([^<>]*)>|'
                   r'<([^\s<>/]+)((?:\s+[^\s=<>]+="[^"<>]*")*)\s*(/?)>|([^<]+)', re.S)
ATTR = re.compile(r'([^\s=]+)="([^"]*)"')
REFS = re.compile(r'&(?:(amp|lt|gt|quot|apos)|#(\d+)|#x([0-9a-fA-F]+));')


def decode(s):
    def one(m):
        if m.group(1):
            return {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'"}[m.group(1)]
        return chr(int(m.group(2)) if m.group(2) else int(m.group(3), 16))
    return REFS.sub(one, s)


def tokens(s):
    """Tokens of well-formed output, or a message."""
    out, pos = [], 0
    while pos < len(s):
        m = TOKEN.match(s, pos)
        if not m:
            return 'not tokenizable at %r' % s[pos:pos + 40]
        pos = m.end()
        if m.group(1) is not None:
            out.append(('c', m.group(1).strip()))
        elif m.group(2) is not None:
            out.append(('d', m.group(2)))
        elif m.group(3) is not None:
            out.append(('e', m.group(3)))
        elif m.group(4) is not None:
            attrs = ATTR.findall(m.group(5))
            out.append(('s', m.group(4), dict((k, decode(v)) for k, v in attrs)))
            if len(out[-1][2]) != len(attrs):
                return 'duplicate attribute in %r' % m.group()
            if m.group(6):
                out.append(('e', m.group(4)))
        elif m.group(7) is not None:
            if '&' in REFS.sub('', m.group(7)):
                return 'unescaped & in %r' % m.group(7)
            out.append(('t', decode(m.group(7))))
    return normal(out)


def normal(toks):
    """Join texts that became adjacent, drop empty ones."""
    out = []
    for t in toks:
        if t[0] == 't' and not t[1]:
            continue
        if t[0] == 't' and out and out[-1][0] == 't':
            out[-1] = ('t', out[-1][1] + t[1])
        else:
            out.append(tuple(t))
    return out


def gen(rng, i, tier):
    how = rng.choice(['string', 'string', 'string', 'file', 'file', 'loader'])
    encoding = None if how == 'string' else rng.choice(ENCODINGS)
    strip = rng.random() < .35
    d = Doc(rng, encoding, strip)
    root = d.element(rng.choice([1, 2, 3]))
    source = d.source(root)
    toks = []
    expected(root, strip, toks)
    prolog = ''
    if rng.random() < .2:
        d.feats.add('XML declaration')
        prolog = '<?xml version="1.0"%s?>%s' % (
            rng.choice(['', ' encoding="utf-8"', ' encoding="iso-8859-1"']), rng.choice(['', '\n']))
    if rng.random() < .15:
        d.feats.add('DOCTYPE')
        prolog += rng.choice(['<!DOCTYPE html>\n', '<!DOCTYPE a>', '<!DOCTYPE a SYSTEM "x.dtd">\n\n'])
    if prolog == '' and rng.random() < .1:
        prolog = rng.choice(['\n', '  ', '\n\n'])
    source = prolog + source + rng.choice(['', '', '\n', '  \n'])
    eol = rng.choice(['\n', '\n', '\n', '\r\n', '\r'])
    if eol != '\n':
        d.feats.add('line ends %r' % eol)
        source = source.replace('\n', eol)
    if how == 'string' and rng.random() < .05 or encoding == 'utf-8' and rng.random() < .2:
        d.feats.add('byte order mark')
        source = '\ufeff' + source
    return dict(kind='doc', source=source, how=how, encoding=encoding, strip=strip,
                mode=rng.choice([None, 'xml', 'html', 'html5']), tokens=toks,
                feats=sorted(d.feats), nontrivial=bool(d.feats) or strip)


def compile_case(case):
    import kajiki
    opts = dict(strip_text=case['strip'])
    if case['mode']:
        opts['mode'] = case['mode']
    if case['how'] == 'string':
        return kajiki.XMLTemplate(case['source'], **opts)
    scratch = tempfile.mkdtemp(prefix='kmon')
    try:
        name = os.path.join(scratch, 't.xml')
        with open(name, 'wb') as f:
            f.write(case['source'].encode(case['encoding']))
        if case['how'] == 'file':
            return kajiki.XMLTemplate(filename=name, encoding=case['encoding'], **opts)
        mode = opts.pop('mode', None)
        return kajiki.FileLoader(scratch, force_mode=mode, encoding=case['encoding'],
                                 **opts).load('t.xml')
    finally:
        shutil.rmtree(scratch)


def quoted(c, extra=''):
    c = chr(c) if isinstance(c, int) else c
    if c == '$':
        return '$$'
    if c in '&<>"\r' + extra:
        return '&#%d;' % ord(c)
    return c


def run(case, mon):
    import kajiki
    if case['kind'] == 'doc':
        got = compile_case(case)().render()
        mon.count('renders')
        mon.seen('source_kinds', '%s %s' % (case['how'], case['encoding'] or ''))
        for f in case['feats']:
            mon.seen('features', f)
        toks = tokens(got)
        mon.count('tokens', len(toks))
        want = normal([tuple(t) for t in case['tokens']])
        mon.equal('tokens of the output', want, toks, output=got)
        return
    if case['kind'] == 'big':
        source, want = big(case)
        for mode in ('xml', 'html'):
            toks = tokens(kajiki.XMLTemplate(source, mode=mode)().render())
            mon.count('big_documents')
            mon.count('comparisons')
            if toks != want:
                k = [a == b for a, b in zip(toks, want)] + [False]
                k = k.index(False)
                mon.fail('token %d of a big document (%s, %d)' % (k, case['what'], case['n']),
                         want=repr(want[k:k + 1])[:300], got=repr(toks[k:k + 1])[:300],
                         lengths=[len(repr(want[k:k + 1])), len(repr(toks[k:k + 1]))])
        return
    if case['kind'] == 'entities':
        names = sorted(HTML5)[case['part']::case['of']]
        for k in range(0, len(names), 40):
            part = [n for n in names[k:k + 40] if HTML5[n] != '$']
            source = '<r>%s%s</r>' % (
                ''.join('<t>x&%s;y</t>' % n for n in part),
                '<a %s/>' % ' '.join('n%d="x&%s;y"' % (j, n) for j, n in enumerate(part)))
            want = [('s', 'r', {})]
            for n in part:
                want += [('s', 't', {}), ('t', 'x%sy' % HTML5[n]), ('e', 't')]
            want += [('s', 'a', dict(('n%d' % j, 'x%sy' % HTML5[n])
                                     for j, n in enumerate(part))), ('e', 'a'), ('e', 'r')]
            for mode in ('xml', 'html'):
                got = kajiki.XMLTemplate(source, mode=mode)().render()
                mon.equal('entities %s' % part, want, tokens(got))
            mon.count('entities', len(part))
        return
    chars = [c for c in xml_chars() if case['lo'] <= c < case['hi']]
    if not chars:
        return
    text = ''.join(map(quoted, chars))
    attr = ''.join(quoted(c, '\n\t') for c in chars)
    plain = ''.join(map(chr, chars)).replace('\r', '').replace('-', '').replace('$', '') \
        .replace(']', '')
    refs = ''.join('&#x%x;' % c for c in chars if c != 0x24)
    source = '<r><t>|%s|</t><a v="%s"/><t>|%s|</t><![CDATA[|%s|]]><!--|%s|--></r>' % (
        text, attr, refs, plain, plain)
    s = ''.join(map(chr, chars))
    want = [('s', 'r', {}), ('s', 't', {}), ('t', '|%s|' % s), ('e', 't'),
            ('s', 'a', {'v': s}), ('e', 'a'), ('s', 't', {}),
            ('t', '|%s|' % s.replace('$', '')), ('e', 't'), ('d', '|%s|' % plain),
            ('c', '|%s|' % plain), ('e', 'r')]
    got = kajiki.XMLTemplate(source)().render()
    mon.count('characters', len(chars))
    mon.equal('characters from %x' % case['lo'], want, tokens(got))
