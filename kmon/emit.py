# -*- coding: utf-8 -*-
"""Writes abstract templates (model.py) as source text, choosing at random among
the equivalent ways to write the same thing."""
import re

from .model import (Text, Expr, El, If, For, Switch, With, Def, Call, Block, Include,
                    Import, Py, ModPy, Replace, Comment, CData, Raw, Nop)

IDENT = re.compile(r'[_a-zA-Z][_a-zA-Z0-9]*(\.[_a-zA-Z][_a-zA-Z0-9]*)*\Z')
# outermost first
PRECEDENCE = ['py:def', 'py:call', 'py:case', 'py:else', 'py:for', 'py:if', 'py:switch',
              'py:with', 'py:replace', 'py:block', 'py:extends']
ATTR_OF = {'py:def': 'function', 'py:call': 'function', 'py:case': 'value', 'py:else': None,
           'py:for': 'each', 'py:if': 'test', 'py:switch': 'test', 'py:with': 'vars',
           'py:replace': 'value', 'py:block': 'name', 'py:extends': 'href'}


def xml_attr(rng, s):
    """Quote s as an XML attribute value."""
    s = s.replace('&', '&amp;').replace('<', '&lt;')
    if rng.random() < .3:
        s = s.replace('>', '&gt;')
    if '"' in s and "'" not in s and rng.random() < .5:
        return "'%s'" % s
    if '"' not in s and "'" not in s and rng.random() < .2:
        return "'%s'" % s
    return '"%s"' % s.replace('"', '&quot;')


def xml_text(rng, s):
    s = s.replace('&', '&amp;').replace('<', '&lt;')
    if rng.random() < .5 or ']]>' in s:
        s = s.replace('>', '&gt;')
    return s


def dollars(rng, s, lone_ok=True):
    """Write the $ of static text."""
    out = []
    for i, c in enumerate(s):
        if c != '$':
            out.append(c)
        elif (lone_ok and i + 1 < len(s) and s[i + 1] in ' 0123456789.,)-' and
              rng.random() < .4):
            out.append('$')
        else:
            out.append('$$')
    return ''.join(out)


class XmlEmitter(object):
    def __init__(self, rng, attr_form=.5, named=.3, ws=True, breaks=0):
        self.rng = rng
        self.breaks = breaks    # how often attributes are on lines of their own
        self.attr_form = attr_form
        self.named = named
        self.ws = ws
        self.stats = {}

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def template(self, tpl):
        body = self.body(tpl.body)
        if isinstance(tpl.extends, tuple):
            test, a, b = [xml_attr(self.rng, x) for x in tpl.extends]
            body = ('<py:nop><py:if test=%s><py:extends href=%s/></py:if>'
                    '<py:else><py:extends href=%s/></py:else>%s</py:nop>' % (test, a, b, body))
        elif tpl.extends is not None:
            body = self.rng.choice([
                '<py:extends href=%s>%s</py:extends>', '<py:extends href=%s>%s</py:extends>',
                '<py:nop py:extends=%s>%s</py:nop>', '<py:nop><py:extends href=%s/>%s</py:nop>',
                '<div py:strip="" py:extends=%s>%s</div>']) % (
                    xml_attr(self.rng, tpl.extends), body)
        return (tpl.doctype + '\n' if tpl.doctype else '') + body

    def body(self, nodes):
        """Join siblings; $name needs to know what comes next."""
        out = ''
        for n in reversed(nodes):
            if isinstance(n, Expr):
                piece = self.expr(n.code, out)
            else:
                piece = self.node(n)
            out = piece + out
        return out

    def expr(self, code, following):
        if (IDENT.match(code) and self.rng.random() < self.named and
                (following[:1] in ('<', ' ', '\n', ',', ';', '-', '/') or following == '')):
            self.stat('$name')
            return '$' + code
        pad = self.rng.choice(['', '', '', ' '])
        return '${%s%s%s}' % (pad, xml_text(self.rng, code), pad)

    def parts(self, parts):
        """Parts of an attribute value -> raw attribute text (not quoted)."""
        out = ''
        for p in reversed(parts):
            if isinstance(p, Text):
                piece = dollars(self.rng, p.s)
            elif IDENT.match(p.code) and self.rng.random() < self.named and (
                    out[:1] in (' ', '-', '/', ',') or out == ''):
                piece = '$' + p.code
            else:
                piece = '${%s}' % p.code
            out = piece + out
        return out

    def node(self, n):
        return getattr(self, 'e_' + type(n).__name__)(n)

    def e_Text(self, n):
        return xml_text(self.rng, dollars(self.rng, n.s))

    def e_Expr(self, n):
        return self.expr(n.code, 'x')

    # -- directives -------------------------------------------------------
    def directive(self, n):
        """(directive, value, body) of a node that can be put on an element."""
        if isinstance(n, If) and n.orelse is None:
            return 'py:if', n.test, n.body
        if isinstance(n, For):
            return 'py:for', '%s in %s' % (n.target, n.iter), n.body
        if isinstance(n, With):
            return 'py:with', self.binds(n), n.body
        if isinstance(n, Def):
            return 'py:def', self.sig(n), n.body
        if isinstance(n, Block):
            return 'py:block', n.name, n.body
        if isinstance(n, Call) and n.args is None:
            return 'py:call', n.callee, n.body
        return None

    def binds(self, n):
        sep = self.rng.choice([';', '; ', ' ; '])
        eq = self.rng.choice(['=', ' = '])
        return sep.join(name + eq + code for name, code in n.binds)

    def sig(self, n):
        return '%s(%s)' % (n.name, n.params)

    def wrapped(self, dirs, body):
        """A chain of directives around body: dirs are (directive, value)."""
        # fold trailing directives into the only element of the body
        while (len(body) == 1 and self.rng.random() < self.attr_form):
            d = self.directive(body[0])
            if d is None:
                break
            if PRECEDENCE.index(d[0]) <= PRECEDENCE.index(dirs[-1][0]):
                break
            dirs = dirs + [d[:2]]
            body = d[2]
        if (len(body) == 1 and type(body[0]) is El and self.rng.random() < self.attr_form):
            self.stat('attribute form x%d' % len(dirs))
            return self.element(body[0], dirs)
        if (len(body) == 1 and type(body[0]) is Replace and len(dirs) <= 2
                and self.rng.random() < self.attr_form and dirs[-1][0] != 'py:block'
                and dirs[-1][0] != 'py:def'):
            self.stat('py:replace attribute with others')
            return self.element(El('b', [], [Text('gone')]),
                                dirs + [('py:replace', body[0].code)])
        # element form of one, the others as its attributes (if any)
        k = self.rng.randrange(len(dirs))
        name, value = dirs[k]
        attrs = [(d, v) for i, (d, v) in enumerate(dirs) if i != k]
        if ATTR_OF[name] is not None:
            attrs.append((ATTR_OF[name], value))
        self.stat('element form' if len(dirs) == 1 else 'element form x%d' % len(dirs))
        self.rng.shuffle(attrs)
        return '<%s%s>%s</%s>' % (
            name, ''.join(' %s=%s' % (a, xml_attr(self.rng, v)) for a, v in attrs),
            self.body(body), name)

    def e_If(self, n):
        if n.orelse is None:
            return self.wrapped([('py:if', n.test)], n.body)
        out = self.single('py:if', n.test, n.body)
        if self.rng.random() < .1:
            out += '<!--! %s -->' % self.rng.choice(['or', '$x ${', 'a <b>'])
        return out + self.single('py:else', '', n.orelse)

    def single(self, name, value, body):
        """One directive, that must be the outermost of what is written."""
        if len(body) == 1 and type(body[0]) is El and self.rng.random() < self.attr_form:
            self.stat('attribute form of ' + name)
            return self.element(body[0], [(name, value)])
        a = '' if ATTR_OF[name] is None else ' %s=%s' % (
            ATTR_OF[name], xml_attr(self.rng, value))
        return '<%s%s>%s</%s>' % (name, a, self.body(body), name)

    def e_For(self, n):
        d = self.directive(n)
        return self.wrapped([d[:2]], n.body)

    e_With = e_Def = e_For

    def e_Block(self, n):
        if getattr(n, 'auto', False):
            self.stat('autoblock')
            a = self.rng.choice(['', '', '', ' py:autoblock="True"', ' py:autoblock="true"',
                                 ' name="other"', ' class="$nothing"'])
            return '<%s%s>%s</%s>' % (n.name, a, self.body(n.body), n.name)
        return self.e_For(n)

    def e_Call(self, n):
        if n.args is None:
            return self.e_For(n)
        return '<py:call args=%s function=%s>%s</py:call>' % (
            xml_attr(self.rng, n.args), xml_attr(self.rng, n.callee), self.body(n.body))

    def e_Switch(self, n):
        ws = (lambda: self.rng.choice(['', '', '\n', '  ', '\t', '\n\t'])) if self.ws else (lambda: '')
        out = '<py:switch test=%s>' % xml_attr(self.rng, n.test) + ws()
        for code, body in n.cases:
            out += self.single('py:case', code, body) + ws()
        if n.orelse is not None:
            out += self.single('py:else', '', n.orelse) + ws()
        return out + '</py:switch>'

    def e_Nop(self, n):
        return '<py:nop>%s</py:nop>' % self.body(n.body)

    def e_Replace(self, n):
        r = self.rng.random()
        if r < self.attr_form:
            self.stat('py:replace attribute')
            return '<b py:replace=%s>%s</b>' % (
                xml_attr(self.rng, n.code), self.rng.choice(['', 'gone', '<i/>']))
        return '<py:replace value=%s/>' % xml_attr(self.rng, n.code)

    def e_Include(self, n):
        return '<py:include href=%s/>' % xml_attr(self.rng, n.href)

    def e_Import(self, n):
        alias = '' if n.alias is None else ' alias="%s"' % n.alias
        return '<py:import href=%s%s/>' % (xml_attr(self.rng, n.href), alias)

    def e_Py(self, n):
        return '<?py %s ?>' % n.code if '\n' not in n.code else '<?py\n%s\n?>' % n.code

    def e_ModPy(self, n):
        return '<?py %%%s ?>' % n.code if '\n' not in n.code else '<?py %%\n%s\n?>' % n.code

    def e_Comment(self, n):
        return '<!--%s%s-->' % ('!' if n.hidden else '', n.s)

    def e_CData(self, n):
        out = ''
        for p in n.parts:
            out += dollars(self.rng, p.s) if isinstance(p, Text) else '${%s}' % p.code
        return '<![CDATA[%s]]>' % out

    def e_Raw(self, n):
        attrs = [(a, self.parts(p)) for a, p in n.attrs]
        if n.strip is not None:
            attrs.append(('py:strip', n.strip))
        if n.pyattrs is not None:
            attrs.append(('py:attrs', n.pyattrs))
        self.rng.shuffle(attrs)
        attrs = ''.join(' %s=%s' % (a, xml_attr(self.rng, v)) for a, v in attrs)
        if not n.parts:
            if self.rng.random() < .5:
                return '<%s%s></%s>' % (n.tag, attrs, n.tag)
            return '<%s%s/>' % (n.tag, attrs)
        plain = ''.join(dollars(self.rng, p.s) if isinstance(p, Text) else '${%s}' % p.code
                        for p in n.parts)
        if self.rng.random() < .5:
            inner = '<![CDATA[%s]]>' % plain
        else:
            inner = xml_text(self.rng, plain)
        return '<%s%s>%s</%s>' % (n.tag, attrs, inner, n.tag)

    def e_El(self, n):
        return self.element(n, [])

    def element(self, n, dirs):
        attrs = [(name, self.parts(parts)) for name, parts in n.attrs]
        attrs += [(d, v) for d, v in dirs]
        if n.strip is not None:
            attrs.append(('py:strip', n.strip))
        if getattr(n, 'noauto', False):
            attrs.append(('py:autoblock', self.rng.choice(['False', 'false'])))
        if n.content is not None:
            attrs.append(('py:content', n.content))
        if n.pyattrs is not None:
            attrs.append(('py:attrs', n.pyattrs))
        self.rng.shuffle(attrs)
        a = ''.join('%s%s=%s' % (
            '\n ' if self.breaks and self.rng.random() < self.breaks else
            self.rng.choice([' ', ' ', '  ']), k, xml_attr(self.rng, v)) for k, v in attrs)
        if n.content is not None:
            inner = self.rng.choice(['', 'gone', '<i>gone</i>'])
        else:
            inner = self.body(n.body)
        if not n.body and n.content is None:
            if self.rng.random() < .5:
                return '<%s%s/>' % (n.tag, a)
            return '<%s%s></%s>' % (n.tag, a, n.tag)
        return '<%s%s>%s</%s>' % (n.tag, a, inner, n.tag)


class TextEmitter(object):
    """Text templates. Directives are written inline ({%...%}), on a line of
    their own (%...) where that takes only white space the model knows about,
    or with the trimming forms."""

    def __init__(self, rng, line_form=.4, named=.3):
        self.rng = rng
        self.line_form = line_form
        self.named = named
        self.trim_pos = -1
        self.stats = {}

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def template(self, tpl):
        self.out = ''
        if isinstance(tpl.extends, tuple):
            self.tag('if', tpl.extends[0])
            self.tag('extends', '"%s"' % tpl.extends[1])
            self.tag('else')
            self.tag('extends', '"%s"' % tpl.extends[2])
            self.tag('end')
        elif tpl.extends is not None:
            # functions may be written before it
            k = 0
            while k < len(tpl.body) and isinstance(tpl.body[k], (Def, ModPy)) and \
                    self.rng.random() < .3:
                k += 1
            self.body(tpl.body[:k])
            self.tag('extends', '"%s"' % tpl.extends)
            self.body(tpl.body[k:])
            return self.out
        self.body(tpl.body)
        return self.out

    def body(self, nodes):
        for i, n in enumerate(nodes):
            nxt = nodes[i + 1] if i + 1 < len(nodes) else None
            if isinstance(n, Text):
                self.text(n.s)
            elif isinstance(n, Expr):
                if (IDENT.match(n.code) and self.rng.random() < self.named and
                        isinstance(nxt, Text) and nxt.s[:1] in (' ', '\n', ',', '-', '!')):
                    self.stat('$name')
                    self.out += '$' + n.code
                else:
                    self.out += '${%s}' % n.code
            else:
                getattr(self, 'e_' + type(n).__name__)(n)

    def text(self, s):
        r = self.rng
        if s and s[0] in ' \t' and self.trim_pos == len(self.out):
            self.out += '\\' + s[0]     # not to be trimmed
            s = s[1:]
        for c in s:
            if c == '$':
                self.out += '$$'
            elif c == '\\':
                self.out += '\\\\'
            elif c == '{':
                self.out += '\\{' if r.random() < .2 else '{'
            elif c == '%':
                # never a tag: not after { nor alone at the start of a line
                self.out += '\\%'
            else:
                if r.random() < .03:
                    self.out += '\\\n'
                self.out += c

    def tag(self, name, body=''):
        r = self.rng
        body = (' ' + body) if body else ''
        if (self.out == '' or self.out.endswith('\n')) and not self.out.endswith('\\\n') \
                and not self.blank_before() and '\n' not in body and r.random() < self.line_form:
            self.stat('line form')
            self.out += r.choice(['', '  ', '\t']) + '%' + name + body + '\n'
            return
        left, right = '{%', '%}'
        if (self.out == '' or self.out.endswith('\n')) and not self.out.endswith('\\\n') \
                and not self.blank_before() and r.random() < .3:
            self.stat('{%- form')
            left = r.choice(['', '  ', '\t']) + '{%-'
        if r.random() < .15:
            self.stat('-%} form')
            right = '-%}' + r.choice(['', ' ', ' \t '])
        sp = r.choice(['', ' '])
        if name == 'call':
            sp = ''
        self.out += left + name + body + sp + right
        if right.startswith('-'):
            self.trim_pos = len(self.out)

    def blank_before(self):
        """Would ^\\s* reach back over blank lines of the text before?"""
        i = len(self.out)
        j = i
        while j > 0 and self.out[j - 1] in ' \t\n\r\x0b\x0c':
            j -= 1
        ws = self.out[j:i]
        return ws.count('\n') > 1 or (j == 0 and ws != '')

    def e_If(self, n):
        self.tag('if', n.test)
        self.body(n.body)
        if n.orelse is not None:
            self.tag('else')
            self.body(n.orelse)
        self.tag('end')

    def e_For(self, n):
        self.tag('for', '%s in %s' % (n.target, n.iter))
        self.body(n.body)
        self.tag('end')

    def e_Switch(self, n):
        self.tag('switch', n.test)
        for code, body in n.cases:
            self.tag('case', code)
            self.body(body)
        if n.orelse is not None:
            self.tag('else')
            self.body(n.orelse)
        self.tag('end')

    def e_Def(self, n):
        self.tag('def', '%s(%s)' % (n.name, n.params))
        self.body(n.body)
        self.tag('end')

    def e_Call(self, n):
        self.tag('call', '(%s) %s' % (n.args or '', n.callee))
        self.body(n.body)
        self.tag('end')

    def e_Block(self, n):
        self.tag('block', n.name)
        self.body(n.body)
        self.tag('end')

    def e_Include(self, n):
        self.tag('include', '"%s"' % n.href)

    def e_Import(self, n):
        self.tag('import', '"%s"' % n.href + (' as %s' % n.alias if n.alias else ''))

    def e_Py(self, n):
        if '\n' in n.code:
            self.out += '{%%py%%}%s\n{%%end%%}' % n.code
        else:
            self.tag('py', n.code)

    def e_ModPy(self, n):
        self.tag('py', '%' + n.code)

    def e_Nop(self, n):
        self.body(n.body)
