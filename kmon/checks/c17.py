# -*- coding: utf-8 -*-
"""C17: the Pyramid and TurboGears 1 integrations, with stand-ins for the frameworks."""
import os
import shutil
import sys
import tempfile
import types

ID = 'C17'
RULE = ('Random configurations (extensions, mode, reload, force_mode, loader class, extra '
        'variables) and histories of template writes, deletions and renderings of the two '
        'integrations, driven through the interfaces that Pyramid and TurboGears use, with '
        'stand-ins for the modules of the frameworks themselves: pages that include, import and '
        'extend other templates by resource or package name, fragments, view values that are '
        'dictionaries or not, values that override system values, malformed templates that are '
        'repaired later. Non-trivial when a template changes between renderings or a value '
        'overrides another one. Oracle: the core compiles and renders the content that must be '
        'in use with the merged values; a record of the calls to the framework.')
COUNT = {'quick': 2400, 'thorough': 60000}
MIN = {'renders': 8000, 'reloads': 500, 'stale_renders': 200, 'rejected_values': 200,
       'settings': 20, 'config_errors': 100, 'failed_loads': 300}

MODES = ['html5', 'html', 'xml']
VALUES = ['plain', '<zz9>&"', 7, None, 'é\u4e2d', True]


def page(rng, ver, frags, layout):
    """A page template: [source, how its parts are used]."""
    out = '<h1 class="$cls">v%d $title ${request}</h1><br/>' % ver
    for f in frags:
        x = rng.random()
        if x < .4:
            out += '<py:include href="@%s"/>' % f
        elif x < .6:
            out += '<py:import href="@%s" alias="lib_%s"/>${lib_%s.fn(title)}' % (f, f, f)
    if layout:
        return '<py:extends href="@%s"><py:block name="main">%s</py:block></py:extends>' % (
            layout, out)
    head = rng.choice(['', '<!DOCTYPE html>\n'])
    return head + '<html><p py:if="defined(\'extra\')">$extra</p>%s</html>' % out


def fragment(rng, ver):
    return rng.choice(['', '<!DOCTYPE html>\n']) + (
        '<div><py:def function="fn(x)"><q>$x</q></py:def>f%d ${fn(title)}<input checked="checked"/>'
        '${value_of("request", "none")} ${defined("view")} ${defined("context")} '
        '${getattr(value_of("view"), "request", "-")} ${len(value_of("context", ""))}</div>' % ver)


def layout_source(rng, ver):
    return ('<!DOCTYPE html>\n<html><b>l%d</b><py:block name="main">none</py:block>'
            '<hr/></html>' % ver)


BROKEN = ['<html>', '<a>${1 +}</a>', '<a>&nosuch;</a>', '<a><py:else>x</py:else></a>']


def value(rng):
    v = dict(title=rng.choice(VALUES), cls=rng.choice(VALUES))
    if rng.random() < .4:
        v['extra'] = rng.choice(VALUES)
    if rng.random() < .3:
        v['request'] = 'own request'
    return v


def history(rng, kinds, steps):
    """Random operations over the names; kinds: {name: 'page'|'fragment'|'layout'}."""
    frags = [n for n in sorted(kinds) if kinds[n] == 'fragment']
    layouts = [n for n in sorted(kinds) if kinds[n] == 'layout']
    ver = [0]

    def source(n):
        ver[0] += 1
        if kinds[n] == 'fragment':
            return fragment(rng, ver[0])
        if kinds[n] == 'layout':
            return layout_source(rng, ver[0])
        return page(rng, ver[0], frags, rng.choice([None, None] + layouts))
    ops = [['write', n, source(n)] for n in sorted(kinds)]
    for _ in range(steps):
        x = rng.random()
        n = rng.choice(sorted(kinds))
        if x < .2:
            ops.append(['write', n, source(n)])
        elif x < .25:
            ops.append(['write', n, rng.choice(BROKEN)])
            if rng.random() < .7:
                ops.append(['render', rng.choice([m for m in sorted(kinds)
                                                  if kinds[m] == 'page']), value(rng)])
                ops.append(['write', n, source(n)])
        elif x < .28:
            ops.append(['delete', n])
        else:
            pages = [m for m in sorted(kinds) if kinds[m] == 'page']
            if frags and rng.random() < .25:
                ops.append(['fragment', rng.choice(frags), value(rng)])
            else:
                ops.append(['render', rng.choice(pages), value(rng)])
    return ops


NOT_DICTS = ['None', '5', "'abc'", 'object()', '[1, 2]', '3.5', '(1,)', "{'a'}", 'True', "['abc']"]


def gen(rng, i, tier):
    kinds = {'p0': 'page'}
    if rng.random() < .6:
        kinds['p1'] = 'page'
    for n in rng.sample(['f0', 'f1'], rng.randrange(0, 3)):
        kinds[n] = 'fragment'
    if rng.random() < .5:
        kinds['l0'] = 'layout'
    steps = rng.choice([3, 6, 10, 16])
    if i % 2:
        case = dict(kind='pyramid', reload=rng.choice([None, 'true', 'false', True, False, 'yes']),
                    extensions=rng.choice([None, '.kajiki', '.kajiki .genshi', ' .a\n.b .c ', '.kj', '.xml', '.html .txt']),
                    mode=rng.choice([None] + MODES), by=rng.choice(['renderer_name', 'renderer_info']),
                    bad=rng.choice(NOT_DICTS), absolute=rng.random() < .2)
    else:
        case = dict(kind='tg1', reload=rng.choice([None, True, False]),
                    force_mode=rng.choice([None, None, 'txt'] + MODES),
                    ext=rng.choice(['.xml', '.html', '.html5']),
                    extra=rng.choice([None, {}, {'cls': 'from extra'}, {'extra': 'E', 'title': 'T'},
                                      {'extra': None, 'page': 'P', 'request': 'mine'}]),
                    loader=rng.choice([None, None, 'kajiki.loader.PackageLoader', 'kmon_tg.Custom']),
                    bad=rng.choice(['nosuch_module.Loader', 'kajiki.loader.NoSuch', 'nodot',
                                    'kajiki.nosuch.X', '.Loader', 'kajiki.']))
    case['kinds'] = kinds
    case['ops'] = history(rng, kinds, steps)
    case['nontrivial'] = len([o for o in case['ops'] if o[0] == 'write']) > len(kinds) or any(
        'request' in o[2] for o in case['ops'] if o[0] == 'render')
    return case


# -- stand-ins ----------------------------------------------------------------

def stubs(root):
    """Modules of the frameworks; resource specs 'app:x' are files below root."""
    def module(name, **attrs):
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        return m

    def implementer(*interfaces):
        def decorate(cls):
            cls.implemented = getattr(cls, 'implemented', ()) + interfaces
            return cls
        return decorate

    def asbool(v):
        if isinstance(v, str):
            v = v.strip().lower()
            if v in ('true', 'yes', 'on', 'y', 't', '1'):
                return True
            if v in ('false', 'no', 'off', 'n', 'f', '0'):
                return False
            raise ValueError(v)
        return bool(v)

    def abspath_from_resource_spec(spec, pname='__main__'):
        if os.path.isabs(spec):
            return spec
        pkg, _, rel = spec.partition(':')
        return os.path.join(root, pkg, rel)

    class Interface(object):
        pass
    return {
        'paste': module('paste'), 'paste.deploy': module('paste.deploy'),
        'paste.deploy.converters': module('paste.deploy.converters', asbool=asbool),
        'zope': module('zope'), 'zope.interface': module('zope.interface',
                                                         implementer=implementer),
        'pyramid': module('pyramid'),
        'pyramid.interfaces': module('pyramid.interfaces', IRenderer=Interface,
                                     ITemplateRenderer=Interface),
        'pyramid.resource': module('pyramid.resource',
                                   abspath_from_resource_spec=abspath_from_resource_spec)}


class Registry(object):
    pass


class Config(object):
    def __init__(self, settings):
        self.registry = Registry()
        self.settings = settings
        self.renderers = []

    def get_settings(self):
        return self.settings

    def add_renderer(self, name, factory):
        self.renderers.append((name, factory))


class Info(object):
    def __init__(self, name, registry):
        self.name = name
        self.package = None
        self.type = os.path.splitext(name)[1]
        self.registry = registry
        self.settings = {}


# -- the oracle -----------------------------------------------------------------

class Store(object):
    """Which content of each template has to be in use."""

    def __init__(self, reload, mode, kinds, ref, mode_of_html=None):
        self.reload = reload
        self.kinds = kinds
        self.mode = mode
        self.ref = ref          # name -> how templates refer to it
        self.files = {}         # name -> (content, version)
        self.used = {}          # name -> (content, version)
        self.stale = self.reloads = 0

    def write(self, name, content, version):
        self.files[name] = (content, version)

    def get(self, name):
        """The content that loading must use now; None if it cannot be loaded."""
        now = self.files.get(name)
        old = self.used.get(name)
        if old is not None and (not self.reload or now == old):
            if old != now:
                self.stale += 1
            return old[0]
        if now is None:
            return None
        if old is not None:
            self.reloads += 1
        self.used.pop(name, None)
        return now[0]

    def loader(self):
        import kajiki
        from kajiki.loader import Loader
        store = self
        names = dict((store.ref(n), n) for n in store.kinds)

        class Oracle(Loader):
            def _load(self, ref, is_fragment=None):
                name = names[ref]
                source = store.get(name)
                if source is None:
                    raise IOError(ref)
                if store.mode == 'txt':
                    tpl = kajiki.TextTemplate(source)
                else:
                    tpl = kajiki.XMLTemplate(source, mode=store.mode,
                                             is_fragment=store.kinds[name] == 'fragment')
                if name not in store.used:
                    store.used[name] = store.files[name]
                return tpl
        return Oracle()     # a new one, with nothing cached, for each rendering

    def outcome(self, name, context):
        try:
            return self.loader().import_(self.ref(name))(context).render()
        except Exception as e:
            return 'raises ' + error(e)


def error(e):
    return 'OSError' if isinstance(e, OSError) else type(e).__name__


class Files(object):
    """Writes templates with increasing modification times."""

    def __init__(self, path_of, ref):
        self.path_of, self.ref = path_of, ref
        self.clock, self.writes = 1500000000, 0

    def write(self, name, source):
        self.writes += 1
        self.clock += (.25, 2, .5, 60, .0625)[self.writes % 5]
        with open(self.path_of(name), 'w', encoding='utf-8') as f:
            f.write(source)
        os.utime(self.path_of(name), (self.clock, self.clock))
        return self.clock


def resolve(source, kinds, ref):
    for n in kinds:
        source = source.replace('@%s"' % n, '%s"' % ref(n))
    return source


def run_history(case, mon, store, files, path_of, render, render_fragment):
    for op in case['ops']:
        if op[0] == 'write':
            source = resolve(op[2], case['kinds'], store.ref)
            store.write(op[1], source, files.write(op[1], source))
        elif op[0] == 'delete':
            if os.path.exists(path_of(op[1])):
                os.remove(path_of(op[1]))
            store.files.pop(op[1], None)
        else:
            do = render if op[0] == 'render' else render_fragment
            try:
                got, context = do(op[1], dict(op[2]))
            except Exception as e:
                got, context = 'raises ' + error(e), e.context_
            want = store.outcome(op[1], context)
            if want.startswith('raises'):
                mon.count('failed_loads')
            mon.count('renders')
            mon.equal('%s of %s' % (op[0], op[1]), want, got, value=op[2])
    mon.count('reloads', store.reloads)
    mon.count('stale_renders', store.stale)


def run_pyramid(case, mon, root):
    mods = stubs(root)
    saved = dict((n, sys.modules.get(n)) for n in mods)
    sys.modules.update(mods)
    sys.modules.pop('kajiki.integration.pyramid', None)
    try:
        import kajiki.integration.pyramid as integration
        _run_pyramid(case, mon, root, integration)
    finally:
        sys.modules.pop('kajiki.integration.pyramid', None)
        for n, m in saved.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m


def _run_pyramid(case, mon, root, integration):
    os.makedirs(os.path.join(root, 'app', 'tpl'))
    settings = {}
    for key, name in (('reload', 'pyramid.reload_templates'), ('mode', 'kajiki.mode'),
                      ('extensions', 'kajiki.extensions')):
        if case[key] is not None:
            settings[name] = case[key]
    config = Config(settings)
    integration.includeme(config)
    integration.includeme(config)       # including twice must change nothing
    extensions = (case['extensions'] or '.kajiki').split()
    mon.equal('registered extensions', sorted(extensions), sorted(n for n, _ in config.renderers))
    mon.seen('settings', 'pyramid %r %r %r' % (case['reload'], case['mode'], len(extensions)))
    reload = case['reload'] in (True, 'true', 'yes')
    rel = lambda n: 'tpl/%s%s' % (n, extensions[0])
    path_of = lambda n: os.path.join(root, 'app', rel(n))
    ref = lambda n: path_of(n) if case['absolute'] else 'app:' + rel(n)
    store = Store(reload, case['mode'] or 'html5', case['kinds'], ref)
    files = Files(path_of, ref)

    def renderer(name):
        factories = [f for n, f in config.renderers if n == extensions[0]]
        info = Info(ref(name), config.registry)
        return factories[0](info), info

    def render(name, v, value=None):
        r, info = renderer(name)
        system = dict(request='the request', view='the view', context='the context')
        if case['by'] == 'renderer_name':
            system['renderer_name'] = ref(name)
        system['renderer_info'] = info
        context = dict(system, **v)
        try:
            return r(v if value is None else value, system), context
        except Exception as e:
            e.context_ = context
            raise

    def render_fragment(name, v):
        loader = config.registry.kajiki_loader

        class View(object):
            request = 'request of the view'
        view = View()
        kw = dict(request='given') if len(name + str(v)) % 2 else {}
        context = dict(dict(request=kw.get('request', View.request), view=view, context=v,
                            renderer_name=ref(name)), **v)
        try:
            return loader.fragment(ref(name), v, view=view, **kw), context
        except Exception as e:
            e.context_ = context
            raise
    run_history(case, mon, store, files, path_of, render, render_fragment)
    # values that are no dictionaries
    source = resolve('<html>$request</html>', {}, ref)
    store.write('p0', source, files.write('p0', source))
    bad = eval(case['bad'])
    try:
        r, info = renderer('p0')
        r(bad, dict(request='r', renderer_info=info))
        mon.fail('the value %s was accepted' % case['bad'])
    except ValueError:
        mon.count('rejected_values')


def run_tg1(case, mon, root):
    from kajiki.integration import turbogears1
    from kajiki.loader import PackageLoader
    pkg = 'kmonpkg_' + os.path.basename(root).replace('-', '_')
    os.makedirs(os.path.join(root, pkg))
    with open(os.path.join(root, pkg, '__init__.py'), 'w'):
        pass
    custom = types.ModuleType('kmon_tg')
    made = []

    class Custom(PackageLoader):
        def __init__(self, **options):
            made.append(options)
            PackageLoader.__init__(self, **options)
    custom.Custom = Custom
    sys.modules['kmon_tg'] = custom
    sys.path.insert(0, root)
    try:
        options = {}
        for key in ('reload', 'force_mode'):
            if case[key] is not None:
                options['kajiki.' + key] = case[key]
        if case['loader']:
            options['kajiki.loader_class'] = case['loader']
        extra = case['extra']
        if extra is None:
            plugin = turbogears1.XMLTemplateEnginePlugin(engine_options=options or None)
        else:
            plugin = turbogears1.XMLTemplateEnginePlugin(lambda: dict(extra), options)
        mon.seen('settings', 'tg1 %r %r %r' % (case['reload'], case['force_mode'], case['loader']))
        if case['loader'] == 'kmon_tg.Custom':
            mon.equal('the loader class is used', (True, 1), (isinstance(plugin.loader, Custom),
                                                              len(made)))
        mode = case['force_mode'] or {'.xml': None, '.html': 'html', '.html5': 'html5'}[case['ext']]
        path_of = lambda n: os.path.join(root, pkg, n + case['ext'])
        ref = lambda n: '%s.%s' % (pkg, n)
        store = Store(case['reload'] is not False, mode, case['kinds'], ref)
        files = Files(path_of, ref)

        def render(name, v):
            info = dict(v, request='r')
            context = dict(info, **(extra or {}))
            template = ref(name)
            try:
                if len(str(v)) % 3 == 0:
                    template = plugin.load_template(template)
                return plugin.render(info, format='html', fragment=False, template=template), \
                    context
            except Exception as e:
                e.context_ = context
                raise
        # fragments are rendered as pages here, which output their DOCTYPE
        case = dict(case, ops=[o for o in case['ops'] if o[0] != 'fragment'])
        run_history(case, mon, store, files, path_of, render, None)
        source = '<div>$title<br/></div>'
        tpl = plugin.load_template(None, template_string=source)
        import kajiki
        context = dict({'title': '<t>'}, **(extra or {}))
        mon.equal('template from a string', kajiki.XMLTemplate(source)(context).render(),
                  plugin.render({'title': '<t>'}, template=tpl))
        try:
            turbogears1.XMLTemplateEnginePlugin(None, {'kajiki.loader_class': case['bad']})
            mon.fail('the loader class %s was accepted' % case['bad'])
        except turbogears1.ConfigurationError:
            mon.count('config_errors')
    finally:
        sys.path.remove(root)
        del sys.modules['kmon_tg']
        sys.modules.pop(pkg, None)


def run(case, mon):
    root = tempfile.mkdtemp(prefix='kmon')
    try:
        (run_pyramid if case['kind'] == 'pyramid' else run_tg1)(case, mon, root)
    finally:
        shutil.rmtree(root)
