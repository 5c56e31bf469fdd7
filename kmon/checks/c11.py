"""C11: renderings do not influence each other."""
import copy
import os
import random
import shutil
import tempfile

from ..core import REPO
from ..harness import emit, make_ctx, build, compile_tpl
from ..model import Interp
from ..sched import Scheduler
from ..worlds import rich_world, contexts

ID = 'C11'
RULE = ('One to three random worlds of templates (page, layout, include, import; both engines) '
        'are compiled once and rendered many times with different contexts: one after the '
        'other with repetitions, failures injected at the n-th evaluation and iterations '
        'dropped half-way; as many interleaved iterations stepped in random order; as iterations that go on '
        'while an expression of another one is being evaluated; by threads '
        'preempted at random lines of kajiki and of the compiled templates; by threads that '
        'also compile or load (FileLoader, reload on and off) the templates. Non-trivial when '
        'at least two renderings overlap or follow each other. Oracle: the output and the '
        'order of evaluations the reference interpreter predicts for each rendering on its '
        'own; the contexts are compared before and after.')
COUNT = {'quick': 2700, 'thorough': 60000}
MIN = {'renders': 10000, 'nested_steps': 5000, 'overlapping_iterations': 1500, 'failed_on_purpose': 500,
       'abandoned': 300, 'leak_probes': 800, 'thread_switches': 20000, 'schedules': 300, 'compiled_in_threads': 500,
       'loaded_in_threads': 300}


class Boom(Exception):
    pass


def predict(world, main, spec, fail_at):
    log = []
    ctx = make_ctx(spec, log, False)
    arm(ctx, log, fail_at)
    try:
        out = Interp(world).render(main, ctx)
    except Boom:
        out = None
    return out, log


def arm(ctx, log, fail_at):
    """Let the n-th evaluation of the spy raise."""
    if fail_at is None:
        return
    e, boom = ctx['e'], Boom('planned')

    def failing(k, v=None):
        r = e(k, v)
        if len(log) >= fail_at:
            raise boom
        return r
    ctx['e'] = failing
    return boom


def gen(rng, i, tier):
    kind = ['history', 'interleave', 'nested', 'interleave', 'nested', 'threads', 'threads',
            'compile', 'load'][i % 9]
    worlds = []
    n = 1 if kind in ('history', 'load') else rng.choice([1, 1, 2])
    for _ in range(n):
        g, w = rich_world(rng, size=rng.choice([2, 3]), spy=rng.choice([.2, .4]),
                          parts=(.3, .3, .4), files=kind == 'load')
        main = list(w)[0]
        jobs = []
        for spec in contexts(g, rng.choice([2, 3, 4])):
            fail_at = None
            want, log = predict(w, main, spec, None)
            r = rng.random()
            if log and r < .25 and 'nx' not in log:
                fail_at = rng.randrange(1, len(log) + 1)
                want, log = predict(w, main, spec, fail_at)
                if want is not None:    # e(...) was not the last one
                    fail_at = None
            jobs.append(dict(ctx=spec, want=want, log=log, fail_at=fail_at,
                             abandon=rng.randrange(1, 6) if kind in (
                                 'history', 'interleave', 'nested') and r > .8 else None))
        worlds.append(dict(
            sources={k: dict(kind=t.kind, source=emit(t, rng)[0]) for k, t in w.items()},
            main=main, jobs=jobs, feats=sorted(g.used)))
    return dict(kind=kind, worlds=worlds, seed=rng.randrange(10 ** 9),
                rate=rng.choice([.002, .01, .05, .2]), reload=rng.random() < .5,
                reuse=rng.random() < .5,
                nontrivial=sum(len(w['jobs']) for w in worlds) > 1)


def compile_world(w):
    import kajiki
    mods = {k: compile_tpl(s['kind'], s['source']) for k, s in w['sources'].items()}
    return kajiki.MockLoader(mods).import_(w['main'])


class Rendering(object):
    def __init__(self, job, tpl, mon):
        self.job, self.mon = job, mon
        self.log = []
        self.ctx = make_ctx(job['ctx'], self.log, True)
        self.boom = arm(self.ctx, self.log, job['fail_at'])
        self.hook = lambda: None
        spy = self.ctx['e']

        def e(k, v=None):
            r = spy(k, v)
            self.hook()
            return r
        self.ctx['e'] = e
        self.running = False
        self.ctx['_'] = 'own'
        self.before = dict(self.ctx)
        self.values = copy.deepcopy(job['ctx'])
        self.inst = tpl(self.ctx)
        self.it = None
        self.parts = []
        self.error = None
        self.done = False

    def step(self):
        if self.it is None:
            self.it = iter(self.inst)
        self.running = True
        try:
            self.parts.append(next(self.it))
        except StopIteration:
            self.done = True
            self.result = ''.join(self.parts)
        except Boom as e:
            self.done = True
            self.error = e
        finally:
            self.running = False

    def render(self):
        self.done = self.running = True
        try:
            self.result = self.inst.render()
        except Boom as e:
            self.error = e
        finally:
            self.running = False

    def check(self, mon, what):
        job = self.job
        mon.count('renders')
        mon.count('evaluation_events', len(self.log))
        if self.error is not None:
            mon.count('failed_on_purpose')
            if self.error is not self.boom:
                mon.fail('%s: another exception than the one raised' % what,
                         got=repr(self.error))
        elif job['fail_at'] is not None:
            mon.fail('%s: the exception was swallowed' % what)
        else:
            mon.equal('%s: output' % what, job['want'], self.result)
        mon.equal('%s: order of evaluations' % what, job['log'], self.log)
        self.check_context(mon, what)

    def check_context(self, mon, what):
        if set(self.ctx) != set(self.before) or \
                any(self.ctx[k] is not self.before[k] for k in self.before) or \
                {k: self.ctx[k] for k in self.values} != build(self.values, True):
            mon.fail('%s: the context was modified' % what,
                     want=sorted(self.before), got=sorted(self.ctx))


def run(case, mon):
    for w in case['worlds']:
        for f in w['feats']:
            mon.seen('features', f)
    mon.seen('kinds', case['kind'])
    globals()['run_' + case['kind']](case, mon)


BROKEN = ['<div><py:def function="f(x)"><py:switch test="x">text</py:switch></py:def></div>',
          '<div><py:with vars="a=1"><p py:def="f(">x</p></py:with></div>',
          '<div><p>${1 +}</p></div>', '<div><p>&nosuchentity;</p></div>', '<div><p></div>',
          '<!DOCTYPE html>\n<html><py:extends href="x"/><py:block name="a">${</py:block></html>']


def fail_to_compile(rng, mon):
    import kajiki
    try:
        kajiki.XMLTemplate(rng.choice(BROKEN))
    except Exception:
        mon.count('failed_compilations')


LEAKS = ['a', 'B', 'TITLE', 'camelCase', 'snake_case', '_private', '_', 'page', 'user', 'request', 'x1',
         'parent_', 'Self', 'title', 'i18n']


def check_leaks(rng, mon):
    """Every rendering sees the names of its own context and of base_globals only."""
    import kajiki
    names = [n for n in rng.sample(LEAKS, 6) if n != '_']
    show = ''.join("${value_of('%s', '-')}${defined('%s')}," % (n, n) for n in names)
    base = {n: 'base' for n in names if rng.random() < .25}
    sources = {
        'main': '<div>%s<py:include href="inc"/><py:def function="f()">%s</py:def>${f()}</div>' % (
            show, show),
        'kid': '<div><py:extends href="main"/></div>', 'inc': '<p>%s</p>' % show}
    loader = kajiki.MockLoader({k: kajiki.XMLTemplate(v, base_globals=base) for k, v in sources.items()})
    before = dict(base)
    main = rng.choice(['main', 'kid'])
    alive = []
    for _ in range(4):
        context = {n: 'own' for n in names if rng.random() < .4}
        own = dict(context)
        line = ''.join('%s%s,' % (own.get(n, base.get(n, '-')), n in own or n in base) for n in names)
        want = '<div>%s<p>%s</p>%s</div>' % (line, line, line)
        if main == 'kid':
            want = '<div>%s</div>' % want
        alive.append((loader.import_(main)(context), want, context, own))
    rng.shuffle(alive)
    for inst, want, context, own in alive:
        mon.equal('names of the context of one rendering only', want, inst.render())
        mon.equal('the context is unchanged', own, context)
        mon.count('leak_probes')
    mon.equal('base_globals are unchanged', before, base)


def run_history(case, mon):
    rng = random.Random(case['seed'])
    check_leaks(rng, mon)
    for w in case['worlds']:
        if rng.random() < .5:
            fail_to_compile(rng, mon)
        tpl = compile_world(w)
        order = list(w['jobs']) * 2
        rng.shuffle(order)
        for job in order:
            r = Rendering(job, tpl, mon)
            if job['abandon'] and rng.random() < .7:
                for _ in range(job['abandon']):
                    if not r.done:
                        r.step()
                if not r.done:
                    mon.count('abandoned')
                    r.check_context(mon, 'abandoned rendering')
                    continue
            elif rng.random() < .5:
                while not r.done:
                    r.step()
            else:
                r.render()
            r.check(mon, 'rendering after others')
            if r.error is None and 'nx' not in job['log'] and rng.random() < .3:
                del r.log[:]
                r.render()
                r.check(mon, 'rendering the same instance again')
                mon.count('same_instance')
            if rng.random() < .1:
                fail_to_compile(rng, mon)


def run_interleave(case, mon):
    rng = random.Random(case['seed'])
    active = []
    for w in case['worlds']:
        tpl = compile_world(w)
        for job in w['jobs']:
            active.append(Rendering(job, tpl, mon))
            if rng.random() < .3:
                active.append(Rendering(dict(job, abandon=None), tpl, mon))
    mon.count('overlapping_iterations', len(active))
    while active:
        r = rng.choice(active)
        r.step()
        if r.done:
            active.remove(r)
            r.check(mon, 'interleaved iteration')
        elif r.job['abandon'] and len(r.parts) >= r.job['abandon']:
            active.remove(r)
            if rng.random() < .5:
                r.it.close()
            mon.count('abandoned')
            r.check_context(mon, 'abandoned iteration')
        if active and rng.random() < .05:
            q = rng.choice(active)      # a whole rendering in between
            if not q.job['abandon']:
                again = Rendering(q.job, type(q.inst), mon)
                again.render()
                again.check(mon, 'rendering during iterations')


def run_nested(case, mon):
    """Renderings that go on, fail, end or begin in the middle of expressions of others."""
    rng = random.Random(case['seed'])
    everything, templates = [], []
    rate = rng.choice([.2, .5, .9])

    def make(job, tpl):
        r = Rendering(job, tpl, mon)
        r.hook = hook
        everything.append(r)
        return r

    def hook():
        if rng.random() >= rate or sum(r.running for r in everything) > 6:
            return
        for _ in range(rng.choice([1, 1, 2, 3])):
            idle = [r for r in everything if not r.done and not r.running and
                    not (r.job['abandon'] and len(r.parts) >= r.job['abandon'])]
            if len(everything) < 12 and (not idle or rng.random() < .1):
                r = make(*rng.choice(templates))
                if rng.random() < .4:
                    r.render()
                    continue
                idle.append(r)
            if not idle:
                return
            mon.count('nested_steps')
            r = rng.choice(idle)
            r.step()
            if r.job['abandon'] and len(r.parts) >= r.job['abandon'] and not r.done and \
                    rng.random() < .5:
                r.it.close()
                mon.count('abandoned')
    for w in case['worlds']:
        tpl = compile_world(w)
        for job in w['jobs']:
            templates.append((job, tpl))
            make(job, tpl)
    mon.count('overlapping_iterations', len(everything))
    while True:
        idle = [r for r in everything if not r.done and
                not (r.job['abandon'] and len(r.parts) >= r.job['abandon'])]
        if not idle:
            break
        rng.choice(idle).step()
    for r in everything:
        if r.done:
            r.check(mon, 'rendering nested in others')
        else:
            r.check_context(mon, 'abandoned iteration')


def collect(results, mon):
    for res, error in results:
        if error is not None:
            raise error
        for r, what in res:
            r.check(mon, what)


def scheduler(case):
    return Scheduler(case['seed'], case['rate'], os.path.join(REPO, 'kajiki') + os.sep)


def report(s, mon):
    mon.count('thread_switches', s.switches)
    mon.count('blocked_on_locks', s.stuck)
    mon.seen('schedules', s.schedule())


def run_threads(case, mon):
    jobs = []
    for w in case['worlds']:
        tpl = compile_world(w)
        for job in w['jobs']:
            def work(job=job, tpl=tpl):
                out = []
                for again in (1, 2):
                    r = Rendering(job, tpl, mon)
                    r.render()
                    out.append((r, 'rendering in a thread'))
                return out
            jobs.append(work)
    s = scheduler(case)
    collect(s.run(jobs), mon)
    report(s, mon)


def run_compile(case, mon):
    """Each thread compiles its own copy and renders it."""
    jobs = []
    for w in case['worlds']:
        for job in w['jobs'][:2]:
            def work(job=job, w=w, broken=random.Random(case['seed'] + len(jobs))):
                if broken.random() < .3:
                    fail_to_compile(broken, mon)
                r = Rendering(job, compile_world(w), mon)
                r.render()
                return [(r, 'compiled and rendered in a thread')]
            jobs.append(work)
            mon.count('compiled_in_threads')
    s = scheduler(dict(case, rate=case['rate'] / 4))
    collect(s.run(jobs), mon)
    report(s, mon)


def run_load(case, mon):
    """Threads load the same files through one loader."""
    import kajiki
    w = case['worlds'][0]
    d = tempfile.mkdtemp(prefix='kmon-c11-')
    try:
        for k, s in w['sources'].items():
            with open(os.path.join(d, k), 'w', encoding='utf-8') as f:
                f.write(s['source'])
        loader = kajiki.FileLoader(d, reload=case['reload'])
        jobs = []
        for job in w['jobs']:
            def work(job=job):
                out = []
                for again in (1, 2):
                    tpl = loader.import_(w['main'])
                    r = Rendering(job, tpl, mon)
                    r.render()
                    out.append((r, 'loaded and rendered in a thread'))
                return out
            jobs.append(work)
            mon.count('loaded_in_threads')
        s = scheduler(dict(case, rate=case['rate'] / 4))
        collect(s.run(jobs), mon)
        report(s, mon)
    finally:
        shutil.rmtree(d)
