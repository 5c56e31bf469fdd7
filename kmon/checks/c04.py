"""C04: template functions, closures, recursion and calls with bodies."""
from ..gen import Gen
from ..harness import Boom, world_case, run_world

ID = 'C04'
RULE = ('Random programs of up to five top-level functions (parameters, defaults, *args, keyword-only, **kwargs, recursion), '
        'functions nested in them, and py:call with bodies that are called zero or more times '
        'with arguments, called before or after their definition from content, attributes, '
        'loops and other functions, by name and through self/local, in both engines; also '
        'functions that fail and whose failure is handled, that are run in part or alternately; '
        'non-trivial when a call is rendered. Oracle: independent reference interpreter '
        '(exact output and exact order of evaluations).')
COUNT = {'quick': 7000, 'thorough': 200000}
MIN = {'renders': 1000, 'evaluation_events': 5000, 'features': 14}
XML = ['if', 'for', 'with', 'call', 'call', 'innerdef', 'content', 'pyattrs', 'replace']
TEXT = ['if', 'for', 'call', 'call', 'innerdef']


def gen(rng, i, tier):
    kind = 'text' if i % 3 == 0 else 'xml'
    odd = rng.choice([None, None, None, 'failing', 'mixed'])
    feats = XML if kind == 'xml' else TEXT
    g = Gen(rng, kind, feats + ['switch', 'with'] if odd and kind == 'xml' else
            feats + ['switch'] if odd else feats, depth=rng.choice([2, 3]),
            size=3, spy=rng.choice([.1, .3]), counters=odd != 'mixed')
    if odd == 'failing':
        g.boomy = .15
    elif odd == 'mixed':
        g.mixed = .6
    g.fn_rate = rng.choice([.2, .4])
    g.joined = rng.choice([0, 0, .2])
    g.stars = rng.choice([0, .2])
    g.closures = rng.choice([0, .5])
    tpl = g.template(functions=rng.randrange(1, 5), depth=rng.choice([1, 2, 2]))
    try:
        case = world_case(rng, {'t': tpl}, 't', g.ctx, feats=sorted(g.used),
                          check_log=odd != 'mixed',
                          emit_kw={'xml': dict(attr_form=rng.choice([0, .5, 1]))})
    except Boom:        # not handled by the template
        return gen(rng, i, tier)
    case['nontrivial'] = bool(g.used & set(['call', 'py:call', 'recursion']))
    return case


def run(case, mon):
    run_world(case, mon, case['check_log'])
