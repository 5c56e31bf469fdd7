"""C03: control flow directives, in both engines and both ways of writing them."""
from ..gen import Gen
from ..harness import world_case, run_world, probe

ID = 'C03'
RULE = ('Random programs of nested if/else, switch/case/else, for, with, strip, content, '
        'replace and code blocks over spied expressions, written for the XML engine (element '
        'and attribute forms, any attribute order) or the text engine (inline, line and '
        'trimming forms); non-trivial when the template evaluates at least 3 spied '
        'expressions and uses at least one directive. Oracle: independent reference '
        'interpreter predicts the exact output and the exact order of evaluations.')
COUNT = {'quick': 9000, 'thorough': 250000}
MIN = {'renders': 1000, 'evaluation_events': 10000, 'features': 8, 'source_forms': 8}
XML = ['if', 'if', 'for', 'for', 'switch', 'with', 'strip', 'content', 'replace', 'nop', 'py']
TEXT = ['if', 'if', 'for', 'for', 'switch', 'py']


def gen(rng, i, tier):
    kind = 'text' if i % 4 == 0 else 'xml'
    big = tier == 'thorough' and rng.random() < .3
    g = Gen(rng, kind, XML if kind == 'xml' else TEXT, depth=5 if big else rng.choice([2, 3, 4]),
            size=rng.choice([2, 3, 3, 4]), spy=rng.choice([.1, .3, .6]))
    g.blank = .1
    functions = 0
    if rng.random() < .3:       # conditions and subjects that render functions
        functions, g.joined, g.fn_rate = rng.randrange(1, 3), .3, .1
    tpl = g.template(functions=functions, depth=1)
    case = world_case(rng, {'t': tpl}, 't', g.ctx, feats=sorted(g.used),
                      emit_kw={'xml': dict(attr_form=rng.choice([0, .5, 1]))})
    case['nontrivial'] = len(case['log']) >= 3 and bool(g.used)
    return case


def run(case, mon):
    run_world(case, mon)
