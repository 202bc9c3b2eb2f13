"""C01: control flow follows C for every nesting of statements.  Oracle: gcc."""
from cgen import *
from progs import Prog
import scale
from engine import expect_same

PROP = 'C01'
COUNTS = {'quick': 4500, 'thorough': 60000}
RULE = ('each case is a random program: nested blocks, if/else (braced and not), while and for loops in 9 shapes, '
        'break and return at any depth, shadowing declarations, tracing the values of visible variables; '
        'non-trivial: contains a loop and a branch or break/return inside it; one case in 14 is extreme in one dimension (lib/scale.py); distinct by program text')
ASSUMPTIONS = ['gcc -O0 is a correct C compiler for the generated programs']


def gen(d):
    p = Prog(d, nfn=d.int(0, 2), depth=d.int(2, 5), stmts=4, recursion=False, statics=False,
             pointers=d.chance(1, 3), size=d.int(6, 40))
    src = p.program()
    return {'src': src, 'f': sorted(p.f)}


def cases():
    return case_strategy(scale.mixed(gen, PROP))


def check(env, case):
    expect_same(env.gcc(case['src']), env.bic(case['src']))
    if case.get('scale'):
        return case['f']
    f = set(case['f'])
    return case['f'] if 'loop' in f and f & {'if', 'break', 'return'} else []
