"""D02: the graph dump is valid dot and shows the tree of the textual dump."""
import D01
from engine import Violation
import synt

PROP = 'D02'
COUNTS = {'quick': 4500, 'thorough': 90000}
RULE = D01.RULE
ASSUMPTIONS = ['nodes with the same address are the same node; the chain after a dashed edge consists of the node it '
               'leads to and its successors']

cases = D01.cases
render = D01.render


def check(env, case):
    t = D01.dump(env, case['src'])
    g = D01.dump(env, case['src'], '-D')
    try:
        want = synt.without_null(synt.parse_text(t))
    except synt.Bad as e:
        raise Violation('not a textual dump: %s' % e)
    try:
        got = synt.tree_of_dot(g)
    except synt.Bad as e:
        raise Violation('graph dump: %s' % e)
    diff = synt.first_difference(want, got)
    if diff:
        raise Violation('the graph dump differs from the textual dump: ' + diff)
    return case['f'] if case['n'] >= 30 and len(case['f']) >= 2 else []
