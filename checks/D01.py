"""D01: the textual dump shows the program's structure.  Oracle: the syntax tree the
generator derived the program from; plus equality of the dumps of two layouts."""
from cgen import case_strategy
from engine import Violation, show
import synt

PROP = 'D01'
COUNTS = {'quick': 4500, 'thorough': 90000}
RULE = ('each case is a syntactically valid translation unit derived from the supported grammar (expressions of all '
        'operators with minimal and redundant parentheses, declarators, specifiers, compounds, enums, bit-fields, '
        'initialiser lists, statements, functions), written in two layouts; non-trivial: at least 30 tokens and two '
        'different kinds of construct; distinct by the text of both layouts')
ASSUMPTIONS = ['the properties OFFSET, SZ, ALIGN, EXPANDED, CLOSURE, RET_TYPE and the type of an enumeration belong to '
               'the evaluator, not to the syntax tree',
               'a unary minus of a literal is shown as a negative literal, any other as a subtraction from 0; x->m as '
               '(*x).m, x op= y as x = x op y']


def gen(d):
    s = synt.Syn(d, d.pick([4, 8, 15, 30, 60]))
    parts = s.unit()
    a, b = synt.layout(d, parts), synt.layout(d, parts)
    return {'src': a, 'src2': b, 'tree': [p[1] for p in parts], 'n': sum(len(p[0]) for p in parts),
            'f': sorted(s.f)}


def cases():
    return case_strategy(gen)


def tuples(v):
    """JSON has no tuples."""
    if isinstance(v, (list, tuple)):
        if len(v) == 2 and isinstance(v[0], str) and isinstance(v[1], dict):
            return (v[0], {k: tuples(x) for k, x in v[1].items()})
        return [tuples(x) for x in v]
    return v


def dump(env, src, *opts):
    r = env.bic(src, opts=('-T',) + opts)
    if r[0] != 0 or r[1]:
        raise Violation('dumping a valid program: ' + show(r))
    return r[2].decode('latin-1')


def check(env, case):
    a = dump(env, case['src'])
    try:
        got = synt.parse_text(a)
    except synt.Bad as e:
        raise Violation('not a dump: %s' % e)
    diff = synt.first_difference(synt.normal(tuples(case['tree'])), synt.normal(synt.external(got)))
    if diff:
        raise Violation('the dump does not show the program: ' + diff)
    if dump(env, case['src2']) != a:
        raise Violation('the dump depends on the layout of the program')
    return case['f'] if case['n'] >= 30 and len(case['f']) >= 2 else []


def render(case):
    return case['src'] + '\n// ---- second layout\n' + case['src2']
