"""R01: the prompt gives the same results as a script."""
import os, pwd
from session import *
from engine import Violation, show

PROP = 'R01'
COUNTS = {'quick': 900, 'thorough': 12000}
RULE = ('each case is a session of 4 to 45 lines (declarations of integers, floating, strings, arrays, pointers, structs, '
        'enums, typedefs; expressions, assignments, increments, calls, inspection by name) followed by the echo of every '
        'object, at the prompt itself or at the prompt opened by a <REPL>; statement after a first part that ran as a '
        'script (at top level, in a function or as ~/.bic), with random timing of collections; one in eight is large in one dimension (hundreds of objects, members, lines or declarators, long strings, lines and names, deep pointers and compounds, large arrays); the model predicts the output of '
        'every line; non-trivial: at least 8 lines of at least 3 kinds; distinct by lines')
ASSUMPTIONS = ['addresses are not compared, only whether a pointer is null', 'integer results are representable in their C type']


def gen(d):
    s = Session(d)
    mode = d.weighted([(5, 'prompt'), (1, 'top'), (1, 'main'), (1, 'dot')])
    k = d.int(1, 10) if mode != 'prompt' else 0
    pre, lines = [], []
    for i in range(k):
        pre.append(s.line()[0])
    for i in range(d.weighted([(3, d.int(3, 12)), (3, d.int(10, 25)), (1, 35)])):
        lines.append(s.line())
        if i == 2 and d.chance(1, 8):
            lines += big(d, s)
    lines += s.dump()
    post = []
    if mode in ('top', 'main'):
        if 'printf' not in s.funcs:
            lines.append((s.PROTO['printf'], 'printf'))
        post = [(join(t), c.v) for t, p, c in s.lvalues(Cell)]
    return {'mode': mode, 'home': d.pick(['none', 'unset', '', '.', '/']) if d.chance(1, 6) else 'none', 'pre': pre, 'lines': [l for l, _ in lines], 'exp': [e for _, e in lines], 'kinds': sorted(s.kinds),
            'post': post, 'n': d.pick(['', '-2', '0', '1', '7', '60'])}


def cases():
    return case_strategy(gen)


def render(case):
    return '\n'.join(case['pre'] + ['-- at the prompt (%s):' % case['mode']] +
                     ['%-50s -> %r' % x for x in zip(case['lines'], case['exp'])])


def compare(lines, exps, got):
    rc, out, err = got
    head, res = transcript(out)
    for i, (l, e) in enumerate(zip(lines, exps)):
        if i >= len(res):
            raise Violation('the session ended before line %d: %s\n%s' % (i + 1, l, show(got)))
        o = norm(res[i][1])
        if o != norm(e):
            raise Violation('line %d: %s\n expected %r\n got      %r\n%s' % (i + 1, l, norm(e), o, show(got)[-900:]))
    return head, res


def check(env, case):
    e = {'BIC_VERIF_GC': case['n']} if case['n'] else {}
    text = ''.join(l + '\n' for l in case['lines'])
    if case['mode'] == 'prompt':
        if case['home'] == 'unset':
            # (the home directory of the user running the check has no startup file)
            if not os.path.exists(os.path.join(pwd.getpwuid(os.getuid()).pw_dir, '.bic')):
                e['HOME'] = None
        elif case['home'] != 'none':
            e['HOME'] = case['home']
        got = env.repl(text, env=e, timeout=60)
    elif case['mode'] == 'dot':
        env.write('home1/.bic', '\n'.join(case['pre']) + '\n')
        e['HOME'] = os.path.join(env.scratch, 'home1')
        got = env.repl(text, env=e, timeout=60)
    else:
        body = '\n'.join(case['pre']) + '\n<REPL>;\n'
        body += '\n'.join('printf("\\n=%%ld", (long)%s);' % t for t, v in case['post'])
        # printf must be known to the parser only, it is declared at the prompt
        src = ('int main() {\n%s\nreturn 3;\n}\n' if case['mode'] == 'main' else '%s\nreturn 3;\n') % body
        got = env.bic(src, stdin=text, env=e, timeout=60)
    if got[0] is None:
        return []
    head, res = compare(case['lines'], case['exp'], got)
    if case['mode'] in ('top', 'main'):
        want = ''.join('\n=%d' % (v - (1 << 64) if v >= 1 << 63 else v) for t, v in case['post'])
        tail = res[len(case['lines'])][1] if len(res) > len(case['lines']) else ''
        tail = got[1].decode('latin-1').rpartition('BIC> ')[2]
        if tail.strip('\n') != want.strip('\n') or got[0] != 3:
            raise Violation('after the prompt: expected %r and status 3, got %r and status %s' % (want, tail, got[0]))
    elif got[0] != 0 or len(res) != len(case['lines']) + 1 or got[2]:
        raise Violation('the session did not end normally: ' + show(got))
    return ['mode ' + case['mode']] + case['kinds'] if len(case['lines']) >= 8 and len(case['kinds']) >= 3 else []
