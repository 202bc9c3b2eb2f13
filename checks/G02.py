"""G02: the interpreter never touches memory it does not own.

Programs of all generators, dumps, inspected REPL sessions and programs of extreme size run in builds
instrumented with AddressSanitizer, with random timing of collections."""
import C01, C02, C03, E01, E02, E03, E04, F01, F02, F03, G01, L01, N01, T01, T02, T03
from cgen import *
from engine import Violation, show

PROP = 'G02'
COUNTS = {'quick': 1000, 'thorough': 24000}
VARIANTS = ['plain', 'asan', 'asanh']
RULE = ('each case is a program of one of 17 generators or an extreme one (thousands of live objects, scopes, string '
        'literals, parameters, members, long names and literals, deep nesting), run, dumped as text or as a graph, or '
        'entered at the prompt with every identifier inspected, under two AddressSanitizer builds (one with stack '
        'checking, one that also instruments the collector) and a random collection interval; non-trivial: the program '
        'text exceeds 500 bytes; distinct by text and mode')
ASSUMPTIONS = ['AddressSanitizer detects the accesses outside of live objects (not those inside padding of the same '
               'allocation); loaded libraries and libffi/gmp/readline are not instrumented']
MODS = [C01, C02, C03, E01, E02, E03, E04, F01, F02, F03, L01, N01, T01, T02, T03]
HEAD = 'extern int printf(const char *f, ...);\n'


def big(d):
    k = d.int(0, 9)
    n = d.pick([3, 40, 150, 600, 2000])
    if k == 0:
        return '\n'.join('int v%d = %d;' % (i, i) for i in range(n)) + '\nint main() { int s = 0; ' + \
            ' '.join('s += v%d;' % i for i in range(0, n, 7)) + ' printf("%d\\n", s); return 0; }\n', 'many variables'
    if k == 1:
        return 'int main() { ' + ' '.join('printf("%%s\\n", "string %d");' % i for i in range(min(n, 600))) + ' return 0; }\n', \
            'many strings'
    if k == 2:
        m = d.pick([3, 5, 40, 200])
        return 'struct s { ' + ' '.join('int m%d;' % i for i in range(m)) + ' };\nint main() { struct s a[%d]; ' % d.int(1, 9) + \
            'a[0].m%d = 5; printf("%%d\\n", a[0].m%d); return 0; }\n' % (m - 1, m - 1), 'many members'
    if k == 3:
        m = d.pick([10, 60, 300])
        return 'int main() { printf("%d\\n", ' + '(' * m + '1' + ' + 1)' * m + '); return 0; }\n', 'deep expression'
    if k == 4:
        m = d.pick([5, 30, 120])
        return 'int main() { int x = 0; ' + '{ int y = 1; ' * m + 'x = y; ' + '} ' * m + 'printf("%d\\n", x); return 0; }\n', \
            'deep blocks'
    if k == 5:
        s = 'n' * d.pick([10, 100, 1000, 9000])
        return 'int %s = 4;\nint main() { printf("%%d\\n", %s); return 0; }\n' % (s, s), 'long name'
    if k == 6:
        s = 'x' * d.pick([10, 300, 5000, 20000])
        return 'int main() { printf("%%s\\n", "%s"); return 0; }\n' % s, 'long string'
    if k == 7:
        m = d.pick([5, 50, 200])
        return 'int r(int n) { int a = n; int b[3]; b[1] = n; if (n <= 0) return 0; return r(n - 1) + b[1] - a + 1; }\n' \
            'int main() { printf("%%d\\n", r(%d)); return 0; }\n' % m, 'deep recursion'
    if k == 8:
        m = d.int(1, 31)
        return ('int f(%s) { return p0 + p%d; }\nint main() { printf("%%d\\n", f(%s)); printf("%s\\n"%s); return 0; }\n'
                % (', '.join('int p%d' % i for i in range(m)), m - 1, ', '.join(str(i) for i in range(m)),
                   '%d ' * (m - 1), ''.join(', %d' % i for i in range(m - 1)))), 'many parameters'
    m = d.int(1, 40)
    return ('enum e { %s };\nint main() { int i; for (i = 0; i < %d; i++) { char *s = "loop"; int z[4]; z[i %% 4] = E0; '
            'struct q { int a; char *p; } w; w.p = s; w.a = z[i %% 4]; } printf("%%d\\n", i); return 0; }\n'
            % (', '.join('E%d' % i for i in range(m)), n)), 'loop'


def gen(d):
    k = d.int(0, len(MODS) + 4)
    r = {}
    if k > len(MODS) + 1:
        src, name = big(d)
        src = HEAD + src
    elif k >= len(MODS):
        src, name = G01.held(d)['src'], 'held'
    else:
        c = MODS[k].gen(d)
        src, name = c['src'], MODS[k].PROP
        if 'lib' in c:
            r['lib'] = c['lib']
    r.update({'src': src, 'from': name, 'n': d.pick(['-2', '0', '1', '3', '10', '60', '']),
              'v': d.pick(['asan', 'asanh']), 'mode': d.weighted([(6, 'run'), (1, '-T'), (1, '-D'), (2, 'repl')])})
    return r


def cases():
    return case_strategy(gen)


def render(case):
    return ('/* library */\n%s\n/* script */\n' % case['lib'] if 'lib' in case else '') + case['src']


def repl_lines(src):
    """The declarations at file level, one per line, and inspections of all names."""
    import re
    lines, cur, depth = [], '', 0
    body = src.split('int main(')[0]
    for l in body.split('\n'):
        cur += ' ' + l.strip()
        depth = cur.count('{') - cur.count('}')
        if depth == 0 and cur.rstrip().endswith((';', '}')):
            c = cur.strip()
            # the prompt takes declarations without bodies
            if c.endswith(';') and not re.search(r'\)\s*\{', c) and c.count(';') == 1 + (c.count(';') - 1 if '{' in c else 0):
                lines.append(c)
            cur = ''
    names = list(dict.fromkeys(re.findall(r'[A-Za-z_]\w*', ' '.join(lines))))
    vars_ = [n for n in names if n not in KEYWORDS]
    for n in vars_[:60]:
        lines.append('?' + n)
    for n in vars_[:20]:
        if not n.startswith(('printf', 'puts', 'exit', 'strlen', 'str')):
            lines.append(n + ';')
    return lines


KEYWORDS = {'extern', 'int', 'const', 'char', 'struct', 'union', 'enum', 'typedef', 'static', 'long', 'short', 'unsigned',
            'signed', 'float', 'double', 'void', 'volatile', 'register', 'auto', 'sizeof'}


def check(env, case):
    opts = []
    if 'lib' in case:
        opts = ['-l', env.lib(case['lib'], 'libt')]
    e = {'BIC_VERIF_GC': case['n']} if case['n'] else {}
    mode = case['mode']
    if mode == 'repl':
        got = env.repl(repl_lines(case['src']), opts=opts, variant=case['v'], env=e, timeout=60)
    else:
        o = {'run': [], '-T': ['-T'], '-D': ['-T', '-D']}[mode]
        got = env.bic(case['src'], opts=opts + o, variant=case['v'], env=e, timeout=60)
    if got[0] is None:
        return []
    if got[0] == 99 or got[0] < 0 or b'AddressSanitizer' in got[2]:
        raise Violation('invalid memory access (%s, interval %s, build %s): exit=%s\n%s'
                        % (mode, case['n'] or 'default', case['v'], got[0], got[2][:3000].decode('latin-1')))
    return [case['from'], 'mode ' + mode] if len(case['src']) > 500 else []
