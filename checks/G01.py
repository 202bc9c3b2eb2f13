"""G01: garbage collection never changes what a program does.

Metamorphic: the same program runs without any collection, with one at every allocation, and with one at
every N-th allocation; output and exit status must be equal."""
import scale
import C02, C03, D01, E02, E04, F01, F03, L01, N01, R01, R02, R03, T01, T03
from cgen import *
from engine import Violation, show
from session import Session, norm, transcript

PROP = 'G01'
COUNTS = {'quick': 1300, 'thorough': 40000}
RULE = ('each case is a program of one of 11 generators (calls and recursion, scopes, sequencing, memory histories, '
        'literals, enums, types, external calls with libraries, callbacks, pending arguments and held strings) or a '
        'session at the prompt (also one a script opens, with headers of -I directories) or a dump, run '
        'without collections and with collections at every allocation, at a random small interval and, for a third of '
        'the cases, at the default interval; non-trivial: more than 60 expressions are evaluated (program text over '
        '700 bytes, or 14 lines at the prompt) so that hundreds of collections happen; distinct by text')
ASSUMPTIONS = ['the interval is set through the BIC_VERIF hook in gc.c; collections during start-up (the first 100 '
               'allocations) happen at the default interval']
NEVER = '1000000000'


def held(d):
    """Values that are only reachable through pending arguments, partial results or C memory."""
    n = d.int(1, 6)
    body = []
    fns = ['int id(int x) { return x; }', 'long sum(long a, long b, long c) { int t[3]; t[0] = a; t[1] = b; t[2] = c; '
           'return t[0] + t[1] + t[2]; }', 'char *pick(int k, char *a, char *b) { if (k) return a; return b; }',
           'struct nd { int v; char *s; struct nd *next; };',
           'struct nd *cons(int v, char *s, struct nd *n) { struct nd *r; r = malloc(sizeof(struct nd)); r->v = v; '
           'r->s = s; r->next = n; return r; }',
           'int len(struct nd *l) { if (!l) return 0; return 1 + len(l->next); }',
           'void work(int n) { int i; for (i = 0; i < n; i++) { char *t = "garbage"; int u = i * 3 + 1; u = u ^ i; } }',
           'int twice(int x) { work(2); return x + x; }', 'double dv(double a) { work(1); return a; }',
           'float fv(float a) { double t = a; work(2); return t; }',
           'int cmpf(const void *p, const void *q) { int *a; int *b; work(1); a = (int *)p; b = (int *)q; return *a - *b; }']
    depth = lambda k: 'id(%d)' % d.int(0, 9) if k <= 0 else d.pick(
        ['sum(%s, twice(%d), %s)' % (depth(k - 1), d.int(0, 9), depth(k - 2)), 'twice(%s)' % depth(k - 1),
         '(%s + %s * %d)' % (depth(k - 1), depth(k - 1), d.int(0, 3)),
         '(%s ? %s : %s)' % (depth(k - 2), depth(k - 1), depth(k - 2))])
    for i in range(n):
        k = d.int(0, 9)
        if k == 0:
            body.append('printf("%%ld\\n", (long)%s);' % depth(d.int(1, 3)))
        elif k == 1:
            body.append('printf("%%s %%s %%s %%d\\n", pick(%d, "a%d", "b"), pick(twice(0), "c", "d%d"), "e", twice(%d));'
                        % (d.int(0, 1), i, i, i))
        elif k == 2:
            body.append('{ struct nd *l; l = 0; int i; for (i = 0; i < %d; i++) l = cons(i, i %% 2 ? "odd" : "even", l); '
                        'work(%d); printf("%%d ", len(l)); while (l) { printf("%%s%%d ", l->s, l->v); l = l->next; } }'
                        % (d.int(1, 8), d.int(1, 20)))
        elif k == 3:
            body.append('{ int a[8]; int i; for (i = 0; i < 8; i++) { a[twice(i) / 2] = (i * 7) %% 5; } '
                        'qsort(a, 8, sizeof(int), &cmpf); for (i = 0; i < 8; i++) printf("%d ", a[i]); }'.replace('%%', '%'))
        elif k == 4:
            body.append('printf("%%f %%f %%f\\n", dv(%d.5), fv(%d.25), dv(twice(%d)));' % (d.int(0, 99), d.int(0, 99), d.int(0, 9)))
        elif k == 5:
            body.append('{ struct nd s; struct nd *p; p = &s; s.s = "kept"; p->v = twice(%d); work(%d); printf("%%s %%d\\n", '
                        'p->s, s.v); }' % (d.int(0, 9), d.int(1, 30)))
        elif k == 6:
            body.append('{ static int st%d = %d; int (*fp)(int); fp = &twice; work(5); st%d += fp(%d); printf("%%d %%d\\n", '
                        'st%d, fp(fp(2))); }' % (i, d.int(0, 9), i, d.int(0, 9), i))
        elif k == 7:
            body.append('{ char *t[3]; t[0] = "x"; t[1] = pick(0, "p", "q"); t[2] = "z"; work(%d); printf("%%s%%s%%s\\n", '
                        't[0], t[1], t[2]); }' % d.int(1, 20))
        elif k == 8:
            body.append('{ long v = %d; v += sum(twice(1), v, 3) * 2; v <<= id(2); v -= twice(v); printf("%%ld\\n", v); }'
                        % d.int(0, 99))
        else:
            body.append('for (int i = 0; i < %d; i++) { for (int j = i; j < 4; j++) { if (j == 3) break; int q = '
                        'twice(j); printf("%%d", q); } }' % d.int(1, 4))
    src = ('extern int printf(const char *f, ...);\nextern void *malloc(unsigned long n);\nextern void qsort(void *b, '
           'unsigned long n, unsigned long s, int (*c)(const void *, const void *));\n' + '\n'.join(fns) +
           '\nint main() {\n' + '\n'.join(body) + '\nwork(3); return %d; }\n' % d.int(0, 5))
    return {'src': src}


MODS = [C02, C03, E02, E04, F01, F03, L01, N01, T01, T03]


def prompt(d):
    """A session with headers of -I directories and libraries, much work between the lines."""
    s = Session(d)
    files, lines, opts = {}, [], []
    dirs = ['inc%d' % i for i in range(d.int(1, 3))]
    for x in dirs:
        opts += d.pick([['-I', x], ['-I' + x], ['-I', './' + x]])
    if d.bool():
        opts += d.pick([['-l', 'm'], ['-lm']])
        lines += ['extern double sqrt(double x);']
    later = []
    for i in range(d.int(1, 4)):
        h = ['#define M%d %d' % (i, d.int(1, 99)), 'enum e%d { A%d = M%d, B%d };' % (i, i, i, i),
             'typedef struct n%d { int v; struct n%d *next; } T%d;' % (i, i, i), 'extern int atoi(const char *s);',
             'typedef int (*cb%d)(int a, int b);' % i]
        if i and d.bool():
            h.insert(0, '#include <h%d.h>' % (i - 1))
        files['%s/h%d.h' % (d.pick(dirs), i)] = '\n'.join(h) + '\n'
        later.append(['#include <h%d.h>' % i] + ['B%d;' % i, 'T%d o%d;' % (i, i), 'o%d.v = A%d + atoi("%d");' % (i, i, d.int(0, 99)),
                           'o%d.v;' % i, 'B%d - A%d;' % (i, i)])
    pre = ['int printf(const char *f, ...);',
           'int work(int n) { int i; int a = 0; for (i = 0; i < n; i++) a = (a + i * 3) %% 1000; return a; }'.replace('%%', '%'),
           'int fib(int n) { if (n < 2) return n; return fib(n - 1) + fib(n - 2); }', 'int acc = 0;',
           'char *word(int n) { work(n); return "word"; }']
    mode = d.pick(['prompt', 'top', 'main'])
    src = None
    if mode == 'prompt':
        lines += [l for l in pre if '{' not in l]
    else:
        pre += ['work(%d);' % d.pick([5, 100, 1000])] * (mode == 'top')
        body = '<REPL>;\nprintf("%d\\n", work(9) + acc);\n'
        src = '\n'.join(pre) + '\n' + ('int main() {\nwork(%d);\n%sreturn 3;\n}\n' % (d.pick([5, 100]), body) if mode == 'main'
                                       else body + 'return 3;\n')
    for g in later:
        n = d.int(0, 3)
        for i, l in enumerate(g):
            for _ in range(d.int(0, 2)):
                if mode == 'prompt':
                    lines.append(s.line()[0])
                else:
                    lines.append(d.pick(['work(%d);' % d.pick([3, 50, 700]), 'acc = acc + work(%d);' % d.int(1, 9), 'fib(%d);' % d.int(1, 9),
                                         'word(%d);' % d.int(1, 20), 'acc;', '?acc', '?work', s.line()[0]]))
            lines.append(l)
    return {'src': src, 'lines': lines, 'files': files, 'opts': opts}


def gen(d):
    if d.chance(1, 25):
        c = scale.case(d, d.pick(['C02', 'C03', 'E02', 'F01', 'F03', 'L01', 'N01', 'T01', 'T03']))
        return {'src': c['src'], 'from': 'scale ' + c['f'][0], 'n': d.pick([5, 8, 13, 30, 100]), 'dflt': True, 'slow': True,
                **({'lib': c['lib']} if 'lib' in c else {})}
    k = d.int(-4, len(MODS) + 2)
    if k < 0:
        k = d.pick(['prompt', 'prompt', 'R01', 'R02', 'R03', 'D01'])
        if k == 'prompt':
            r = prompt(d)
        elif k == 'D01':
            c = D01.gen(d)
            r = {'src': c['src'], 'opts': ['-T'], 'lines': []}
        else:
            c = {'R01': R01, 'R02': R02, 'R03': R03}[k].gen(d)
            r = {'lines': c['lines'], 'src': c.get('src'), 'files': {'hh.h': c['hdr']} if c.get('hdr') else {}}
            if k == 'R01' and c['mode'] != 'prompt':
                r['src'] = ('int main() {\n%s\nreturn 3;\n}\n' if c['mode'] == 'main' else '%s\nreturn 3;\n') % (
                    '\n'.join(c['pre']) + '\n<REPL>;\n')
        r.update({'from': k, 'n': d.pick([0, 1, 2, 3, 5, 8, 13, 30]), 'dflt': d.chance(1, 3)})
        return r
    if k >= len(MODS):
        c, name = held(d), 'held'
    else:
        c, name = MODS[k].gen(d), MODS[k].PROP
    r = {'src': c['src'], 'from': name, 'n': d.pick([0, 1, 2, 3, 5, 8, 13, 30]), 'dflt': d.chance(1, 3)}
    if 'lib' in c:
        r['lib'] = c['lib']
    return r


def cases():
    return case_strategy(gen)


def render(case):
    if 'lines' in case:
        return '\n'.join(['/* %s */\n%s' % x for x in sorted(case.get('files', {}).items())] + [case['src'] or ''] +
                         ['-- at the prompt, options %s:' % case.get('opts')] + case['lines'])
    return ('/* library */\n%s\n/* script */\n' % case['lib'] if 'lib' in case else '') + case['src']


def observed(got, session):
    """What the run did, without the addresses that differ from one run to the next."""
    if not session:
        return got[:2]
    return [got[0], [norm(x) for _, x in transcript(got[1])[1]], got[2].count(b'\n')]


def check(env, case):
    if 'lines' in case:
        for n, t in sorted(case.get('files', {}).items()):
            env.write(n, t)
    opts = []
    if 'lib' in case:
        opts = ['-l', env.lib(case['lib'], 'libt')]
    opts += case.get('opts', [])
    session = 'lines' in case

    def run(n, timeout=30):
        kw = {'env': {'BIC_VERIF_GC': n} if n else None, 'timeout': timeout}
        if session:
            kw['stdin'] = ''.join(l + '\n' for l in case['lines'])
        if case['src'] is None:
            kw.pop('stdin')
            return env.repl(case['lines'], opts=opts, **kw)
        return env.bic(case['src'], opts=opts, **kw)
    ref = run(NEVER)
    for n in ([] if case.get('slow') else ['-2']) + [str(case['n'])] + ([None] if case['dflt'] else []):
        got = run(n, 60)
        if observed(got, session) != observed(ref, session):
            if ref[0] is None or got[0] is None and (case.get('slow') or len(case.get('lines', [])) > 120):
                # (long sessions take long)
                return []
            raise Violation('output depends on garbage collection\n without collections: %s\n with interval %s: %s'
                            % (show(ref), n, show(got)))
    return [case['from']] if len(case['src'] or '') + 50 * len(case.get('lines', [])) > 700 else []
