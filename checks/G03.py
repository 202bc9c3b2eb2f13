"""G03: unreachable objects are reclaimed, so loops and calls run in bounded memory.

Metamorphic: a generated body is repeated N and 10 N times (and 20 N times, if in doubt); the peak resident
memory must not grow with the number of repetitions."""
import os, subprocess, time
from cgen import *
from engine import Violation, Invalid, show

PROP = 'G03'
COUNTS = {'quick': 200, 'thorough': 4000}
RULE = ('each case is a body of 1 to 6 generated statements (declarations of every kind of type, strings, literals, calls, '
        'recursion, external calls, callbacks, function pointers, nested loops left by break or return, all expression '
        'operators) placed in one of 7 repeating frames, run N and 10 N times with N between 200 and 3000; the peak '
        'of the heap may differ by at most 40 kB plus 1 byte per repetition and the resident size by 500 kB plus 2 bytes; a growth is only reported if 20 N repetitions grow further; '
        'non-trivial: the body has 2 statements or more and both runs end normally; distinct by text')
ASSUMPTIONS = ['a leak of fewer than 6 bytes per repetition may not be noticed']

PRE = r'''extern int printf(const char *f, ...);
extern int snprintf(char *b, unsigned long n, const char *f, ...);
extern int puts(const char *s);
extern int abs(int x);
extern unsigned long strlen(const char *s);
extern char *strchr(const char *s, int c);
extern long atol(const char *s);
extern double atof(const char *s);
extern void *malloc(unsigned long n);
extern void free(void *p);
extern void qsort(void *b, unsigned long n, unsigned long s, int (*c)(const void *, const void *));
extern int apply(int (*f)(int), int n);
extern int shared;
enum col { RED, GREEN = 5, BLUE };
typedef unsigned short us;
struct in { int z; char c; };
struct S { int a; char *s; double d; struct in i; int arr[3]; int (*f)(int); };
union U { int a; double d; char c[8]; };
int gl;
long gv;
int garr[4];
char buf[80];
char *gs;
struct S gst;
int cmp(const void *a, const void *b) { int *x; int *y; x = (int *)a; y = (int *)b; return *x - *y; }
int inc(int a) { int l = a; { int q = l; return q + 1; } }
int first(int n) { for (int i = 0; i < 5; i++) { int z = i; while (1) { if (z == n) return z; break; } } return -1; }
int rec(int n) { int here[2]; here[0] = n; if (n <= 0) return 0; return rec(n - 1) + here[0]; }
char *pick(int a) { if (a) return "one"; return "two"; }
double dv(double x) { double y = x; return y; }
float fv(float x) { return x; }
void nothing(void) { int x = 1; if (x) return; x = 2; }
int many(int a, long b, char c, char *s, double d, struct S *p) { p->a = a; p->s = s; return a + b + c; }
int stat(void) { static int st = 3; static char *sp = "st"; st ^= 1; return st; }
'''
LIB = '''int shared;
int apply(int (*f)(int), int n) { int r = 0, i; for (i = 0; i < n; i++) r += f(i); return r; }
'''


def iexpr(d, k):
    if k <= 0:
        return d.pick(['i', 'gl', '7', '0x1f', "'c'", 'garr[i % 4]', 'GREEN', 'gst.a', 'gst.i.z', '123456789'])
    e = lambda: iexpr(d, k - 1)
    c = d.int(0, 17)
    if c < 5:
        return '(%s %s %s)' % (e(), d.pick(['+', '-', '&', '|', '^', '<', '>=', '==', '!=']), e())
    if c < 7:
        return '(%s %s %s)' % (e(), d.pick(['&&', '||', ',']), e())
    return [lambda: '(%s ? %s : %s)' % (e(), e(), e()), lambda: '(%s)(%s)' % (d.pick(['char', 'long', 'us', 'unsigned char']), e()),
            lambda: '%s(%s)' % (d.pick(['inc', 'abs', 'first']), e()), lambda: 'rec(%d)' % d.int(0, 6),
            lambda: '(int)strlen(pick(%s))' % e(), lambda: 'stat()', lambda: '%s(%s)' % (d.pick(['!', '~', '-']), e()),
            lambda: '(int)sizeof(%s)' % d.pick(['int', 'struct S', 'gst', 'gst.i', 'char *', 'us', 'union U', 'gs']),
            lambda: 'many(%s, i, %s, "str", 1.5, &gst)' % (e(), "'x'"), lambda: '((%s) %% 7)' % e(),
            lambda: '((%s) & 15) << 2' % e()][c - 7]()


def ex(d):
    return iexpr(d, d.int(0, 3))


def assign(d):
    return [lambda: 'gl = %s;' % ex(d), lambda: 'gl += %s;' % ex(d), lambda: 'gv ^= %s;' % ex(d), lambda: 'gl++;',
            lambda: 'gv = (long)gl-- ;', lambda: 'garr[i %% 4] = %s;' % ex(d), lambda: 'gst.a = %s;' % ex(d),
            lambda: 'gst.i.z -= %s;' % ex(d), lambda: 'gst.arr[i %% 3] = %s;' % ex(d), lambda: 'gst.d = dv(%d.25);' % d.int(0, 9),
            lambda: 'gs = pick(i % 2);', lambda: 'gs = "literal %d";' % d.int(0, 9), lambda: 'shared = %s;' % ex(d),
            lambda: 'buf[i %% 80] = %s;' % ex(d), lambda: 'gv <<= 1;', lambda: 'gl /= 3;', lambda: 'gl = shared;'][d.int(0, 16)]()


class Body:
    def __init__(self, d):
        self.d, self.k, self.f = d, 0, set()

    def n(self, p='v'):
        self.k += 1
        return '%s%d' % (p, self.k)

    def decl(self):
        d, v = self.d, self.n()
        c = d.int(0, 14)
        self.f.add('declarations')
        return [lambda: 'int %s = %s;' % (v, ex(d)), lambda: '%s %s = %s; %s++;' % (d.pick(['char', 'long', 'us', 'unsigned']), v, ex(d), v),
                lambda: 'double %s = %d.5; gst.d = %s;' % (v, d.int(0, 9), v), lambda: 'float %s = fv(1.25);' % v,
                lambda: 'char *%s = "text of %s"; gl = (int)strlen(%s);' % (v, v, v),
                lambda: 'int %s[%d]; %s[0] = %s;' % (v, d.pick([1, 5, 100]), v, ex(d)),
                lambda: 'char *%s[3]; %s[1] = "x"; %s[2] = %s[1];' % (v, v, v, v),
                lambda: 'struct S %s; %s.a = %s; %s.i.z = 2; %s.arr[1] = 3; %s.s = "m";' % (v, v, ex(d), v, v, v),
                lambda: 'struct L%s { int a; struct L%s *n; } %s; %s.n = &%s; %s.n->a = 1;' % (v, v, v, v, v, v),
                lambda: 'union U %s; %s.d = 1.5; gl = %s.a;' % (v, v, v),
                lambda: 'typedef long %s_t; %s_t %s; %s = i;' % (v, v, v, v),
                lambda: 'enum { %sA, %sB = 7 } %s; %s = %sB;' % (v, v, v, v, v),
                lambda: 'int *%s; %s = &gl; *%s = i; int **%sp; %sp = &%s; **%sp = 3;' % ((v,) * 7),
                lambda: 'static int %s = 4; %s ^= i;' % (v, v),
                lambda: 'int (*%s)(int); %s = &inc; gl = %s(%s);' % (v, v, v, ex(d))][c]()

    def call(self):
        d = self.d
        self.f.add('calls')
        return [lambda: 'snprintf(buf, 80, "%%d %%s %%f", %s, "abc", 1.5);' % ex(d), lambda: 'abs(%s);' % ex(d),
                lambda: 'garr[0] = i; garr[1] = 1; garr[2] = %s; qsort(garr, 4, sizeof(int), &cmp);' % ex(d),
                lambda: 'gl = apply(&inc, %d);' % d.int(0, 4), lambda: 'gst.f = &first; gl = gst.f(2);',
                lambda: 'nothing();', lambda: 'inc(%s);' % ex(d), lambda: 'gl = rec(%d);' % d.int(0, 9),
                lambda: '{ char *m; m = malloc(%d); m[1] = 3; free(m); }' % d.pick([8, 100, 3000]), lambda: 'dv(atof("2.5"));',
                lambda: 'gv = atol("%d");' % d.int(0, 99), lambda: 'strchr("haystack", %s);' % "'s'",
                lambda: 'many(i, %s, 1, pick(1), dv(2.5), &gst);' % ex(d), lambda: 'stat();',
                lambda: 'gs = pick(first(i % 5));'][d.int(0, 14)]()

    def stmt(self, k):
        d = self.d
        c = d.int(0, 11)
        if k <= 0 or c < 5:
            return [lambda: assign(d), self.decl, self.call][d.pick([0, 0, 1, 1, 1, 2, 2])]()
        if c == 5:
            self.f.add('nested blocks')
            return '{ %s }' % self.stmts(k - 1)
        if c == 6:
            return 'if (%s) { %s } else { %s }' % (ex(d), self.stmts(k - 1), self.stmts(k - 1))
        self.f.add('nested loops')
        v = self.n('l')
        m = d.int(1, 4)
        brk = ''
        if d.chance(1, 2):
            self.f.add('break')
            brk = d.pick(['if (%s == %d) break;', 'if (%s == %d) { int t = 1; { break; } }', '{ if (%s >= %d) break; else { } }']) % (v, d.int(0, 3))
        elif d.chance(1, 3):
            brk = 'if (%s == %d) return %s;' % (v, d.int(0, 4), ex(d))
            self.f.add('return')
        body = self.stmts(k - 1)
        a, b = (brk, body) if d.bool() else (body, brk)
        if c < 9:
            return 'for (int %s = 0; %s < %d; %s++) { %s %s }' % (v, v, m, v, a, b)
        if c < 11:
            return 'int %s; for (%s = 0; %s < %d; %s++) { %s %s }' % (v, v, v, m, v, a, b)
        return 'int %s = -1; while (%s < %d) { %s++; %s %s }' % (v, v, m, v, a, b)

    def stmts(self, k):
        return ' '.join(self.stmt(k) for _ in range(self.d.int(1, 2)))


FRAMES = ['body(i) called in a for loop', 'for loop', 'while loop', 'callback', 'nested loops', 'mutual calls', 'through pointer']


def gen(d):
    b = Body(d)
    fr = d.int(0, 6)
    body = '\n    '.join(b.stmt(2) for _ in range(d.int(1, 6)))
    inline = fr in (1, 2, 4) and 'return' not in b.f
    fn = 'int body(int i) {\n    %s\n    return i;\n}\n' % body
    loop = {1: 'for (int i = 0; i < N; i++) {\n    %s\n}' % body, 2: 'int i = 0;\nwhile (i < N) {\n    %s\n    i++;\n}' % body,
            4: 'int i; for (i = 0; i < N / 50; i++) { for (int j = 0; j < 50; j++) {\n    %s\n} }' % body}
    if inline:
        main, fn = loop[fr], ''
    elif fr == 3:
        main = 'apply(&body, N);'
    elif fr == 5:
        fn += 'int pong(int i);\nint ping(int i) { body(i); if (i % 3) return pong(i); return 1; }\n' \
              'int pong(int i) { int r = ping(0); return body(r); }\n'
        main = 'for (int k = 0; k < N; k++) ping(k);'
    elif fr == 6:
        main = 'int (*p)(int); p = &body; int k = 0; while (k < N) { p(k); k++; }'
    else:
        main = 'for (int k = 0; k < N; k++) body(k);'
    return {'src': PRE + fn + 'int main() {\n' + main + '\nputs("end");\nreturn 0;\n}\n',
            'f': sorted(b.f) + ['frame ' + FRAMES[fr if not inline or fr else 1]], 'n': body.count(';')}


def cases():
    return case_strategy(gen)


def render(case):
    return case['src']


def setup(env):
    env.preload = os.path.join(env.root, 'peak.so')
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    subprocess.check_call(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', env.preload, os.path.join(here, 'lib', 'peak.c')])
    env.lib(LIB, 'libt')
    env.libt = os.path.join(env.scratch, 'libt.so')


START = 'VERIF_PEAK_PID=$$; LD_PRELOAD=$0; export VERIF_PEAK_PID LD_PRELOAD; exec "$@"'


def peak(env, case, n):
    """(peak bytes on the heap, peak resident bytes), seconds"""
    env.write('t.c', case['src'].replace('N', str(n)).replace('GREE%d' % n, 'GREEN'))
    t = time.time()
    out = os.path.join(env.scratch, 'peak.txt')
    if os.path.exists(out):
        os.unlink(out)
    r = env.run(['/bin/sh', '-c', START, env.preload, env.bins['plain'], '-l', env.libt, '-s', 't.c'], timeout=60,
                env={'MALLOC_PERTURB_': '0', 'VERIF_PEAK': out})
    if r[0] is None:
        raise Invalid('slow')
    if r[0] != 0 or r[1] != b'end\n':
        raise Invalid(show(r))
    heap, rss = open(out).read().split()
    return (int(heap), int(rss) << 10), time.time() - t


def check(env, case):
    _, t = peak(env, case, 200)
    n = int(max(200, min(3000, 200 * 0.06 / max(t - 0.012, 0.0005))))
    a, _ = peak(env, case, n)
    b, _ = peak(env, case, n * 10)
    c = None
    for i, slack in enumerate([40000 + n * 9, 500000 + n * 9 * 2]):
        if b[i] - a[i] > slack:
            c = c or peak(env, case, n * 20)[0]
            a2, _ = peak(env, case, n)
            if c[i] - b[i] > slack / 2 and b[i] - a2[i] > slack:
                raise Violation('memory grows with the number of repetitions: %d bytes after %d, %d bytes after %d, %d bytes after '
                                '%d (%s)' % (a2[i], n, b[i], n * 10, c[i], n * 20, ['heap', 'resident'][i]))
    if os.environ.get('VERIF_STAT'):
        print('STAT', n, b[0] - a[0], b[1] - a[1])
    return case['f'] if case['n'] >= 2 else []
