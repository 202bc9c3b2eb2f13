"""R05: headers can be included at the prompt at any time, in any order."""
import os, subprocess
from session import *
from engine import Violation, show
from R01 import compare

PROP = 'R05'
COUNTS = {'quick': 360, 'thorough': 6000}
RULE = ('each case is a session with 1 to 9 #include <...> lines of generated headers (in up to 3 -I directories and subdirectories, '
        'including each other, with guards, comments, pragmas, conditionals on what was included before; object-like, function-like '
        'and type macros, typedefs, enumerations, compounds, external functions and variables of a generated library, function '
        'definitions) and of system headers, repeated and in any order, between ordinary lines that use what any header or any '
        'line before provides; partly with a ~/.bic that declares objects and functions and includes headers; the model predicts '
        'the output of every line; the session ends with the echo of every object; non-trivial: at least 2 includes and 3 uses '
        'of what a header provides; distinct by session')
ASSUMPTIONS = ['macros expand to the supported language (no literal suffixes)', 'headers define no objects',
               'values of the system headers are taken from the system compiler']

# what system headers provide: (header, [expressions])
SYS = [('stdlib.h', ['atoi("42")', 'abs(-7)', 'EXIT_FAILURE', 'strtol("123", 0, 10)', 'sizeof(size_t)', 'sizeof(div_t)', 'RAND_MAX']),
       ('string.h', ['strlen("hello")', 'strcmp("a", "a")', 'memcmp("abc", "abd", 2)', 'strspn("aab", "a")']),
       ('ctype.h', ['toupper(97)', 'tolower(65)', 'isdigit(65) == 0', 'isupper(65) != 0']),
       ('limits.h', ['INT_MAX', 'CHAR_BIT', 'SHRT_MAX', 'INT_MIN', 'SCHAR_MIN', 'UCHAR_MAX']),
       ('stdint.h', ['sizeof(uint16_t)', 'sizeof(int64_t)', 'INT16_MAX', 'UINT8_MAX', '(int8_t)200', '(uint16_t)65537']),
       ('stddef.h', ['sizeof(ptrdiff_t)', 'sizeof(size_t)', 'sizeof(max_align_t)']),
       ('errno.h', ['EINVAL', 'ENOENT', 'ERANGE + 1']),
       ('stdio.h', ['EOF', 'SEEK_END', 'BUFSIZ', 'putchar(65)', 'puts("x")', 'sizeof(FILE *)', 'printf("%d,%s\\n", 5, "q")']),
       ('fcntl.h', ['O_RDWR', 'O_CREAT', 'F_GETFL']), ('unistd.h', ['STDERR_FILENO', 'R_OK', 'getpid() > 0']),
       ('time.h', ['sizeof(struct tm)', 'sizeof(time_t)', 'sizeof(struct timespec)', 'time(0) > 1000']),
       ('sys/stat.h', ['sizeof(struct stat)', 'S_IRUSR', 'S_IFDIR']), ('sys/types.h', ['sizeof(pid_t)', 'sizeof(off_t)', 'sizeof(u_int8_t)']),
       ('stdbool.h', ['true', 'false', 'true + true']), ('signal.h', ['SIGTERM', 'SIGKILL', 'sizeof(sigset_t)', 'SA_RESTART']),
       ('math.h', ['FP_NAN', 'FP_NORMAL']), ('assert.h', ['1']), ('iso646.h', ['1 and 0', 'not 5', '6 bitor 1']),
       ('locale.h', ['LC_ALL', 'sizeof(struct lconv)']), ('sys/time.h', ['sizeof(struct timeval)', 'ITIMER_REAL']),
       ('sys/socket.h', ['AF_INET', 'SOCK_STREAM', 'sizeof(struct sockaddr)']), ('netinet/in.h', ['sizeof(struct sockaddr_in)', 'IPPROTO_TCP']),
       ('poll.h', ['POLLIN', 'sizeof(struct pollfd)']), ('sys/wait.h', ['WNOHANG']), ('dirent.h', ['DT_DIR', 'sizeof(struct dirent)']),
       ('regex.h', ['REG_EXTENDED', 'sizeof(regmatch_t)']), ('pthread.h', ['sizeof(pthread_mutex_t)', 'PTHREAD_CREATE_DETACHED']),
       ('setjmp.h', ['sizeof(jmp_buf)']), ('dlfcn.h', ['RTLD_LAZY']), ('asm-generic/errno-base.h', ['EPERM', 'EIO']), ('float.h', ['DBL_DIG'])]
VALUES = {}


def setup(env):
    """The reference values."""
    for h, es in SYS:
        env.write('sv.c', '#include <%s>\n#include <stdio.h>\n#include <unistd.h>\nint main() { int o = dup(1); FILE *f = fdopen(o, "w"); '
                  'freopen("/dev/null", "w", stdout);\n%s return 0; }\n'
                  % (h, '\n'.join('fprintf(f, "%%ld\\n", (long)(%s));' % e for e in es)))
        subprocess.check_call(['gcc', '-w', '-o', 'sv', 'sv.c'], cwd=env.scratch)
        for e, v in zip(es, subprocess.check_output(['./sv'], cwd=env.scratch).decode().split()):
            VALUES[h, e] = int(v)


class S5(Session):
    def __init__(self, d):
        super().__init__(d)
        self.hfuncs = {}      # name -> (arity, function)
        self.where = {}
        self.sys = []
        self.used = 0

    def small(self):
        d = self.d
        cells = [(t, p, c) for t, p, c in self.lvalues(Cell) if -500 <= c.v <= 500]
        if cells and d.bool():
            t, p, c = d.pick(cells)
            return join(t), c.v
        if self.consts and d.bool():
            n = d.pick(list(self.consts))
            if -500 <= self.consts[n] <= 500:
                return n, self.consts[n]
        v = d.int(0, 300)
        return str(v), v

    def ex_hfunc(self):
        d = self.d
        if not self.hfuncs:
            return self.ex_int()
        n = d.pick(list(self.hfuncs))
        k, f = self.hfuncs[n]
        a = [self.small() for _ in range(k)]
        self.used += 1
        self.kinds.add('call of a function of a header')
        if d.chance(1, 4):
            x, xv = self.small()
            return '%s + %s(%s);' % (x, n, ', '.join(t for t, v in a)), '%d' % (xv + f(*[v for t, v in a]))
        return '%s(%s);' % (n, ', '.join(t for t, v in a)), '%d' % f(*[v for t, v in a])

    def typed(self):
        """A declaration with a type of the prompt or of a header; or a new type of the prompt."""
        d = self.d
        n = self.name()
        if not self.typedefs or d.chance(1, 3):
            t = d.pick(INTS)
            self.typedefs[n] = t
            self.kinds.add('typedef')
            return 'typedef %s %s;' % (t.name, n), n
        x = d.pick(list(self.typedefs))
        t = self.typedefs[x]
        v = max(t.lo + 1, value(d, t))
        self.kinds.add('use of a typedef')
        k = d.int(0, 3)
        if k == 0:
            self.vars[n] = Cell(t, v)
            return '%s %s = %s;' % (x, n, literal(d, v).text), n
        if k == 1:
            return 'sizeof(%s);' % x, '%d' % t.size
        if k == 2:
            return '(%s)%d;' % (x, v % 100), '%d' % (v % 100)
        self.vars[n] = Opq('pointer to a ' + DESC[t], 8, '(nil)')
        if t is CHAR:
            self.vars[n].text = '(nil)'
        return '%s *%s;' % (x, n), n

    def ex_sys(self):
        if not self.sys:
            return self.ex_int()
        h, es = self.d.pick(self.sys)
        e = self.d.pick(es)
        self.used += 1
        self.kinds.add('use of a system header')
        v = VALUES.get((h, e), 0)
        pre = {'putchar(65)': 'A', 'puts("x")': 'x\n', 'printf("%d,%s\\n", 5, "q")': '5,q\n'}.get(e, '')
        return e + ';', pre + '%d' % v

    def ex_inspect(self):
        names = [n for n in self.where if n in self.hfuncs or n in self.vars]
        if not names:
            return self.ex_int()
        n = self.d.pick(names)
        self.kinds.add('inspection')
        if n in self.hfuncs:
            return '?' + n, '%s is a %sunction.\n%s was declared at: %s' % (n, 'External f' if not n.endswith('def') else 'F', n, self.where[n])
        return '?' + n, inspection(n, self.vars[n], self.where[n])

    def line(self):
        d = self.d
        k = d.int(0, 9)
        if k <= 1:
            return self.ex_hfunc()
        if k <= 3:
            return self.ex_sys()
        if k == 4 and d.bool():
            return self.ex_inspect()
        if k == 5 and d.bool():
            return self.typed()
        return super().line()


class Header:
    def __init__(self, d, i, s, earlier, lib, dirs):
        """Generates the text; what it provides are functions to apply to the session when it's included."""
        self.i = i
        self.dir = d.pick(dirs)
        self.name = d.pick(['h%d.h', 'sub/h%d.h', 'h_%d.h', 'h-%d.h', 'a/b/h%d.h', 'H%d.hpp', 'h%d', 'h+%d.h']) % i
        self.path = self.dir + '/' + self.name
        self.effects = []
        self.includes = []
        L = []
        P = 'h%d_' % i
        guard = 'GUARD_%d' % i
        self.guard = guard
        if d.bool():
            L += ['/* header %d' % i, ' * of the test */', '']
        self.once = d.chance(1, 5)
        L += ['#pragma once'] if self.once else ['#ifndef ' + guard, '#define ' + guard]
        if self.once:
            L.append('#define ' + guard)
        if d.chance(1, 6):
            L.append('#pragma STDC something "else"')
        for _ in range(d.int(1, 6)):
            self.item(d, L, P + str(len(L)), lib, earlier)
            L += d.pick([[], [], [''], ['// a comment'], ['/* two', 'lines */'], ['#if 0', 'not C @ $', '#endif']])
        if not self.once:
            L.append('#endif')
        self.text = '\n'.join(L) + '\n'

    def item(self, d, L, p, lib, earlier):
        k = d.int(0, 11)
        E = self.effects.append
        if k == 0:
            v = d.int(-100, 1000)
            n = 'K' + p
            L.append('#define %s %s' % (n, d.pick(['%d', '(%d)', '(%d + 0)', '\\\n  (%d)']) % v if v >= 0 else '(%d)' % v))
            E(lambda s: s.consts.__setitem__(n, v))
        elif k == 1:
            c = d.int(0, 50)
            n = 'F' + p
            body, f, k2 = d.pick([('((a) + (b) * %d)', lambda a, b: a + b * c, 2), ('((a) > (b) ? (a) : (b) + %d)', lambda a, b: a if a > b else b + c, 2),
                                  ('((x) - %d)', lambda x: x - c, 1), ('(%d)', lambda: c, 0)])
            L.append('#define %s(%s) %s' % (n, ['', 'x', 'a, b'][k2], body % c))
            E(lambda s: s.hfuncs.__setitem__(n, (k2, f)))
        elif k == 2:
            t = d.pick(INTS)
            n = 'T' + p
            L.append('#define %s %s' % (n, t.name))
            E(lambda s: s.typedefs.__setitem__(n, t))
        elif k == 3:
            t = d.pick(INTS)
            n = 't' + p
            L.append('typedef %s %s;' % (t.name, n))
            if d.bool():
                L.append('typedef %s %s_2;' % (n, n))
                E(lambda s: s.typedefs.__setitem__(n + '_2', t))
            E(lambda s: s.typedefs.__setitem__(n, t))
        elif k == 4:
            v, parts, vals = -1, [], {}
            for j in range(d.int(1, 4)):
                v += 1
                nm = 'E%s_%d' % (p, j)
                if d.chance(1, 3):
                    v = d.int(-20, 50)
                    parts.append('%s = %d' % (nm, v))
                else:
                    parts.append(nm)
                vals[nm] = v
            L += ['enum %s{' % ('e%s ' % p if d.bool() else '')] + [x + ',' for x in parts[:-1]] + [parts[-1], '};']
            E(lambda s: s.consts.update(vals))
        elif k in (5, 6):
            mem, text = [], []
            for j in range(d.int(1, 4)):
                mn = 'm%d' % j
                z = d.int(0, 5)
                if z <= 2:
                    t = d.pick(INTS)
                    mem.append((mn, 'int', t)); text.append('%s %s;' % (t.name, mn))
                elif z == 3:
                    mem.append((mn, 'str', None)); text.append('char *%s;' % mn)
                elif z == 4:
                    t, n = d.pick([INT, SHORT, LONG]), d.int(1, 3)
                    mem.append((mn, 'arr', (t, n))); text.append('%s %s[%d];' % (t.name, mn, n))
                else:
                    mem.append((mn, 'dbl', 'double')); text.append('double %s;' % mn)
            st = SType('struct s' + p, mem)
            if d.bool():
                L.append('struct s%s {' % p)
            else:
                st.spec = 'st' + p
                L.append('typedef struct s%s {' % p)
            L.extend('  ' + x for x in text)
            L.append('};' if st.spec.startswith('struct') else '} %s;' % st.spec)
            E(lambda s: s.stypes.append(st))
        elif k in (7, 8):
            c = d.int(0, 99)
            n = 'f' + p
            lib.append('int %s(int a, int b) { return a * 3 - b + %d; }' % (n, c))
            L.append(d.pick(['extern int %s(int a, int b);', 'int %s(int, int);', 'extern int %s (int __a, int __b) __attribute__ ((__nothrow__));'
                             ]).replace('int %s', 'int %s') % n if d.bool() else 'extern int %s(int a,\n  int b);' % n)
            line = len('\n'.join(L).split('\n')) - L[-1].count('\n')
            if L[-1].startswith('extern'):
                E(lambda s: s.where.__setitem__(n, '%s:%d' % (self.path, line)))
            E(lambda s: s.hfuncs.__setitem__(n, (2, lambda a, b: a * 3 - b + c)))
        elif k == 9:
            t = d.pick(INTS)
            n = 'v' + p
            v = d.int(0, 100)
            lib.append('%s %s = %d;' % (t.name, n, v))
            L.append('extern %s %s;' % (t.name, n))
            line = len('\n'.join(L).split('\n'))

            def eff(s):
                s.vars[n] = Cell(t, v)
                s.where[n] = '%s:%d' % (self.path, line)
            E(eff)
        elif k == 10:
            c = d.int(0, 99)
            n = 'g' + p + 'def'
            L += [d.pick(['static int %s(int a)', 'int %s(int a)', 'static inline int %s(int a)', 'extern inline int %s(int a)']) % n,
                  '{', '  if (a > %d)' % c, '    return a - 1;', '  return a + %d;' % c, '}']
            E(lambda s: s.hfuncs.__setitem__(n, (1, lambda a: a - 1 if a > c else a + c)))
        elif earlier:
            h = d.pick(earlier)
            if d.bool():
                # what's provided depends on whether the other header was included before
                n = 'C' + p
                L += [d.pick(['#ifdef %s', '#if defined(%s)', '#if defined %s && 1']) % h.guard, '#define %s 1' % n, '#else', '#define %s 2' % n, '#endif']
                self.effects.append(lambda s: s.consts.__setitem__(n, 1 if h in s.included else 2))
            else:
                L.append('#include <%s>' % h.name)
                self.effects.append(lambda s: include(s, h))


def include(s, h):
    if h in s.included:
        return
    s.included.append(h)
    for e in h.effects:
        e(s)


def gen(d):
    s = S5(d)
    s.included = []
    lib, hs = [], []
    dirs = [d.pick(['inc%d', 'inc%d', 'i/%d/dir', 'long' * d.pick([8, 16, 20, 50]) + '%d', './d%d', 'inc-%d+x', 'with space %d', "quote's%d",
                    'semi;%d', 'dollar$%d', 'star*%d']) % i for i in range(d.int(1, 3))]
    for i in range(d.int(1, 4)):
        hs.append(Header(d, i, s, list(hs), lib, dirs))
    lines = []
    kinds = s.kinds
    ninc = 0

    def inc():
        nonlocal ninc
        ninc += 1
        if d.int(0, 2):
            h = d.pick(hs)
            if h in s.included:
                kinds.add('repeated include')
            include(s, h)
            return d.pick(['#include <%s>', '#include <%s>', '#include<%s>', ' #include <%s>', '#include   <%s>']) % h.name, ''
        sh = d.pick(SYS[:12] if d.bool() else SYS)
        kinds.add('system header')
        if sh not in s.sys:
            s.sys.append(sh)
        return '#include <%s>' % sh[0], ''

    home = None
    if d.chance(1, 3):
        kinds.add('startup file')
        H = []
        for i in range(d.int(0, 6)):
            k = d.int(0, 5)
            if k == 0:
                c = d.int(1, 9)
                n = s.name()
                H += ['int %s(int a) {' % n, '    static int calls;', '    calls++;', '    return a * %d;' % c, '}']
                s.hfuncs[n] = (1, lambda a, c=c: a * c)
            elif k == 1:
                H.append('// a comment')
            elif k == 2 and [h for h in hs if h.dir == dirs[0]]:
                # (the -I directories hold for the prompt only)
                H.append('/* %d */' % i)
            else:
                H.append([s.decl_int, s.decl_str, s.decl_struct][k - 3]()[0])
        home = '\n'.join(H) + '\n'
    cut = d.weighted([(3, d.int(1, 6)), (2, d.int(5, 15)), (1, 25)])
    for i in range(cut):
        if d.int(0, 3) == 0 or i == 0:
            lines.append(inc())
        lines.append(s.line())
    lines += s.dump()
    return {'headers': {h.path: h.text for h in hs}, 'dirs': dirs, 'join': d.bool(), 'lib': '\n'.join(lib), 'home': home,
            'lines': [l for l, _ in lines], 'exp': [e for _, e in lines], 'kinds': sorted(kinds), 'inc': ninc, 'used': s.used,
            'gc': d.pick(['', '', '0', '1', '7'])}


def cases():
    return case_strategy(gen)


def render(case):
    out = ['/* %s */\n%s' % x for x in case['headers'].items()]
    if case['home']:
        out.append('/* .bic */\n' + case['home'])
    return '\n'.join(out + ['%-50s -> %r' % x for x in zip(case['lines'], case['exp'])])


def check(env, case):
    base = 'r5'
    subprocess.call(['rm', '-r', '-f', os.path.join(env.scratch, base)])
    for p, t in case['headers'].items():
        env.write(base + '/' + p, t)
    cwd = os.path.join(env.scratch, base)
    for x in case['dirs']:
        os.makedirs(os.path.join(cwd, x), exist_ok=True)
    opts = []
    for x in case['dirs']:
        opts += ['-I' + x] if case.get('join') else ['-I', x]
    if case['lib']:
        so = env.lib(case['lib'], 'libr5')
        opts += ['-l', os.path.join(env.scratch, 'libr5.so')]
    e = {'BIC_VERIF_GC': case['gc']} if case['gc'] else {}
    if case['home']:
        env.write(base + '/home/.bic', case['home'])
        e['HOME'] = os.path.join(cwd, 'home')
    got = env.repl(''.join(l + '\n' for l in case['lines']), opts=opts, env=e, cwd=cwd, timeout=60, nofile=32)
    if got[0] is None:
        return []
    head, res = compare(case['lines'], case['exp'], got)
    if got[0] != 0 or len(res) != len(case['lines']) + 1 or got[2]:
        raise Violation('the session did not end normally: ' + show(got))
    return case['kinds'] if case['inc'] >= 2 and case['used'] >= 3 else []
