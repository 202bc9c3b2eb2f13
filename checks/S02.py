"""S02: scripts are preprocessed C, run from main or from top to bottom.

Differential: a script (with generated headers, macros and conditional sections) runs in bic and compiled. The
reference of a top-level script is the same text as the body of a main function with nested functions."""
import os, re
from cgen import *
from engine import Violation, Invalid, expect_same, show

PROP = 'S02'
COUNTS = {'quick': 3200, 'thorough': 30000}
RULE = ('each case is a script with up to 4 headers of its own (found next to it, in -I directories or through macros, '
        'nested, guarded, included repeatedly with changing macros) and system headers, object-like, function-like, variadic, stringifying '
        'and pasting macros, redefinitions, #if/#ifdef/#elif/#else nests, predefined macros, comments and line '
        'continuations; in one of the forms top level, main with 0 to 2 parameters at any position (also in a header), and '
        'main mixed with top-level code; compared with the compiled script; non-trivial: 3 preprocessor features or more; distinct '
        'by text')
ASSUMPTIONS = ['the reference of a top-level script is its text as the body of main, functions being nested functions (gcc)']

SYS = [('stdio.h', ['EOF', 'SEEK_END', 'BUFSIZ % 1000', 'printf("p")', 'puts("s")']), ('limits.h', ['INT_MAX % 1000', 'CHAR_BIT', 'SHRT_MIN % 500']),
       ('errno.h', ['EINVAL', 'ENOENT', 'EAGAIN']), ('string.h', ['(int)strlen("hello")', 'strcmp("a", "a")']),
       ('ctype.h', ['toupper(97)', 'tolower(66)']), ('stdlib.h', ['EXIT_FAILURE', 'abs(-4)', 'atoi("12")', 'RAND_MAX % 100']),
       ('stdint.h', ['(int)sizeof(int16_t)', '(int)sizeof(uint64_t)']), ('stdbool.h', ['true', 'false']), ('signal.h', ['SIGINT', 'SIGTERM']),
       ('fcntl.h', ['O_CREAT', 'O_RDWR']), ('stddef.h', ['(int)sizeof(size_t)']), ('unistd.h', ['STDERR_FILENO'])]
PREDEF = ['__LINE__', '__STDC__', '__x86_64__', '__SIZEOF_INT__', '__SIZEOF_POINTER__', '__COUNTER__', '__CHAR_BIT__', '__INT_MAX__ % 1000',
          '__INCLUDE_LEVEL__', '__linux__', '__GNUC__', '__BYTE_ORDER__']
PRE = 'extern int printf(const char *f, ...);\nextern int puts(const char *s);\nextern unsigned long strlen(const char *s);\n'


class G:
    def __init__(self, d):
        self.d = d
        self.f = set()
        self.k = 0
        self.files = {}            # path relative to the scratch directory -> text
        self.vars, self.fns, self.fmacros, self.consts, self.omacros, self.smacros = [], [], {}, [], [], []
        self.types = ['int', 'long', 'short', 'long long']
        self.sys = []
        self.static = False        # inside text that is included more than once
        self.top = False           # initialisers can be any expression
        self.level = 0
        self.pending = []          # declared functions, not yet defined
        self.hdrs = []

    def n(self, p):
        self.k += 1
        return '%s%d' % (p, self.k)

    # -- expressions: every value is within -1000..1000 -------------------------
    def atom(self, const=False):
        d = self.d
        pool = [lambda: str(d.int(0, 99)), lambda: str(d.int(0, 9))]
        if self.omacros:
            pool += [lambda: self.use('object-like', d.pick(self.omacros))] * 2
        if self.consts:
            pool.append(lambda: d.pick(self.consts))
        pool.append(lambda: self.use('predefined', '(%s)' % d.pick(PREDEF)))
        pool.append(lambda: self.use('predefined', '(int)strlen(__FILE__) % 100') if not const else '7')
        if not const:
            if self.vars:
                pool += [lambda: d.pick(self.vars)] * 2
            if self.sys:
                pool.append(lambda: '(%s)' % d.pick(d.pick(self.sys)[1]))
            if self.smacros:
                pool.append(lambda: '(int)strlen(%s) %% 100' % d.pick(self.smacros))
        return d.pick(pool)()

    def use(self, f, t):
        self.f.add(f)
        return t

    def ex(self, k, const=False, params=(), fns=True):
        d = self.d
        if k <= 0:
            if params and d.chance(2, 3):
                return d.pick(params)
            return self.atom(const)
        e = lambda: self.ex(k - 1, const, params, fns)
        c = d.int(0, 8)
        if c <= 3:
            return '(%s %s %s)' % (e(), d.pick(['+', '-', '&', '|', '^', '<', '>=', '==', '&&', '||']), e())
        if c == 4:
            return '(%s * %d)' % (e(), d.int(1, 3))
        if c == 5 and self.fmacros:
            n = d.pick(sorted(self.fmacros))
            ar, var = self.fmacros[n]
            self.f.add('function-like')
            args = [self.ex(k - 1, const, params, fns) for _ in range(ar + (d.int(1, 3) if var else 0))]
            sp = d.pick(['', '', ' ', '\n', ' /* c */ ']) if self.level == 0 else ''
            return '%s%s(%s)' % (n, sp, ', '.join(args))
        if c == 6 and self.fns and not const and fns:
            return '%s(%s)' % (d.pick(self.fns), e())
        if c == 7:
            return '(%s ? %s : %s)' % (e(), e(), e())
        return self.ex(0, const, params, fns)

    def mod(self, k=2, const=False, params=(), fns=True):
        return '((%s) %% %d)' % (self.ex(k, const, params, fns), self.d.pick([7, 50, 100, 997]))

    # -- preprocessor items ------------------------------------------------------
    def defs(self):
        """A list of lines that define or redefine a macro."""
        d = self.d
        c = d.int(0, 11)
        ind = d.pick(['#define', '#define', '# define', '  #  define', '#define /* c */'])
        if c <= 3:
            if self.omacros and d.chance(1, 4):
                self.f.add('redefinition')
                n = d.pick(self.omacros)
                self.omacros.remove(n)
                body = self.mod(2, True)
                self.omacros.append(n)
                return ['#undef ' + n, '%s %s %s' % (ind, n, body)]
            n = self.n('M')
            body = d.pick([str(d.int(0, 99)), self.mod(1, True), '(%s)' % d.int(-50, 50)])
            self.omacros.append(n)
            return ['%s %s %s' % (ind, n, self.cont(body))]
        if c <= 6:
            n, ar = self.n('F'), d.int(0, 3)
            ps = ['a', 'b', 'c'][:ar]
            body = d.pick([self.mod(2, True, ps), '(%s)' % ' + '.join('(%s)' % p for p in ps or ['3']),
                           ' * '.join(['%s' % p for p in ps[:1]] + ['2']) if ps else '5'])
            self.fmacros[n] = (ar, False)
            return ['%s %s(%s) (%s)' % (ind, n, d.pick([', ', ',', ' , ']).join(ps), self.cont(body))]
        if c == 7:
            n = self.n('V')
            self.f.add('variadic macro')
            self.fmacros[n] = (1, True)
            s = self.n('sum')
            self.fmacros[s] = (2, False)
            v = d.int(0, 1)
            return ['#define %s(a, b) ((a) + (b))' % s, '#define %s3(a, b, ...) ((a) + (b))' % n,
                    '#define %s(x, ...) %s' % (n, ['((x) + %s3(__VA_ARGS__, 1, 2))' % n, '((x) - (0, __VA_ARGS__))'][v])]
        if c == 8:
            n = self.n('STR')
            self.smacros.append('%s(%s)' % (n, d.pick(['a + b', '"q" \'c\'', 'x', 'a  /* c */  b', '\\n' if False else '1.5e3', '(,)', 'M1'])))
            return ['#define %s_(...) #__VA_ARGS__' % n, '#define %s(...) %s' % (n, d.pick(['#__VA_ARGS__', n + '_(__VA_ARGS__)']))]
        if c == 9:
            n, m = self.n('CAT'), self.n('pasted')
            self.omacros.append('%s(%s, %s)' % (n, m[:3], m[3:]))
            self.f.add('pasting')
            return ['#define %s %d' % (m, d.int(0, 99)), '#define %s(a, b) a##b' % n]
        if c == 10:
            n = self.n('TY')
            self.types.append(n)
            return ['#define %s %s' % (n, d.pick(['int', 'long', 'short int', 'signed', 'unsigned char' if False else 'long int']))]
        n, o = self.n('LST'), self.n('X')
        # X macro
        es = [self.n('it') for _ in range(d.int(1, 4))]
        self.f.add('X macro')
        self.consts += es
        e = self.n('xe')
        return ['#define %s(X) %s' % (n, ' '.join('X(%s, %d)' % (x, d.int(0, 50)) for x in es)), '#define %s(n, v) n = v,' % o,
                'enum %s { %s(%s) %s_last };' % (e, n, o, e)]

    def cont(self, t):
        if self.d.chance(1, 6) and ' ' in t and '"' not in t:
            self.f.add('continuation')
            return t.replace(' ', ' \\\n ', 1)
        return t

    def condition(self):
        """#if lines and whether ... - all branches provide the same names, so it doesn't matter which is taken."""
        d = self.d
        m = (self.omacros and d.pick(self.omacros)) or 'M0'
        if '(' in m:
            m = 'M1'
        u = 'UNDEF%d' % d.int(0, 9)
        return d.pick(['#ifdef ' + m, '#ifndef ' + m, '#if defined(%s) && !defined %s' % (m, u), '#if ' + u, '#if 1', '#if 0', '#if %d' % d.int(-1, 1),
                       '#if (%d + %d) %% 2 == %d' % (d.int(0, 9), d.int(0, 9), d.int(0, 1)), '#if defined %s || __LINE__ %% 2' % u,
                       '#if __INCLUDE_LEVEL__', '#if -1 > 0u', "#if 'a' == 97 && 2 ? 0 : 1", '#if __has_include("none.h")', '#if (2 || 1 / 1) && 1 << 3 > 7'])

    def conditional(self, ctx, depth):
        d = self.d
        self.f.add('conditional')
        L = [self.condition()]
        nb = d.int(1, 3)
        t = d.pick(self.types)
        v = self.n('v')
        m = self.n('M')
        kind = d.int(0, 2)
        for i in range(nb):
            if i:
                L.append('#else' if i == nb - 1 and d.bool() else d.pick(['#elif %d' % d.int(0, 1), '#elif defined(M%d)' % d.int(0, 9)]))
                if L[-1] == '#else':
                    L[-1] = d.pick(['#else', '# else', '#else /* %s */' % m, '#else // no'])
                    last = True
            if kind == 0 and ctx == 'S':
                L += self.stmts(depth - 1)
            elif kind == 1:
                L.append('#define %s_%s %d' % (m, 'c', d.int(0, 99)))
            elif ctx == 'S':
                if depth > 0 and d.chance(1, 3):
                    saved = list(self.omacros)
                    L += self.conditional(ctx, depth - 1)
                    self.omacros = saved
                else:
                    L += self.stmts(0)
            else:
                L.append('#undef NOT_%s' % m)
            if L[-1] == '#else':
                L.append('')
        L.append(d.pick(['#endif', '# endif', '#endif // %s' % m]))
        if kind == 1:
            self.omacros.append('%s_c' % m)
            L += ['#ifndef %s_c' % m, '#define %s_c %d' % (m, d.int(0, 9)), '#endif']
        # a skipped section needn't be C
        if d.chance(1, 3):
            L += ['#if 0', d.pick(['this is not C @ all', 'int main( { nope', '#define main broken', '#error never', '} } (']), '#endif']
        return L

    def include(self, ctx, depth):
        d = self.d
        c = d.int(0, 9)
        if c <= 2 and ctx == 'D':
            h = d.pick([s for s in SYS])
            self.f.add('system header')
            if h not in self.sys:
                self.sys.append(h)
            return ['#include <%s>' % h[0]]
        if c == 3 and self.hdrs:
            self.f.add('repeated include')
            return ['#include ' + d.pick(self.hdrs)]
        if self.level >= 3:
            return []
        self.f.add('include')
        i = len(self.files)
        place = d.int(0, 3)
        name = d.pick(['h%d.h', 'x%d.inc', 'h-%d.hpp', 's%d.c']) % i
        rel, spec = [(name, '"%s"' % name), ('sub/' + name, '"sub/%s"' % name), ('inc/' + name, '<%s>' % name),
                     ('inc/deep/' + name, d.pick(['<deep/%s>', '"deep/%s"']) % name)][place]
        if self.level and place <= 1:
            # relative to the including file
            rel, spec = 'inc/' + name, '<%s>' % name
        self.files[rel] = ''
        self.level += 1
        L = []
        guard = d.int(0, 2)
        reuse = guard < 2 and '"' not in spec
        if guard == 0:
            L += ['#ifndef G%d' % i, '#define G%d' % i]
        elif guard == 1:
            L += ['#pragma once']
        for _ in range(d.int(0, 4)):
            L += self.item(ctx, depth - 1)
        if guard == 0:
            L += ['#endif']
        self.level -= 1
        self.files[rel] = '\n'.join(L) + d.pick(['\n', '\n', '\n\n', '\n/* end */', '\n'])
        if not self.files[rel].endswith('\n'):
            self.files[rel] += '\n'
        if reuse:
            self.hdrs.append(spec)
        if d.chance(1, 5):
            m = self.n('HDR')
            self.f.add('include by macro')
            return ['#define %s %s' % (m, spec), '#include ' + m]
        return [d.pick(['#include ', '# include ', '#include /* c */ ']) + spec]

    # -- declarations ------------------------------------------------------------
    def decl(self):
        d = self.d
        c = d.int(0, 9)
        if c <= 3:
            v = self.n('v')
            t = d.pick(self.types)
            init = self.mod(2) if self.top else self.mod(2, True)
            self.vars.append(v)
            return ['%s%s %s = %s;' % (d.pick(['', '', 'static ']) if not self.top else '', t, v, init)]
        if c <= 6:
            return self.function(None)
        if c == 7:
            es = [self.n('e') for _ in range(d.int(1, 3))]
            r = ['enum { %s };' % ', '.join(e + d.pick(['', ' = %d' % d.int(0, 50)]) for e in es)]
            self.consts += es
            return r
        if c == 8:
            t = self.n('ty')
            r = ['typedef %s %s;' % (d.pick(['int', 'long', 'short']), t)]
            self.types.append(t)
            return r
        f = self.n('fn')
        self.pending.append(f)
        self.f.add('prototype')
        # called before it's defined only from functions that are called later
        return ['@AUTO@int %s(int %s);' % (f, self.d.pick(['', 'x', 'other']))]

    def function(self, name):
        d = self.d
        f = name or self.n('fn')
        L = ['int %s(int a) {' % f]
        body = []
        saved = list(self.vars)
        if d.bool():
            s = self.n('loc')
            body.append('%s %s = %s;' % (d.pick(self.types), s, self.mod(1, False, ['a'])))
            self.vars.append(s)
        if d.chance(1, 3):
            body.append('static int cnt_%s = %s; cnt_%s = (cnt_%s + 1) %% 50;' % (f, self.mod(1, True) if not self.top else str(d.int(0, 9)), f, f))
            self.vars.append('cnt_' + f)
        if d.chance(1, 3):
            body += self.conditional('D', 0)
        if d.chance(1, 3):
            body.append('if (%s) return %s;' % (self.mod(1, False, ['a']), self.mod(1, False, ['a'])))
        body.append('return %s;' % self.mod(2, False, ['a']))
        self.vars = saved
        self.fns.append(f)
        return L + body + [d.pick(['}', '};'])]

    # -- statements --------------------------------------------------------------
    def stmts(self, depth):
        r = []
        for _ in range(self.d.int(1, 2)):
            r += self.stmt(depth)
        return r

    def stmt(self, depth):
        d = self.d
        c = d.int(0, 12)
        if c <= 4 or depth <= 0:
            if self.smacros and d.chance(1, 4):
                self.f.add('stringify')
                return ['puts(%s);' % d.pick(self.smacros)]
            if d.chance(1, 10):
                return ['puts(__FILE__);']
            return ['printf("%%d ", (int)%s);' % self.mod(d.int(0, 3))]
        if c <= 6 and self.vars:
            return ['%s = %s;' % (d.pick(self.vars), self.mod(2))]
        if c == 7:
            return ['if (%s) {' % self.mod(1)] + self.stmts(depth - 1) + ['}'] + (
                ['else'] + ['{'] + self.stmts(depth - 1) + ['}'] if d.bool() else [])
        if c == 8:
            i = self.n('i')
            return ['for (int %s = 0; %s < %d; %s++) {' % (i, i, d.int(0, 3), i)] + self.stmts(depth - 1) + ['}']
        if c == 9:
            i = self.n('w')
            return ['{ int %s = %d; while (%s > 0) {' % (i, d.int(0, 3), i)] + self.stmts(depth - 1) + ['%s--; } }' % i]
        if c == 10:
            return [d.pick([';', '{ }', '/* nothing */', '// nothing', '', '{ ; }'])]
        if c == 11:
            return self.conditional('S', depth - 1)
        return ['{'] + self.stmts(depth - 1) + ['}']

    def item(self, ctx, depth):
        d = self.d
        c = d.int(0, 11)
        # a definition inside a statement context is a declaration at top level
        if c <= 2:
            return self.defs()
        if c == 3:
            return self.include(ctx, depth)
        if c == 4:
            return self.conditional(ctx, depth)
        if c == 5:
            return [d.pick(['', '/* comment */', '// comment \\\n continued', '/* two\n lines */', '#', '#pragma foo bar', '   '])]
        if ctx == 'D' or c <= 7:
            return self.decl()
        return self.stmt(depth)


def gen(d):
    g = G(d)
    form = d.pick(['top', 'top', 'main', 'main', 'mix'])
    g.top = form == 'top'
    L = []
    opts = ['-I', 'inc']
    if form == 'top':
        # headers are only included where declarations stand
        for _ in range(d.int(0, 4)):
            L += g.item('D', 2)
        for _ in range(d.int(1, 9)):
            L += g.item('S', 2)
            if g.pending and d.chance(1, 3):
                L += g.function(g.pending.pop(0))
        for f in g.pending:
            L += g.function(f)
        L += g.stmt(2)
        if d.chance(1, 2):
            L += [d.pick(['return %s;', 'if (1) { return %s; }', '{ { return %s; } } puts("not reached");']) % g.mod(2)]
    else:
        for _ in range(d.int(0, 7)):
            L += g.item('D', 2)
        late = []
        ns = d.int(0, 2)
        pend = list(g.pending)
        g.fns += pend
        sig = [['int main()', 'int main(void)'], ['int main(int argc)'], ['int main(int argc, char **argv)', 'int main(int argc, char *argv[])']][ns]
        ext = []
        for _ in range(d.int(0, 2)):
            v = g.n('late')
            L.append('extern int %s;' % v)
            ext.append(v)
            g.vars.append(v)
        body = []
        if ns:
            g.vars.append('argc')
            body.append('argc = argc - argc % 1;')
        if d.chance(1, 3):
            L.append(d.pick(sig) + ';')
        for _ in range(d.int(1, 7)):
            body += g.stmt(2)
            if d.chance(1, 4):
                body += g.conditional('S', 1)
        M = [d.pick(sig) + ' {'] + body + ['return %s;' % g.mod(2), '}']
        if 'argc' in g.vars:
            g.vars.remove('argc')
        if d.chance(1, 8):
            g.files['mainpart.h'] = '\n'.join(M) + '\n'
            M = ['#include "mainpart.h"']
            g.f.add('main in a header')
        L += M
        for f in pend:
            g.fns = [x for x in g.fns if x not in pend]
            L += g.function(f)
        for v in ext:
            L.append('int %s = %s;' % (v, g.mod(1, True)))
        if d.chance(1, 3):
            L += [';'] if form == 'main' else ['/* e */']
        g.f.add('main%d' % ns)
    mixed = None
    if form == 'mix':
        mixed = d.pick(['puts("mixed");', 'if (1) { puts("mixed"); }', '{ puts("mixed"); }', 'while (0) ;', 'for (;0;) ;', '1 + 2;', 'return 3;',
                        '{ int x = 3; }', 'printf("mixed");'])
        # between the lines of file scope: at the start, or at the end
        if d.bool():
            L.append(mixed)
        else:
            L.insert(0, mixed)
    r = {'text': '\n'.join(L) + '\n', 'files': g.files, 'form': form, 'f': sorted(g.f) + [form], 'args': ['a'] * d.int(0, 2)}
    return r


def cases():
    return case_strategy(gen)


def source(case, ref):
    t = case['text']
    pre = PRE.replace('\n', ' ')
    if ref and case['form'] == 'top':
        t = pre + 'int main(int argc, char **argv) {\n' + t + 'return 0; }\n'
    else:
        t = pre + '\n' + t
    return t.replace('@AUTO@', 'auto ' if ref and case['form'] == 'top' else '')


def render(case):
    return source(case, False) + ''.join('\n/* file %s */\n%s' % (n, t.replace('@AUTO@', '')) for n, t in case['files'].items())


def check(env, case):
    import shutil
    for ref in (True, False):
        for n in ('inc', 'sub'):
            shutil.rmtree(os.path.join(env.scratch, n), ignore_errors=True)
            os.makedirs(os.path.join(env.scratch, n))
        for n, t in case['files'].items():
            env.write(n, t.replace('@AUTO@', 'auto ' if ref and case['form'] == 'top' else ''))
        env.write('t.c', source(case, ref))
        if ref:
            cmd = ('%s -quiet -imultiarch x86_64-linux-gnu -w -O0 -fPIC -I inc t.c -o t.s && as -o t.o t.s && '
                   'ld -shared -Bsymbolic -o t.so t.o' % env.cc1)
            if case['form'] != 'mix':
                rc, out, err = env.run(['/bin/sh', '-c', cmd], timeout=120)
                if rc != 0:
                    raise Invalid('gcc: ' + err.decode('latin-1')[:600])
                want = env.run([env.runner, './t.so'] + case['args'])
        else:
            got = env.run([env.bins['plain'], '-I', 'inc', '-s', 't.c'] + case['args'])
    if case['form'] == 'mix':
        if got[0] in (0, None) or got[0] < 0 or got[1] or not got[2]:
            raise Violation('a mix of top-level code and main must be rejected without executing anything: ' + show(got))
        return ['mix']
    expect_same(want, got)
    return case['f'] if len(case['f']) >= 4 else []
