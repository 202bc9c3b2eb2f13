"""Faulty statements and programs that contain one of them at a random place."""
from progs import Prog, PRE, POOL

ZPRE = '''struct zst { int m; int n; };
union zun { int m; char c; };
enum zen { ZR, ZG };
int zi; int *zp; int za[3]; double zd; struct zst zs; struct zst *zsp; union zun zu; long zl; char *zc;
int ztwo(int a, int b) { return a + b; }
int znone(void) { return 1; }
int zone(int a) { return a; }
int (*zfp)(int, int);
void zvf(int a) { zi = a; }
struct zst *zretp(void) { return zsp; }
void zinit(void) { zi = 1; zl = 2; zp = &zi; zsp = &zs; zfp = &ztwo; zs.m = 1; zs.n = 2; za[0] = 1; zc = "text"; }
'''


class Faults:
    """Expressions and statements with exactly one semantic fault."""

    def __init__(self, d, prog=None):
        self.d = d
        self.p = prog

    # -- operands ---------------------------------------------------------
    def ints(self):
        names = ['zi', 'zi', 'zl']
        if self.p:
            names += [v.name for v in self.p.visible() if not v.t.startswith('unsigned')]
        return self.d.pick(names)

    def ptr(self):
        names = ['zp']
        if self.p:
            names += [v.name for v in self.p.visible('ptr')]
        return self.d.pick(names)

    def arr(self):
        names = ['za']
        if self.p:
            names += [v.name for v in self.p.visible('arr')]
        return self.d.pick(names)

    def undeclared(self):
        names = ['nope', 'z', 'zst', 'zzi', 'zi0', 'm', 'n0', 'main_', 'len']
        if self.p:
            names += [n for n in POOL if not self.p.lookup(n)] * 3
        return self.d.pick(names)

    def rvalue(self):
        d = self.d
        i, j = self.ints(), self.ints()
        return d.pick(['5', '0', '(%s + 1)' % i, '(%s * %s)' % (i, j), '(-%s)' % i, '(!%s)' % i, '(~%s)' % i,
                       'znone()', 'ztwo(1, 2)', 'zfp(1, 2)', '(%s < 3)' % i, '(%s == %s)' % (i, j),
                       '(%s && 1)' % i, '(%s || 0)' % i, '(zi = 1)', '(%s, %s)' % (i, j), '(1, 2)',
                       '(%s ? %s : %s)' % (i, i, j), '(zi++)', '(++zi)', '(zi += 1)', 'ZR', 'ZG', '(&%s)' % i,
                       '(%s << 1)' % i, '(%s & 1)' % i, '(%s - %s)' % (i, j), '(zp + 1)', '(za + 1)'])

    # -- faults -------------------------------------------------------------
    def f_undeclared(self):
        d, n = self.d, self.undeclared()
        i = self.ints()
        return d.pick(['N', 'N()', 'N(1)', 'N(1, I)', '&N', '*N', 'N[0]', 'N[1] = 2', 'za[N]', 'za[N] = 1', 'N.m',
                       'N->m', 'N.m = 1', 'N->m = 1', 'sizeof N', 'sizeof(N)', '(char)N', '(long)N', '-N', '!N', '~N',
                       'N++', '--N', '++N', 'N--', 'N += 1', 'N -= I', 'N ^= 1', 'N = 1', 'N = I', 'I = N', '*zp = N',
                       'zs.m = N', 'ztwo(N, 1)', 'ztwo(1, N)', '1 + N', 'N + 1', 'I - N', 'N * I', 'N / 2', 'N % 2',
                       'I < N', 'N > 0', 'N == I', 'I != N', 'N <= 1', '1 >= N', 'N & 1', 'I | N', 'N ^ 1', 'N << 1',
                       '1 >> N', '1 && N', '0 || N', 'N && 0', 'N || 1', 'N ? 1 : 2', '1 ? N : 2', '0 ? 1 : N',
                       'N, 1', '1, N', 'zfp(N, 1)', 'printf("%d\\n", N)', 'puts(N)', 'zvf(N)', 'zp = &N', 'zc = N'
                       ]).replace('N', n).replace('I', i)

    def f_lvalue(self):
        d = self.d
        if d.chance(1, 4):
            n = d.pick(['ztwo', 'zvf', self.arr(), '"text"', 'znone', 'za'])
            return n + d.pick([' = 1', ' = zp', ' = ' + self.ints()])
        r = self.rvalue()
        return d.pick(['R = 1', 'R = I', 'R++', '++R', 'R--', '--R', 'R += 1', 'R -= I', 'R ^= 1', '&R',
                       'I = R = 1', 'zi = (R = 2)', 'zp = &R', 'ztwo(R = 1, 2)', 'za[0] = R++'
                       ]).replace('R', '\1').replace('I', self.ints()).replace('\1', r)

    def f_args(self):
        d = self.d
        i = self.ints()
        l = ['ztwo()', 'ztwo(1)', 'ztwo(1, I, 3)', 'ztwo(1, 2, 3, 4)', 'znone(1)', 'znone(I, 2)', 'zvf()', 'zvf(1, 2)',
             'zone()', 'zone(I, I)', 'zfp()', 'zfp(1)', 'zfp(1, 2, I)', '(*zfp)(1)', '(*zfp)(1, 2, 3)', 'puts()',
             'puts("a", "b")', 'puts("a", I)', 'exit()', 'exit(0, 1)', 'printf()', 'zretp(1)', 'tick(1)', 'tick(I)',
             '(ztwo)(1)', 'ztwo(ztwo(1, 2))', 'zone(zone())', 'zinit(I)']
        if self.p:
            for f in self.p.fns:
                n = len(f.params)
                for k in (n - 1, n + 1, n + 2):
                    if k >= 0:
                        l += ['%s(%s)' % (f.name, ', '.join(['&zi' if j < n and f.params[j][1] == 'ptr' else '1'
                                                            for j in range(k)]))] * 4
        return d.pick(l).replace('I', i)

    def f_deref(self):
        d = self.d
        return d.pick(['*I', '**P', '*5', '*zd', '*zs', '*zu', '*ZR', '*(I + 1)', '*(I * 2)', '*zone(1)', '*zs.m',
                       '*zsp->n', '*A[0]', '**A', '*ztwo(1, 2)', '*(*P + 1)', 'I[0]', '5[0]', 'zd[0]', 'zs[0]',
                       'zu[1]', 'P[0][0]', 'A[1][0]', 'zone(1)[0]', '(I + 1)[0]', 'zs.m[0]', 'zsp->n[1]', 'ZG[0]',
                       '*I = 1', '**P = 1', 'I[0] = 1', '(*I)++', 'I[1]++', '*I += 1', '&*I', '&I[0]', '*(-I)',
                       'zs[1] = 0', 'A[0][1] = 2', '*zl', 'zl[0]'
                       ]).replace('I', self.ints()).replace('P', self.ptr()).replace('A', self.arr())

    def f_member(self):
        d = self.d
        return d.pick(['I.m', 'I->m', '5 .m', 'P->m', 'P.m', 'zs->m', 'zsp.m', 'zs.zz', 'zsp->zz', 'zu.n', 'zu->m',
                       'zone(1).m', 'zone(1)->m', 'zretp().m', 'zretp()->zz', 'zs.m.m', 'zs.m->m', 'zsp->m->m',
                       'A.m', 'A->m', '"x".m', '(1 + 2).m', '(I + 1)->m', '(*P).m', 'ztwo.m', 'zfp.m', 'zfp->m',
                       '(&zs)->q', '(&zs).m', '(&I)->m', '(*zsp)->m', '(*zsp).q', 'A[0].m', 'zd.m', 'zd->m', 'ZR.m',
                       'zs.zz = 1', 'zsp->zz = I', 'I.m = 1', 'P->m = 1', 'zs->m = 1', 'zsp.m = 1', 'zs.zst', 'zs.zi',
                       'zs.zz++', '&zs.zz', '&zsp->zz', 'zs.M', 'zs.mn', 'zu.mm', 'zl.m', 'zs.c', 'zu.n = 2'
                       ]).replace('I', self.ints()).replace('P', self.ptr()).replace('A', self.arr())

    def f_call(self):
        d = self.d
        return d.pick(['I()', 'I(1)', '5()', 'zs()', 'zs(1)', 'P()', 'P(1)', 'A()', 'zd()', '"x"()', 'znone()()',
                       'ztwo(1, 2)(3)', '(I)(1)', '(1 + 2)(1)', 'zsp(1)', 'ZR(1)', 'zs.m()', 'zsp->m(1)', 'A[0](1)',
                       '(*P)()', '(&I)()', 'zu()', '(*zsp)()', 'zl(2)'
                       ]).replace('I', self.ints()).replace('P', self.ptr()).replace('A', self.arr())

    def f_void(self):
        d = self.d
        return d.pick(['V + 1', '1 + V', 'zi = V', '-V', '!V', '~V', 'V && 1', '1 && V', 'V || 1', 'V ? 1 : 2',
                       '*V', 'za[V]', 'V.m', 'V->m', 'ztwo(V, 1)', 'printf("%d\\n", V)', 'zvf(V)', 'zi += V',
                       'zp = V', 'V[0]', 'V < 1', '1 == V', 'I - V', 'V * I', '*zp = V', 'zs.m = V'
                       ]).replace('V', 'zvf(1)').replace('I', self.ints())

    def f_struct(self):
        d = self.d
        s = d.pick(['zs', 'zs', 'zu', '*zsp'])
        return d.pick(['S + 1', '1 + S', 'S - 1', 'S * 2', 'I < S', 'S == I', 'S && 1', '1 && S', '0 || S',
                       'S ? 1 : 2', '!S', '-S', 'I += S', 'I = S', 'ztwo(S, 1)', 'zvf(S)', 'za[S]', 'zp = S',
                       'I & S', 'I | S', 'I ^ S', 'I << S', 'I % S'
                       ]).replace('I', self.ints()).replace('S', '(%s)' % s)

    EXPR = [('undeclared', 5), ('lvalue', 3), ('args', 3), ('deref', 2), ('member', 2), ('call', 2), ('void', 1),
            ('struct', 1)]

    def expr(self):
        k = self.pick_kind()
        return k, getattr(self, 'f_' + k)()

    def pick_kind(self):
        l = [n for n, w in self.EXPR for _ in range(w)]
        return self.d.pick(l)

    def context(self, x):
        """An expression around x in which x is evaluated, after nothing else that matters."""
        d = self.d
        return d.pick(['(X) + 1', '1 + (X)', '-(X)', '!(X)', '(X) && 1', '1 && (X)', '0 || (X)', '1 ? (X) : 2',
                       '0 ? 1 : (X)', '(X) ? 1 : 2', 'zi, (X)', '(X), zi', 'zi = (X)', 'zi += (X)', 'za[(X)]',
                       'za[1] = (X)', '*zp = (X)', 'zs.m = (X)', 'zsp->n = (X)', 'ztwo((X), 1)', 'ztwo(1, (X))',
                       'printf("%d\\n", (X))', 'puts((X))', 'zfp((X), 2)', '(*zfp)(1, (X))', 'zone((X))',
                       '(X) == 1', '1 < (X)', '(int)(X)', '((X))', '(X) * 2', '3 % (X)', '1 << (X)', '(X) | 1'
                       ]).replace('X', x)

    def stmt_of(self, x):
        """A statement that evaluates x first."""
        d = self.d
        k = d.int(0, 19)
        if k < 9:
            return x + ';'
        return ['if (X) ;', 'if (X) { puts("then"); } else { puts("else"); }', 'while (X) { break; }',
                'for ((X); ; ) { break; }', 'for (; (X); ) { break; }', 'for (zi = 0; zi < 2; (X)) { zi++; }',
                '{ int zv = (X); }', '{ int zv, *zw, zx = (X); }', '{ (X); puts("next"); }',
                'if (1) { if (0) puts("no"); else (X); }', 'for (int zv = (X); ; ) break;'][k - 9].replace('X', x)

    def redecl(self):
        """Two declarations of one name in a scope."""
        d = self.d
        n = d.pick(['zq', 'zi', 'a', 'b'])
        def one():
            return d.pick(['int N;', 'char N;', 'int N = 1;', 'int *N;', 'int N[2];', 'struct zst N;',
                           'struct zst *N;', 'double N;', 'static int N;', 'static int N = 3;', 'int (*N)(int);',
                           'enum { N };', 'int zq2, N;', 'int zq3 = 1, *N;', 'long N = 2;', 'enum { zq4, N };'])
        k = d.int(0, 5)
        if k == 0:
            return '{ int N, N; }'.replace('N', n)
        if k == 1:
            return d.pick(['{ struct zst { int a; }; struct zst { int a; }; }',
                           '{ union zun { int a; int b; }; union zun { int a; }; }',
                           '{ struct zdm { int m; int m; }; }', '{ struct zdm { int m; char c, m; } v; }',
                           '{ union zdm { int m; char *m; } v; }', '{ enum { ZA, ZA }; }',
                           '{ enum { ZA, ZB }; enum { ZC, ZB }; }'])
        a, b = one(), one()
        if 'zq' in a and 'zq' in b:
            a = 'int N;'
        mid = d.pick(['', 'N2', 'puts("between");'])
        if mid == 'N2':
            mid = '{ int %s; }' % n
        return '{ %s %s %s }' % (a.replace('N', n), mid, b.replace('N', n))

    def incomplete(self):
        return self.d.pick(['struct nope zv;', 'union nope zv;', 'enum nope zv;', '{ struct nope zv; }',
                            '{ static struct nope zv; }', '{ struct nope zv[2]; }', 'sizeof(struct nope);',
                            'zi = sizeof(union nope);', '{ struct zw { struct nope p; } zv; }',
                            '{ struct zw { struct zw p; }; struct zw zv; }', 'struct nope zv, *zw;',
                            '{ struct zun zv; }', '{ union zst zv; }', '{ enum zst zv; }'])

    def unresolved(self):
        return self.d.pick(['{ extern int nsf(void); nsf(); }', '{ extern int nsf(int a); zi = nsf(1); }',
                            '{ extern void nsf(char *s, ...); nsf("x", 2); }', 'nsfn();', 'zi = 1 + nsfn();',
                            '{ extern int nsv; nsv; }', '{ extern int nsv; nsv = 1; }', 'zi = nsvar;', 'nsvar++;',
                            'if (nsfn()) { puts("yes"); }', 'ztwo(nsfn(), 1);', '&nsvar;', '*nsfp();'])

    def statement(self):
        """(kind, text) of a statement that bic has to reject when it gets there."""
        d = self.d
        k = d.int(0, 15)
        if k <= 1:
            return 'redeclared', self.redecl()
        if k == 2:
            return 'incomplete', self.incomplete()
        if k == 3:
            return 'unresolved', self.unresolved()
        kind, x = self.expr()
        n = d.pick([0, 0, 1, 1, 2])
        for _ in range(n):
            x = self.context(x)
        return kind, self.stmt_of(x)


class FaultProg(Prog):
    """A program with a marker where the fault goes."""
    MARK = '@FAULT@;'

    def __init__(self, d, **kw):
        super().__init__(d, **kw)
        self.countdown = d.pick([0, 1, 2, 3, 4, 6, 8, 12, 16, 24])
        self.fault = None

    def place(self):
        if self.fault is None and self.cur:
            if self.countdown <= 0:
                d = self.d
                sc = self.scopes[-1]
                if sc and d.chance(1, 8):
                    n = d.pick(sorted(sc))
                    self.fault = ('redeclared', d.pick(['int N;', 'char N = 1;', 'int *N;', 'int N[2];', 'struct zst N;',
                                                       'static int N;', 'enum { N };', 'int zq5, N;']).replace('N', n))
                else:
                    self.fault = Faults(d, self).statement()
                return True
            self.countdown -= 1
        return False

    def stmt(self, depth):
        if self.place():
            return self.MARK
        return super().stmt(depth)

    def simple(self, depth):
        # not a declaration: this can be the body of an if
        if self.fault is None and self.cur and self.countdown <= 0:
            f = Faults(self.d, self)
            kind, x = f.expr()
            self.fault = (kind, x + ';')
            return self.MARK
        self.countdown -= 1
        return super().simple(depth)

    def program(self):
        src = super().program()
        src = src.replace(PRE, PRE + 'extern int nsfn(void);\nextern int nsvar;\n' + ZPRE, 1)
        src = src.replace('\nint main() {\n', '\nint main() {\n  zinit();\n', 1)
        if self.MARK not in src:
            self.fault = Faults(self.d).statement()
            i = src.rindex('  printf("end')
            src = src[:i] + '  ' + self.MARK + '\n' + src[i:]
        return src


# (prefix, offending token, suffix): the text up to the offending token can begin a
# statement, but not once that token follows.
BAD_STATEMENTS = [
    ('if (1)', 'int', 'zv;'), ('while (0)', 'int', 'zv;'), ('{ ;', 'else', '; }'), ('int zv', 'zw', ';'),
    ('int zv,', ';', ''), ('int zv,', 'int', 'zw;'), ('ztwo(1,', ')', ';'), ('ztwo(', ',', '1);'), ('zi =', ';', ''),
    ('zi +', ';', ''), ('1', '2', ';'), ('zi', 'zi', ';'), ('(', ';', ''), ('za[', ']', ';'), ('for (;;', ';', ') ;'),
    ('for (;', ')', ';'), ('while (', ')', ';'), ('if (', ')', ';'), ('if (1)', 'else', ';'), ('return', 'return', ';'),
    ('struct {', ';', ''), ('struct { int a', '}', ';'), ('struct zw {', '}', 'zv;'), ('enum {', '}', ';'),
    ('enum { ZX', 'ZY', '};'), ('enum {', '1', '};'), ('enum', ';', ''), ('int *', ';', ''), ('int (zv', ';', ''),
    ('int zv', ')', ';'), ('int zv[', ';', ''), ('int zv', ']', ';'), ('int (*zv(int)', ';', ''),
    ('zx', 'zy', 'zz;'), ('zs.', '1', ';'), ('zs.', ';', ''), ('zsp->', ';', ''), ('', '.', 'm;'), ('', '->', 'm;'),
    ('zsp->', '5', ';'), ('&', ';', ''), ('*', ';', ''), ('sizeof', ';', ''), ('sizeof(', ')', ';'),
    ('sizeof', 'int', ';'), ('(int)', ';', ''), ('1 ? 2', ';', ''), ('1 ?', ':', '2;'), ('1', ':', '2;'),
    ('zi =', '=', '1;'), ('++', ';', ''), ('!', ';', ''), ('break', '1', ';'), ('', 'goto', 'zx;'),
    ('', 'case', '1: ;'), ('', 'switch', '(1) { }'), ('', 'do', '; while (1);'), ('', 'continue', ';'),
    ('zi', '#', '1;'), ('5', 'zi', ';'), ('', '...', ';'), ('', ')', ';'), ('', ']', ';'), ('', '[', '1];'),
    ('{ (', '}', ')'), ('ztwo(1', ']', ';'), ('zi = 1', '}', ''), ('int zv = {1', ';', '}'), ('int zv[] = {1,', ',', '2};'),
    ('int zv[2] = {', '}', ';'), ('zi', '@', '1;'), ('', '`', ''), ('', '$', ';'), ('ztwo(1, 2', ';', ''),
    ('zi <', '>', '1;'), ('zi &&', '||', '1;'), ('zi', '!', '1;'), ('zi ==', '=', '1;'), ('zi = 1 +', '/', '2;'),
    ('int', '1', ';'), ('int', '=', '1;'), ('char', '+', 'zv;'), ('zs.', '.', 'm;'), ('for', ';', ''),
    ('if', '1', ';'), ('while', 'zi', ';'), ('for (int zv = 0', ')', ';'), ('{ int zv; zv', '}', '')]

OPEN, CLOSE = '([{', ')]}'


def tokens(src):
    import re
    return re.findall(r'"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|[A-Za-z_]\w*|\d+|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||'
                      r'[-+*/%&|^]=|\.\.\.|\s+|.', src, re.S)
