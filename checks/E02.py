"""E02: operands are evaluated exactly when, and as often as, C evaluates them.

Expressions whose leaves are traced calls; wherever C leaves the order of two
operands open, at most one of them has side effects.  Oracle: gcc."""
from cgen import *
import scale
from engine import expect_same

PROP = 'E02'
COUNTS = {'quick': 4500, 'thorough': 50000}
RULE = ('each case is a program of up to 6 statements built from && || ?: , and calls, assignments, compound '
        'assignments, ++/--, subscripts, member accesses and nested argument lists, with traced leaves; '
        'non-trivial: at least two traced leaves in one statement and at least one sequencing construct or '
        'side-effecting operator; one case in 14 is extreme in one dimension (lib/scale.py); distinct by program text')
ASSUMPTIONS = ['gcc -O0 is a correct C compiler for the generated programs']

PRE = '''extern int printf(const char *f, ...);
extern int putchar(int c);
extern int puts(const char *s);
struct s { int m; int arr[4]; struct s *p; };
int a[8];
struct s st;
struct s st2;
int x;
int y;
char c;
long l;
int t(int k, int v) { printf("%d ", k); return v; }
int two(int k, int v, int w) { printf("(%d:%d,%d) ", k, v, w); return v; }
int none() { printf("n "); return 1; }
int *pt(int k, int *p) { printf("p%d ", k); return p; }
struct s *ps(int k, struct s *p) { printf("s%d ", k); return p; }
void vt(int k) { printf("v%d ", k); }
'''


class Gen:
    def __init__(self, d):
        self.d = d
        self.k = 0
        self.f = set()
        self.traced = 0

    def key(self):
        self.k += 1
        self.traced += 1
        return self.k

    def pure(self):
        d = self.d
        return d.pick(['%d' % d.int(0, 3), 'x', 'y', 'a[%d]' % d.int(0, 7), 'st.m', 'l', 'c'])

    def bit(self):
        return self.d.pick(['0', '1', '1', '0', '2'])

    def leaf(self):
        """A traced value in 0..3."""
        d = self.d
        k = d.int(0, 7)
        if k <= 3:
            return 't(%d, %s)' % (self.key(), self.bit())
        if k == 4:
            self.key()
            return 'none()'
        if k == 5:
            self.key()
            return '(putchar(%d) == 0)' % d.int(97, 122)
        if k == 6:
            return '*pt(%d, %s)' % (self.key(), d.pick(['&x', '&y', '&a[2]', '&st.m']))
        return 'ps(%d, &st)->m' % self.key()

    def lv(self):
        """An lvalue, the evaluation of which may be traced, of small int value."""
        d = self.d
        k = d.int(0, 9)
        if k <= 2:
            return d.pick(['x', 'y', 'c', 'l', 'a[3]', 'st.m', 'st.arr[1]'])
        if k == 3:
            return 'a[t(%d, %d)]' % (self.key(), d.int(0, 7))
        if k == 4:
            return '*pt(%d, %s)' % (self.key(), d.pick(['&x', '&y', '&a[5]', '&st.m']))
        if k == 5:
            return 'ps(%d, &st2)->m' % self.key()
        if k == 6:
            return 'ps(%d, &st)->arr[t(%d, %d)]' % (self.key(), 0, d.int(0, 3)) if d.chance(1, 4) else \
                'st.arr[t(%d, %d)]' % (self.key(), d.int(0, 3))
        if k == 7:
            return 'pt(%d, a)[%d]' % (self.key(), d.int(0, 7)) if False else '*pt(%d, &a[%d])' % (self.key(), d.int(0, 7))
        if k == 8:
            self.f.add('comma')
            return 'a[(%s, %d)]' % (self.expr(1), d.int(0, 7))
        return 'a[(t(%d, %s) ? %d : %d)]' % (self.key(), self.bit(), d.int(0, 7), d.int(0, 7))

    def effect(self, depth):
        """A side-effecting assignment-like expression (in parentheses)."""
        d = self.d
        k = d.int(0, 4)
        self.f.add(('assign', 'opassign', 'incdec', 'opassign', 'chain')[k])
        lv = self.lv()
        simple = '(' not in lv
        rhs = self.pure() if not simple or depth <= 0 else self.expr(depth - 1)
        if k == 0:
            return '(%s = %s)' % (lv, rhs)
        if k in (1, 3):
            op = d.pick(['+=', '-=', '^=', '<<=', '>>=', '/='])
            if op == '/=':
                rhs = '((%s) == 0 ? 2 : 3)' % rhs if d.bool() else '2'
            elif op in ('<<=', '>>='):
                rhs = '((%s) != 0)' % rhs
            return '(%s %s %s)' % (lv, op, rhs)
        if k == 2:
            return d.pick(['(%s++)', '(++%s)', '(%s--)', '(--%s)']) % (lv if not lv.startswith('*') else '(%s)' % lv)
        if not simple:
            rhs = '0'
        return '(%s = (%s = %s))' % (d.pick(['x', 'y', 'l']), lv, rhs)

    def expr(self, depth):
        d = self.d
        if depth <= 0:
            return self.leaf() if d.chance(4, 5) else self.pure()
        k = d.int(0, 13)
        if k <= 1:
            return self.leaf()
        if k <= 3:
            self.f.add('&&')
            return '(%s && %s)' % (self.expr(depth - 1), self.expr(depth - 1))
        if k <= 5:
            self.f.add('||')
            return '(%s || %s)' % (self.expr(depth - 1), self.expr(depth - 1))
        if k <= 7:
            self.f.add('?:')
            return '(%s ? %s : %s)' % (self.expr(depth - 1), self.expr(depth - 1), self.expr(depth - 1))
        if k == 8:
            self.f.add('comma')
            if d.chance(1, 3):
                return '(%s, %s, %s)' % (self.expr(depth - 1), self.expr(depth - 1), self.expr(depth - 1))
            if d.chance(1, 4):
                return '(vt(%d), %s)' % (self.key(), self.expr(depth - 1))
            return '(%s, %s)' % (self.expr(depth - 1), self.expr(depth - 1))
        if k == 9:
            return '(%s)' % self.mix(self.expr(depth - 1))
        if k == 10:
            self.f.add('call')
            if d.bool():
                return 't(%d, %s)' % (self.key(), self.expr(depth - 1))
            c = ['1', '2']
            c[d.int(0, 1)] = self.expr(depth - 1)
            return 'two(%d, %s, %s)' % (self.key(), c[0], c[1])
        if k == 11:
            self.f.add('unary')
            return d.pick(['!%s', '(-%s)', '(~%s)', '((int)%s)', '((char)%s)', '((long)%s)']) % self.expr(depth - 1)
        if k == 12:
            return self.effect(depth - 1)
        # precedence-sensitive, without parentheses
        self.f.add('mixed')
        a, b, c = self.expr(depth - 1), self.expr(depth - 1), self.expr(depth - 1)
        return '(%s %s %s %s %s)' % (a, d.pick(['&&', '||']), b, d.pick(['&&', '||']), c)

    def mix(self, e):
        """e and a pure operand under an operator with unspecified order."""
        d = self.d
        op = d.pick(['+', '-', '*', '|', '&', '^', '<', '>', '<=', '>=', '==', '!='])
        p = '%d' % d.int(0, 5)
        return '%s %s %s' % ((e, op, p) if d.bool() else (p, op, e))

    def stmt(self):
        d = self.d
        k = d.int(0, 8)
        dep = d.int(1, 4)
        self.traced = 0
        if k == 0:
            s = '%s;' % self.expr(dep)
        elif k == 1:
            s = 'if (%s) putchar(89); else putchar(78);' % self.expr(dep)
        elif k == 2:
            s = 'x = %s;' % self.expr(dep)
        elif k == 3:
            s = '{ int i = 0; while (i++ < 3 && %s) putchar(46); }' % self.expr(dep)
        elif k == 4:
            s = '{ int i; for (i = %s; i < 5; %s, i += 2) putchar(59); }' % (self.expr(1), self.expr(dep - 1))
        elif k == 5:
            s = 'printf("<%%d>", %s);' % self.expr(dep)
        elif k == 6:
            s = '%s;' % self.effect(dep)
        elif k == 7:
            s = '{ int v = %s; printf("[%%d]", v); }' % self.expr(dep)
        else:
            s = 'printf("<%%d>", f%d(%s));' % (len(self.fns), self.bit())
            self.fns.append('int f%d(int q) { return %s; }' % (len(self.fns), self.expr(dep)))
        self.nt.append(self.traced)
        return s + ' puts("");'

    def program(self):
        d = self.d
        self.fns, self.nt = [], []
        body = [self.stmt() for _ in range(d.int(1, 6))]
        dump = 'printf("%d %d %d %ld %d %d\\n", x, y, c, l, st.m, st2.m); for (k = 0; k < 8; k++) ' \
               'printf("%d ", a[k]); for (k = 0; k < 4; k++) printf("%d ", st.arr[k]);'
        init = 'int k; for (k = 0; k < 8; k++) a[k] = k % 3; x = 1; y = 2; c = 3; l = 4; st.m = 2; st2.m = 1;'
        src = PRE + '\n'.join(self.fns) + '\nint main() {\n' + init + '\n' + '\n'.join(body) + '\n' + dump + \
            '\nreturn 0;\n}\n'
        return {'src': src, 'f': sorted(self.f), 'nt': max(self.nt) >= 2 and bool(self.f)}


def gen(d):
    return Gen(d).program()


def cases():
    return case_strategy(scale.mixed(gen, PROP))


def check(env, case):
    expect_same(env.gcc(case['src']), env.bic(case['src']))
    if case.get('scale'):
        return case['f']
    return case['f'] if case['nt'] else []
