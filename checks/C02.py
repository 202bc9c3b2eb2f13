"""C02: every function call behaves as an independent activation.  Oracle: gcc."""
from cgen import *
from progs import Prog
import scale
from engine import expect_same

PROP = 'C02'
COUNTS = {'quick': 4500, 'thorough': 60000}
RULE = ('each case is a random program with 1-5 functions (0-4 parameters of 6 integer types or pointers, '
        '7 return types; or 1-20 parameters of 13 types, any of which is returned), called in sequence, nested as arguments, recursively and mutually recursively, '
        'changing globals and objects behind pointers; functions whose returned object changes afterwards; trees and strings handled recursively; non-trivial: has a recursive call or at least two '
        'calls; one case in 14 is extreme in one dimension (lib/scale.py); distinct by program text')
ASSUMPTIONS = ['gcc -O0 is a correct C compiler for the generated programs']


def recursive(d):
    """Classic recursions in which values held by callers must survive."""
    t = d.pick(['int', 'long', 'short', 'unsigned char', 'int'])
    n, m = d.int(1, 6), d.int(1, 5)
    k = d.int(0, 5)
    op = d.pick(['+', '-', '*', '^', '+'])
    a, b = d.int(0, 9), d.int(0, 9)
    if k == 0:
        fn = '%s r(int n) { %s x = n * %d; if (n <= %d) return %s; %s y = r(n - 1); %s z = r(n - 2); ' \
             'return (x %s y - z * %d + x) %% 89; }' % (t, t, a, d.int(0, 2), d.pick(['n', 'x', '1']), t, t, op, b)
        use = 'printf("%%ld\\n", (long)r(%d));' % n
    elif k == 1:
        fn = '%s q(int n, int m);\n%s r(int n, int m) { int x = m; if (n < 1) return x; x = q(n - 1, x + %d); ' \
             'return x %s m; }\n%s q(int n, int m) { int x = m * 2; if (n < 1) return m; return r(n - 1, x) %s x; }' \
             % (t, t, a, op, t, d.pick(['+', '-']))
        use = 'printf("%%ld\\n", (long)r(%d, %d));' % (n, m)
    elif k == 2:
        fn = 'int cnt;\nvoid h(int n, int from, int to, int via) { if (n == 0) return; h(n - 1, from, via, to); ' \
             'printf("%%d:%%d-%%d ", n, from, to); cnt++; h(n - 1, via, to, from); }'
        fn = fn.replace('%%', '%')
        use = 'h(%d, 1, 3, 2); printf("%%d\\n", cnt);' % min(n, 5)
    elif k == 3:
        fn = 'int ack(int m, int n) { if (m == 0) return n + 1; if (n == 0) return ack(m - 1, 1); ' \
             'return ack(m - 1, ack(m, n - 1)); }'
        use = 'printf("%%d\\n", ack(%d, %d));' % (d.int(0, 2), d.int(0, 3))
    elif k == 4:
        fn = 'void fill(int *p, int n) { if (n == 0) return; int v = n * %d; fill(p, n - 1); p[n - 1] = v %s %d; }' \
             '\nint sum(int *p, int n) { int s = 0; int i; for (i = 0; i < n; i++) s += p[i]; if (n > 1) ' \
             'return s + sum(p, n - 1); return s; }' % (a, op, b)
        use = 'int buf[8]; int *bp; bp = &buf[0]; fill(bp, %d); printf("%%d\\n", sum(bp, %d)); ' \
              'int i; for (i = 0; i < %d; i++) printf("%%d ", buf[i]);' % (n, n, n)
    else:
        fn = '%s r(int n, int *acc) { int loc = n * %d; if (n > 0) { *acc = (*acc %s loc) %% 1000; int got = r(n - 1, ' \
             '&loc); *acc += loc + got; return loc; } return %d; }' % (t, a, op, b)
        use = 'int acc = %d; printf("%%ld ", (long)r(%d, &acc)); printf("%%d\\n", acc);' % (m, n)
    calls = ' '.join([use])
    src = 'extern int printf(const char *f, ...);\n%s\nint main() { %s return 0; }\n' % (fn, calls)
    return {'src': src, 'f': ['recursion', 'call', 'template%d' % k]}


VT = [('int', '%d', '%d'), ('long', '%ld', '%d'), ('short', '%d', '%d'), ('unsigned char', '%d', '%d'), ('double', '%a', '%d.25'),
      ('float', '%a', '%d.5'), ('char *', '%s', '"s%d"'), ('int *', '%d', '&cell[%d]'), ('struct nd *', '%d', '&nds[%d]'), ('en', '%d', 'E%d'),
      ('myint', '%d', '%d'), ('unsigned long', '%lu', '%d'), ('void *', '%d', '&cell[%d]')]
VHEAD = ('extern int printf(const char *f, ...);\nextern void *malloc(unsigned long n);\n'
         'struct nd { int v; struct nd *l; struct nd *r; };\nint cell[10]; struct nd nds[10]; typedef int myint;\n'
         'typedef enum { E0, E1, E2, E3, E4, E5, E6, E7, E8, E9 } en;\n')


def vshow(t, f, e):
    return {'int *': '*%s', 'struct nd *': '%s->v', 'void *': '*(int *)%s'}.get(t, '%s') % e


def snapshot(d):
    """A returned value is independent of the object it came from: with the calls in any order, every one has its own."""
    if d.chance(1, 4):
        # pointers
        t, n = d.pick([('int', 'cell'), ('struct nd', 'nds'), ('int', 'cell')])
        glob, st, expr = d.pick([('%s *g = &%s[0];', '', 'g'), ('struct { char c; %s *m; } gs = { 1, &%s[0] };', '', 'gs.m'),
                                 ('', 'static %s *s; if (!s) s = &%s[0];', 's')])
        if 'gs' in glob:
            glob = 'struct { char c; %s *m; } gs;'
        glob, st = glob % ((t, n) if glob.count('%') == 2 else t) if glob else '', st % (t, n) if st else ''
        if 'gs' in glob:
            st = 'if (!gs.m) gs.m = &%s[0];' % n
        fn = '%s *next() { %s %s %s }' % (t, st, d.pick(['%s = %s + 1;' % (expr, expr), '%s++;' % expr]), d.pick(['return %s;', '{ return %s; }']) % expr)
        val = '*next()' if t == 'int' else 'next()->v'
        uses = [d.pick(['printf("%%d\\n", next() == next());', 'printf("%%d\\n", %s + %s);' % (val, val), '{ %s *x = next(); %s *y = next(); printf("%%%%d\\n", x == y); }' % (t, t),
                        'printf("%%d\\n", same(next(), next()));', 'printf("%%d\\n", add(%s, %s));' % (val, val)]).replace('%%', '%') for _ in range(d.int(1, 4))]
        return {'src': VHEAD + '%s\n%s\nint add(int a, int b) { return a + b; }\nint same(void *a, void *b) { return a == b; }\n'
                'int main() { int i; for (i = 0; i < 10; i++) { cell[i] = i * i; nds[i].v = i; } %s return 0; }\n' % (glob, fn, '\n'.join(uses)),
                'f': ['call', 'snapshot of a pointer']}
    t, f, v = d.pick(VT[:4])
    k = d.int(0, 4)
    glob, expr = [('%s g;' % t, 'g'), ('%s ga[3];' % t, 'ga[%d]' % d.int(0, 2)), ('struct { char c; %s m; } gs;' % t, 'gs.m'),
                  ('%s gx; %s *gp = &gx;' % (t, t), '*gp'), ('', 's')][k]
    st = '' if k < 4 else 'static %s s; ' % t
    a, b = d.int(0, 9), d.int(1, 9)
    upd = d.pick(['%s = %s + %d;' % (expr, expr, b), '%s += %d;' % (expr, b), '(%s)++;' % expr])
    nest = d.pick(['%s', '{ %s }', 'if (1) { %s }', 'while (1) { %s }', 'for (;;) %s'])
    fn = '%s next() { %s%s %s }' % (t, st, upd, nest % ('return %s;' % expr))
    if d.chance(1, 3):
        fn += '\n%s outer() { return next(); }' % t
    c = 'outer()' if 'outer' in fn else 'next()'
    uses = []
    for _ in range(d.int(1, 4)):
        uses.append(d.pick(['printf("%%ld\\n", (long)(%s + %s));', 'printf("%%ld\\n", (long)(%s * %s));', 'printf("%%d\\n", %s == %s);',
                            'printf("%%d\\n", add(%s, %s));', '{ int x = %s; int y = %s; printf("%%d %%d\\n", x, y); }',
                            'printf("%%d\\n", add(add(%s, 0), %s) );', '{ int q[2]; q[0] = %s; q[1] = %s; printf("%%d %%d\\n", q[0], q[1]); }',
                            '{ long z; z = %s; %s; printf("%%ld\\n", z); }']) % (c, c))
    return {'src': VHEAD + '%s\n%s\nint add(int a, int b) { return a + b; }\nint main() { %s return 0; }\n' % (glob, fn, '\n'.join(uses)),
            'f': ['call', 'snapshot']}


def values(d):
    """Functions of many parameters of all types, that return one of them, at any depth of calls."""
    fns, text, body = [], [], []
    for i in range(d.int(1, 4)):
        n = d.pick([1, 2, 3, 5, 8, 14, 20])
        ps = [d.pick(VT) for _ in range(n)]
        r = d.int(0, n - 1)
        names = ['p%d' % j for j in range(n)]
        b = ['printf("f%d:");' % i] + ['printf(" %s", %s);' % (f, vshow(t, f, x)) for (t, f, v), x in zip(ps, names)] + ['printf("\\n");']
        if d.chance(1, 3):
            # parameters are objects of their own
            for x in range(d.int(1, 3)):
                j = d.int(0, n - 1)
                if j != r:
                    b.append('%s = %s;' % (names[j], ps[j][2] % d.int(0, 9)))
        j = d.int(0, n - 1)
        if ps[j][0] == 'int' and d.bool():
            b.append('if (%s > 0) { %s = %s - 1; %s = f%d(%s); printf("back %%d\\n", %s); }' % (
                names[j], names[j], names[j], names[r] if ps[r][0] == ps[r][0] else '', i, ', '.join(names), names[j]))
        if d.bool():
            b.insert(d.int(0, 1), '%s loc = %s;' % (ps[r][0], names[r]))
            back = 'loc'
        else:
            back = names[r]
        b.append(d.pick(['return %s;', '{ { return %s; } }', 'while (1) return %s;']) % back)
        text.append('%s f%d(%s) { %s }' % (ps[r][0], i, ', '.join(t + ' ' + x for (t, f, v), x in zip(ps, names)), ' '.join(b)))
        fns.append((i, ps, r))
    cnt = 0

    def arg(t, f, v, depth):
        if depth and d.chance(1, 3):
            c = [x for x in fns if x[1][x[2]][0] == t]
            if c:
                return call(d.pick(c), depth - 1)
        return v % d.int(0, 9)

    def call(fn, depth):
        # at most one argument is a call, the order is open
        i, ps, r = fn
        k = d.int(0, len(ps) - 1)
        return 'f%d(%s)' % (i, ', '.join(arg(*p, depth if j == k else 0) for j, p in enumerate(ps)))

    for _ in range(d.int(1, 5)):
        fn = d.pick(fns)
        t, f, v = fn[1][fn[2]]
        if d.bool():
            body.append('printf("= %s\\n", %s);' % (f, vshow(t, f, call(fn, 3))))
        else:
            body.append('{ %s x; x = %s; printf("= %s\\n", %s); }' % (t, call(fn, 3), f, vshow(t, f, 'x')))
    init = '{ int i; for (i = 0; i < 10; i++) { cell[i] = i * i; nds[i].v = i * 3; } }'
    return {'src': VHEAD + '\n'.join(text) + '\nint main() { %s\n%s\nreturn 0; }\n' % (init, '\n'.join(body)), 'f': ['call', 'values']}


def trees(d):
    """Recursion over linked objects and strings."""
    op = d.pick(['<', '>', '<=', '>='])
    ins = ', '.join(str(d.int(0, 30)) for _ in range(d.int(1, 14)))
    order = ['show(n->l, d + 1);', 'printf("%d@%d ", n->v, d);', 'show(n->r, d + 1);']
    order = d.pick([order, order[::-1], [order[1], order[0], order[2]]])
    fns = ['struct nd *mk(int v) { struct nd *n; n = malloc(sizeof(struct nd)); n->v = v; n->l = 0; n->r = 0; return n; }',
           d.pick(['struct nd *ins(struct nd *n, int v) { if (n == 0) return mk(v); if (v %s n->v) n->l = ins(n->l, v); else n->r = ins(n->r, v); return n; }',
                   'struct nd *ins(struct nd *n, int v) { if (n) { if (v %s n->v) { n->l = ins(n->l, v); return n; } n->r = ins(n->r, v); return n; } return mk(v); }',
                   'struct nd *ins(struct nd *n, int v) { struct nd *m = n; if (!n) m = mk(v); else { struct nd *k; k = (v %s n->v) ? (n->l) : (n->r); '
                   'k = ins(k, v); if (v < n->v) n->l = k; else n->r = k; } return m; }'.replace('v < n->v', 'v %s n->v')]).replace('%s', op),
           'void show(struct nd *n, int d) { if (n == 0) return; %s }' % ' '.join(order),
           'int depth(struct nd *n) { int a; int b; if (n == 0) return 0; a = depth(n->l); b = depth(n->r); return 1 + (a > b ? a : b); }',
           'struct nd *mirror(struct nd *n) { struct nd *t; if (!n) return n; t = n->l; n->l = mirror(n->r); n->r = mirror(t); return n; }',
           'struct nd *least(struct nd *n) { if (n->l) return least(n->l); return n; }',
           'int chars(char *s) { if (*s == 0) return 0; return 1 + chars(s + 1); }',
           'void rev(char *s) { if (*s) { rev(s + 1); printf("%c", *s); } }',
           'int pal(char *s, int a, int b) { if (a >= b) return 1; if (s[a] != s[b]) return 0; return pal(s, a + 1, b - 1); }',
           'long sum(struct nd *n, long *acc) { long loc = 0; if (n == 0) return *acc; loc = n->v; *acc += loc; sum(n->l, acc); sum(n->r, &loc); *acc -= loc; return loc; }']
    body = ['struct nd *root; root = 0;', 'int v[%d];' % (ins.count(',') + 1)]
    body += ['v[%d] = %s;' % x for x in enumerate(ins.split(', '))]
    body += ['int i; for (i = 0; i < %d; i++) root = ins(root, v[i]);' % (ins.count(',') + 1)]
    s = ''.join(d.pick('abba') for _ in range(d.int(0, 9)))
    for _ in range(d.int(2, 7)):
        body.append(d.pick(['show(root, 0); printf("\\n");', 'printf("%d\\n", depth(root));', 'root = mirror(root);', 'printf("%d\\n", least(root)->v);',
                            'printf("%%d\\n", chars("%s"));' % s, 'rev("%s"); printf("\\n");' % s,
                            'printf("%%d\\n", pal("%s", 0, %d));' % (s, max(0, len(s) - 1)), '{ long acc = 1; sum(root, &acc); printf("%ld\\n", acc); }',
                            'show(mirror(root->l), depth(root));']))
    return {'src': VHEAD + '\n'.join(fns) + '\nint main() { %s return 0; }\n' % '\n'.join(body), 'f': ['call', 'recursion', 'trees']}


def gen(d):
    if d.chance(1, 5):
        return recursive(d)
    if d.chance(1, 5):
        return d.pick([snapshot, values, values, trees])(d)
    p = Prog(d, nfn=d.int(1, 5), depth=d.int(1, 3), stmts=d.int(2, 4), statics=d.chance(1, 4),
             structs=d.chance(1, 4), size=d.int(10, 40))
    src = p.program()
    return {'src': src, 'f': sorted(p.f)}


def cases():
    return case_strategy(scale.mixed(gen, PROP))


def check(env, case):
    expect_same(env.gcc(case['src']), env.bic(case['src']))
    if case.get('scale'):
        return case['f']
    return case['f'] if 'call' in case['f'] else []
