"""F03: interpreted functions work as C callbacks.

A generated library calls functions of the program with generated signatures, repeatedly, stored for later,
and re-entrantly; callbacks print what they get, change globals and memory they get pointers to."""
from cgen import *
import scale
from engine import expect_same

PROP = 'F03'
COUNTS = {'quick': 2200, 'thorough': 40000}
RULE = ('each case generates a library with 1-3 callback users (direct, stored and fired later, in a table, '
        're-entrant through further callbacks, qsort/bsearch like) and callbacks with 0-10 parameters of 19 types '
        'and 16 return types; the library prints every value it gets back, callbacks print every value they get; '
        'non-trivial: a callback with at least 2 parameters or a return value is invoked at least twice; one case in 14 is extreme in one dimension (lib/scale.py); distinct by '
        'text')
ASSUMPTIONS = ['gcc -O0 is a correct C compiler', 'both programs run against the very same library']

FMT = {t.name: t.fmt for t in INTS}
FMT.update({'float': '%a', 'double': '%a', 'long double': '%La'})
FLOATS = FLOATS + ['long double']
PT = list(FMT) + ['char *', 'int *', 'struct st *', 'void *', 'double *']
HEAD = 'struct st { int a; double b; long c; };\n'


def pval(d, t, k):
    """A C expression of the library for the k-th argument; i is the call number."""
    if t in FLOATS:
        return '(%s)(%d.%s * (i + 1))' % (t, d.int(-50, 50), d.pick(['5', '25', '125', '1']))
    if t in FMT:
        v = value(d, [x for x in INTS if x.name == t][0])
        if v == LONG.lo:
            v += 1
        return '(%s)(%s%s%s)' % (t, v, 'UL' if v > LONG.hi else 'L', d.pick([' + i', ' - i', '']) if abs(v) < 1 << 30 else '')
    if t == 'char *':
        return d.pick(['i % 2 ? "odd" : "even"', '"text"', 'buf'])
    if t == 'int *':
        return '&gi[i % 4]'
    if t == 'double *':
        return '&gd[i % 4]'
    if t == 'struct st *':
        return '&gs[i % 3]'
    return '(void *)&gi[(i + 1) % 4]'


def shown(n, t):
    """Statements of the callback that print and use parameter n."""
    if t in FMT:
        return 'printf(" %s", %s);' % (FMT[t], n)
    if t == 'char *':
        return 'printf(" %%s", %s);' % n
    if t == 'int *':
        return 'printf(" %%d", *%s); *%s = *%s + 3;' % (n, n, n)
    if t == 'double *':
        return 'printf(" %%a", *%s); *%s = 2.5;' % (n, n)
    if t == 'struct st *':
        return 'printf(" %%d %%a %%ld", %s->a, %s->b, %s->c); %s->c += 7; %s->a = 12;' % ((n,) * 5)
    return 'printf(" %%d", *(int *)%s);' % n


class G:
    pass


def gen(d):
    lib = ['extern int printf(const char *f, ...);\nextern void qsort(void *, unsigned long, unsigned long, int (*)(const '
           'void *, const void *));\n' + HEAD +
           'int gi[4] = { 1, 2, 3, 4 }; double gd[4] = { 0.5, 1.5, 2.5, 3.5 }; struct st gs[3] = { { 1, 2.5, 3 }, { 4, 5.5, '
           '6 } };\nchar buf[16] = "buffer";\nint depth;\n'
           'void *seen[10]; void same(void *p) { int i; for (i = 0; i < 10 && seen[i] && seen[i] != p; i++); '
           'if (i < 10) seen[i] = p; printf("function %d\\n", i); }']
    top = ['extern int printf(const char *f, ...);\nextern void qsort(void *b, unsigned long n, unsigned long s, int '
           '(*cmp)(const void *, const void *));\n' + HEAD +
           'extern int gi[4]; extern double gd[4]; extern struct st gs[3]; extern char buf[16];\nint count; long total;']
    body, feats = [], set()
    inv = 0
    for u in range(d.int(1, 3)):
        np = d.pick([0, 1, 1, 2, 2, 3, 4, 6, 10])
        ps = [d.pick(PT) for _ in range(np)]
        ret = d.pick(list(FMT) + ['void', 'char *', 'int *', 'struct st *', 'int', 'int'])
        sig = ', '.join(ps) or 'void'
        mode = d.int(0, 5)
        feats.add(['direct', 'stored', 'table', 'reentrant', 'twice', 'sort'][mode])
        args = ', '.join(pval(d, t, k) for k, t in enumerate(ps))
        if ret == 'void':
            got = 'cb(%s); printf("ret\\n");' % args
        elif ret in FMT:
            got = 'printf("ret %s\\n", cb(%s));' % (FMT[ret], args)
        elif ret == 'char *':
            got = 'printf("ret %%s\\n", cb(%s));' % args
        elif ret == 'int *':
            got = '{ int *r = cb(%s); printf("ret %%d\\n", *r); *r += 1; }' % args
        else:
            got = '{ struct st *r = cb(%s); printf("ret %%d %%ld\\n", r->a, r->c); r->c++; }' % args
        # the callback(s)
        def callback(name, extra=''):
            b = ['printf("%s:");' % name]
            loc = d.chance(1, 2)
            names = ['a%d' % k for k in range(np)]
            if np and d.chance(1, 4):
                # parameters that shadow globals
                names[0] = 'count'
                feats.add('shadow')
            b += [shown(n, t) for n, t in zip(names, ps)]
            b.append('printf("\\n");')
            if 'count' not in names:
                b.append('count++;')
            b.append('total += %d;' % d.int(1, 9))
            b.append(extra)
            ints = [(n, t) for n, t in zip(names, ps) if t in FMT and t not in FLOATS]
            if loc:
                b.append('{ int i; int s; s = 0; for (i = 0; i < 3; i++) { if (i == 2) break; s += i; } total += s; }')
            if ret == 'void':
                if d.chance(1, 3):
                    b.append('if (total > 3) return; total = total + 1;')
            else:
                same = [n for n, t in zip(names, ps) if t == ret]
                if same and d.bool():
                    r = d.pick(same)
                elif ret in FLOATS:
                    r = '%s%d.%s' % (d.pick(['', '-']), d.int(1, 99), d.pick(['5', '75', '1']))
                elif ret in FMT:
                    v = value(d, [x for x in INTS if x.name == ret][0])
                    r = literal(d, v).text if v != LONG.lo else '7'
                    if ret in ('int', 'long', 'long long') and d.chance(1, 4):
                        r = 'total'
                    elif d.chance(1, 5):
                        # converted to the return type
                        r = literal(d, value(d, INT)).text
                elif ret == 'char *':
                    r = d.pick(['"script string"', '""', 'buf'])
                elif ret == 'int *':
                    r = '&gi[%d]' % d.int(0, 3)
                else:
                    r = '&gs[%d]' % d.int(0, 2)
                if d.chance(1, 4) and np and ints:
                    b.append('if (%s > 0) { return %s; }' % (ints[0][0], r))
                elif d.chance(1, 5):
                    b.append('while (1) { for (;;) { return %s; } }' % r)
                b.append('return %s;' % r)
            if d.chance(1, 4):
                # an object that persists from one invocation to the next
                feats.add('static')
                b.insert(0, 'static int calls = %d; static char *last; calls += 2; if (last) printf("%%s", last); last = "again ";' % d.int(0, 9))
                b.insert(-1, 'printf("calls %d\\n", calls);')
            psig = ', '.join(spell(t, n) for t, n in zip(ps, names)) or 'void'
            return '%s %s(%s) { %s }' % (spell(ret, '').strip(), name, psig, ' '.join(b))

        def spell(t, n):
            """Another spelling of the same type."""
            if d.chance(5, 6):
                return '%s %s' % (t, n)
            feats.add('typedef in the signature')
            if t.endswith('*') and n and t != 'void *' and d.bool():
                return '%s %s[%s]' % (t[:-2], n, d.pick(['', '3']))
            td = 'td%d_%d' % (u, len(top))
            top.append('typedef %s %s;' % (t, td))
            if d.bool():
                top.append('typedef %s %s_2;' % (td, td))
                td += '_2'
            return ('%s%s %s' % (d.pick(['', 'const ']) if n else '', td, n)) if not t.endswith('*') else '%s %s' % (td, n)

        def shadowed(text):
            """The call from a scope with objects named like what the callback uses."""
            k = d.int(0, 5)
            if k == 0:
                feats.add('scope of the caller')
                return '{ %s total; char count[3]; total = 77; count[1] = 5; %s printf("local %%ld %%d\\n", (long)total, count[1]); }' % (
                    d.pick(['int', 'short', 'long']), text)
            if k == 1:
                feats.add('scope of the caller')
                return '{ int a0 = 1; char *a1; int gi; int s = 8; gi = 3; a1 = "mine"; for (s = 8; s < 9; s++) { %s } printf("local %%d %%s %%d %%d\\n", a0, a1, gi, s); }' % text
            return text

        cbt = '%s (*cb)(%s)' % (ret, sig)
        n = d.int(1, 5)
        if mode == 5:
            m = d.int(2, 8)
            key = d.pick(['*x - *y', '*y - *x', '(*x % 3) - (*y % 3) != 0 ? (*x % 3) - (*y % 3) : *x - *y'])
            top.append('int cmp%d(const void *p, const void *q) { int *x; int *y; x = (int *)p; y = (int *)q; count++; '
                       'return %s; }' % (u, key))
            body.append('int arr%d[%d];' % (u, m))
            for k in range(m):
                body.append('arr%d[%d] = %d;' % (u, k, d.int(-50, 50)))
            body.append('qsort(arr%d, %d, sizeof(int), &cmp%d);' % (u, m, u))
            body.append('{ int k; for (k = 0; k < %d; k++) printf("%%d ", arr%d[k]); printf("%%d\\n", count); }' % (m, u))
            inv += 2
            feats.add('nt')
            continue
        top.append('extern void use%d(%s, int n);' % (u, 'void *' if mode == 1 and d.bool() and False else
                                                        '%s (*)(%s)' % (ret, sig) if d.bool() else cbt))
        form = '&cb%d' % u
        if mode in (0, 4):
            lib.append('void use%d(%s, int n) { int i; for (i = 0; i < n; i++) %s }' % (u, cbt, got))
            top.append(callback('cb%d' % u))
            for _ in range(1 if mode == 0 else 2):
                k = d.int(0, 3)
                if k == 0:
                    body.append(shadowed('%s (*p%d)(%s); p%d = &cb%d; use%d(p%d, %d);' % (ret, inv + u * 100, sig, inv + u * 100, u, u, inv + u * 100, n)))
                elif k == 1:
                    top.append('typedef %s (*ty%d_%d)(%s);' % (ret, u, inv, sig))
                    body.append(shadowed('ty%d_%d q%d_%d; q%d_%d = &cb%d; use%d(q%d_%d, %d);' % ((u, inv) * 3 + (u, u) + (u, inv) + (n,))))
                else:
                    body.append(shadowed('use%d(&cb%d, %d);' % (u, u, n)))
                inv += n
        elif mode == 1:
            lib.append('static %s (*st%d)(%s); void use%d(%s, int n) { st%d = cb; } void fire%d(int n) { int i; %s = st%d; '
                       'for (i = 0; i < n; i++) %s }' % (ret, u, sig, u, cbt, u, u, cbt, u, got))
            top.append('extern void fire%d(int n);' % u)
            top.append(callback('cb%d' % u))
            # registered from a function that has returned by the time it is used
            top.append('void reg%d() { int loc = 5; use%d(&cb%d, loc); }' % (u, u, u))
            body.append('reg%d();' % u)
            body.append('{ int k; for (k = 0; k < 40; k++) total += k; }')
            body.append(shadowed('fire%d(%d);' % (u, n)))
            inv += n
        elif mode == 2:
            lib.append('struct tb%d { int x; %s; }; void use%d(struct tb%d *t, int n) { int i; for (i = 0; i < n; i++) { %s = '
                       't[i %% 2].cb; %s } }' % (u, cbt, u, u, cbt, got))
            top[-1] = 'struct tb%d { int x; %s; };\nextern void use%d(struct tb%d *t, int n);' % (u, cbt, u, u)
            top.append(callback('cb%d' % u))
            top.append(callback('cc%d' % u))
            body.append('struct tb%d t%d[2]; t%d[0].cb = &cb%d; t%d[1].cb = &cc%d; use%d(t%d, %d);' % (
                u, u, u, u, u, u, u, u, n + 1))
            inv += n + 1
        else:
            lib.append('void use%d(%s, int n) { int i = n; %s if (n > 0) use%d(cb, n - 1); printf("unwind %%d\\n", n); }' % (u, cbt, got, u))
            # the callback calls back into the library with another callback
            top.append('int inner%d(int x) { printf("inner %%d\\n", x); return x * 2; }' % u)
            lib.append('int again%d(int (*f)(int), int x) { int r = f(x); printf("again %%d\\n", r); return r + 1; }' % u)
            top.append('extern int again%d(int (*f)(int), int x);' % u)
            top.append(callback('cb%d' % u, 'if (total < %d) { int r; r = again%d(&inner%d, %d); total += r; }'
                                % (d.int(20, 80), u, u, d.int(1, 5))))
            body.append(shadowed('use%d(&cb%d, %d);' % (u, u, min(n, 3))))
            inv += n + 1
        if d.chance(1, 4):
            # the address of a function is always the same
            feats.add('identity')
            top.append('extern void same(void *p);') if 'extern void same(void *p);' not in top else None
            body.append('{ %s (*z)(%s); z = &cb%d; printf("%%d\\n", z == &cb%d); same(z); same(&cb%d); }' % (ret, sig, u, u, u))
        if (np >= 2 or ret != 'void') and inv >= 2:
            feats.add('nt')
    if d.chance(1, 4):
        # the program calls its own functions through pointers, to any depth
        feats.add('own pointer')
        n = d.int(0, 6)
        top.append('typedef long (*self)(int n, long acc);\nlong rec(int n, long acc) { int before = n; self p; count++; '
                   'if (n <= 0) return acc; p = &rec; if (n %% 2) { acc = p(n - 1, acc * %d + before); } else acc = %s + 1; '
                   'return acc + n - before; }' % (d.int(2, 3), d.pick(['(*p)(n - 1, acc)', 'p(n - 1, acc) - 1', 'rec(n - 1, acc)'])))
        body.append(shadowed('{ self f; f = &rec; printf("own %%ld %%ld\\n", f(%d, %d), (*f)(%d, -1)); }' % (n, d.int(0, 9), d.int(0, 4))))
    end = 'return 0;'
    if d.chance(1, 8):
        # functions called by the C library: at the end of the process, on a signal
        feats.add('atexit')
        top.append('extern int atexit(void (*f)(void));\nextern int at_quick_exit(void (*f)(void));\nextern void quick_exit(int n);\n'
                   'extern int fflush(void *f);\nvoid last() { printf("last %d %ld\\n", count, total); count = count + 10; }\n'
                   'void quick() { printf("quick %d %ld\\n", count, total); fflush((void *)0); }\n'
                   'extern int on_exit(void (*f)(int, void *), void *p);\nextern void exit(int n);\nextern int raise(int s);\n'
                   'extern void *signal(int s, void (*h)(int));\n'
                   'void bye(int s, void *p) { int x = 4; printf("bye %d %d %ld %d %s\\n", s, count, total, x, p); count++; }\n'
                   'void bye2(int s, void *p) { int i; for (i = 0; i < 3; i++) printf("bye2 %d %d\\n", s, i + count); total = 5; }\n'
                   'void onsig(int s) { printf("signal %d\\n", s); count += s; }\n'
                   'int leave(int n) { int count = 99; if (n) return leave(n - 1); exit((int)total % 50); return 0; }')
        for _ in range(d.int(1, 3)):
            if d.bool():
                body.insert(d.int(0, len(body)), d.pick(['printf("%d\\n", atexit(&last));', 'atexit(&last);', 'at_quick_exit(&quick);', '{ void (*h)(void); h = &last; atexit(h); }']))
                continue
            body.insert(d.int(0, len(body)), 'on_exit(&%s, "%s");' % (d.pick(['bye', 'bye2']), d.pick(['first', 'x', 'the end'])))
        if d.bool():
            body.append('signal(10, &onsig); raise(10);' + d.pick(['', ' raise(10);']))
        end = d.pick(['return 0;', 'return leave(%d);' % d.int(0, 5), 'exit(%d);' % d.int(0, 9) + ' return 1;', 'printf("quickly\\n"); fflush((void *)0); quick_exit(%d); return 1;' % d.int(0, 9)])
    body.append('printf("%d %ld\\n", count, total);')
    body.append('{ int k; for (k = 0; k < 4; k++) printf("%d %a ", gi[k], gd[k]); printf("%d %a %ld\\n", gs[1].a, gs[1].b, gs[1].c); }')
    src = '\n'.join(top) + '\nint main() {\n' + '\n'.join(body) + '\n%s\n}\n' % end
    return {'src': src, 'lib': '\n'.join(lib) + '\n', 'f': sorted(feats)}


def cases():
    return case_strategy(scale.mixed(gen, PROP))


def render(case):
    return '/* library */\n%s\n/* script */\n%s' % (case['lib'], case['src'])


def check(env, case):
    lib = env.lib(case['lib'], 'libt')
    expect_same(env.gcc(case['src'], opts=[lib]), env.bic(case['src'], opts=['-l', lib]))
    if case.get('scale'):
        return case['f']
    return case['f'] if 'nt' in case['f'] else []
