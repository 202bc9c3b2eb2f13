"""C03: names resolve lexically; static and global objects persist.  Oracle: gcc."""
from cgen import *
from progs import Prog
import scale
from engine import expect_same

PROP = 'C03'
COUNTS = {'quick': 4500, 'thorough': 60000}
RULE = ('each case is a random program over a pool of 2-4 names (some are long and differ in the last characters only) used for globals, parameters, locals, statics and '
        'loop variables of nested scopes, in functions that call each other, over declarations of lists of names '
        'or over tags, or over the tags, enumerators and lengths that the types of an outer scope are made of; non-trivial: a declaration shadows another, a type is completed behind a pointer, or a static local is used across calls; one case in 14 is extreme in one dimension (lib/scale.py); distinct by program text')
ASSUMPTIONS = ['gcc -O0 is a correct C compiler for the generated programs']


POOLS = [['a', 'b', 'c', 'd'], ['a', 'b', 'c', 'd'], ['a', 'aa', 'A', 'aA'], ['_', '_1', '__', 'x_1'],
         ['p' * n + s for n, s in ((7, 'a'), (7, 'b'), (7, 'bc'), (7, ''))],
         ['a_name_of_more_than_31_characters_' + s for s in ('1', '2', 'x', '12')],
         ['q' * 63 + s for s in ('1', '2', '', '12')], ['n' * 127 + s for s in ('1', '2', '3', '')],
         ['z' * 255 + s for s in ('1', '2', '3', '')]]


def gen(d):
    k = d.int(0, 13)
    if k >= 12:
        return types(d)
    if k <= 1:
        return statics(d)
    if k == 2:
        return tags(d)
    if k == 3:
        return decls(d)
    p = Prog(d, nfn=d.int(1, 4), depth=d.int(1, 4), stmts=d.int(2, 4), pool=d.pick(POOLS)[:d.int(2, 4)],
             structs=d.chance(1, 3), size=d.int(10, 40), recursion=d.chance(1, 2))
    src = p.program()
    return {'src': src, 'f': sorted(p.f)}


def statics(d):
    """Static locals of several functions and blocks with the same name."""
    fns, calls = [], []
    nf = d.int(1, 3)
    for i in range(nf):
        t = d.pick(['int', 'long', 'char', 'unsigned char', 'short'])
        kind = d.int(0, 5)
        iv = d.int(0, 90)
        init = ' = %d' % iv if d.chance(3, 4) else ''
        if kind == 0:
            b = 'static %s v%s; v += %d; return v;' % (t, init, d.int(1, 3))
        elif kind == 1:
            b = 'if (k) { static %s v%s; v++; return v; } static int v = %d; v += 2; return v;' % (t, init, d.int(0, 50))
        elif kind == 2:
            b = 'int i; int r = 0; for (i = 0; i < %d; i++) { static %s v%s; v += i; r += v; } return r %% 10007;' % (
                d.int(1, 3), t, init)
        elif kind == 3:
            b = 'static %s %s; v++; w += v; { int v = 5; v++; w += v; } return w %% 1009;' % (
                t, ', '.join(d.shuffle(['v' + init, 'w = %d' % d.int(0, 9)] + ['*z', 'y[2]', 'x'][:d.int(0, 3)])))
        elif kind == 4:
            b = 'static int v[3]; static struct s w; v[k %% 3]++; w.m += v[1]; return v[0] + w.m * 10 + v[2] * 100;' \
                .replace('%%', '%')
        else:
            b = 'static %s v%s; static %s *p; if (k == 0) p = &v; *p += 1; return *p;' % (t, init, t)
        glob = ' g++; v = v + 1;' if False else ''
        fns.append('int f%d(int k) { tick(); %s%s }' % (i, glob, b))
    for _ in range(d.int(2, 12)):
        calls.append('printf("%%d\\n", f%d(%d));' % (d.int(0, nf - 1), d.int(0, 2)))
    # pointers into statics need k == 0 first
    first = ' '.join('f%d(0);' % i for i in range(nf))
    src = 'extern int printf(const char *f, ...);\nint steps; void tick(void) { steps++; }\nstruct s { char c; int m; };' \
          '\nint v = 77, w = 50, x = 1, y = 2, z = 3;\n' + '\n'.join(fns) + '\nint main() { int v = 3; %s %s printf("%%d %%d %%d %%d\\n", v, steps, w, x + y + z); ' \
          'return 0; }\n' % (first, ' '.join(calls))
    return {'src': src, 'f': ['static', 'statictemplate']}


def tags(d):
    """Tags of structures and unions in nested scopes."""
    out, scopes, n, f = [], [], [0], {'tag'}
    pool = [('struct', 'S'), ('union', 'U'), ('struct', 'T')][:d.int(1, 3)]
    out_top = []

    def members(kw):
        n[0] += 1
        return '{ %s }' % ' '.join('%s m%d%s;' % (d.pick(['char', 'short', 'int', 'long']), j, d.pick(['', '', '[%d]' % d.int(1, 9)]))
                                   for j in range(d.int(1, 3)))

    def visible(k):
        for s in reversed(scopes):
            if k in s:
                return s[k]
        return None

    def stmt(lines, top, depth):
        k = d.pick(pool)
        name = '%s %s' % k
        here, vis = scopes[-1].get(k), visible(k)
        op = d.int(0, 6)
        if op == 0 and here is None:
            if vis:
                f.add('shadow')
            scopes[-1][k] = {'complete': False}
            lines.append(name + ';')
        elif op == 1 and (here is None or not here['complete']):
            if vis and not here:
                f.add('shadow')
            scopes[-1].setdefault(k, {})['complete'] = True
            n[0] += 1
            v = 'v%d' % n[0]
            lines.append('%s %s%s;' % (name, members(k[0]), ' ' + v if d.bool() else ''))
        elif op == 2 or (op == 5 and top):
            n[0] += 1
            v = 'p%d' % n[0]
            if vis is None:
                vis = scopes[-1][k] = {'complete': False}
            lines.append('%s *%s;' % (name, v))
            scopes[-1][v] = vis
        elif op == 3 and vis and vis['complete']:
            n[0] += 1
            v = 'o%d' % n[0]
            lines.append('%s %s;' % (name, v))
            if not top:
                lines.append('printf("%%d\\n", (int)sizeof(%s));' % v)
        elif not top and op == 4 and vis and vis['complete']:
            lines.append('printf("%%d\\n", (int)sizeof(%s));' % name)
        elif not top and op == 6 and depth < 3:
            scopes.append({})
            sub = []
            for _ in range(d.int(1, 5)):
                stmt(sub, False, depth + 1)
            scopes.pop()
            lines.append(d.pick(['{ %s }', 'if (1) { %s }', 'for (int i = 0; i < 2; i++) { %s }']) % ' '.join(sub))
        elif not top:
            ps = [(v, s[v]) for s in scopes for v in s if isinstance(v, str)]
            ps = [v for v, t in ps if t['complete']]
            if ps:
                f.add('via pointer')
                lines.append('printf("%%d\\n", (int)sizeof(*%s));' % d.pick(ps))

    scopes.append({})
    for _ in range(d.int(0, 5)):
        stmt(out_top, True, 0)
    scopes.append({})
    for _ in range(d.int(3, 12)):
        stmt(out, False, 0)
    src = 'extern int printf(const char *f, ...);\n' + '\n'.join(out_top) + '\nint main() {\n' + '\n'.join(out) + \
        '\nreturn 0;\n}\n'
    return {'src': src, 'f': sorted(f)}


def decls(d):
    """Declarations of several declarators, with initialisers that refer to the names
    declared so far, to the ones that they hide and to enumerators."""
    f = {'list'}
    names = d.pick(POOLS) + ['e']
    glob, fns, body = [], [], []
    vis = {}

    def decllist(sc, depth, static=False, top=False):
        out, new = [], {}
        for v in d.shuffle(names)[:d.int(1, 4)]:
            if v in sc:
                continue
            if v in vis:
                f.add('shadow')
            w = d.int(0, 4)
            if w == 0:
                new[v] = 'arr'
                out.append('%s[%d]' % (v, d.int(1, 3)))
            elif w == 1 and [x for x in list(vis) + list(new) if dict(vis, **new)[x] == 'int' and x != v] and not (top or static):
                x = d.pick(sorted(x for x in list(vis) + list(new) if dict(vis, **new)[x] == 'int' and x != v))
                out.append('*%s = &%s' % (v, x))
                new[v] = 'ptr'
            else:
                init = str(d.int(0, 99))
                # (an object is not used in its own initialiser)
                ok = [] if static or top else [x for x in list(vis) + list(new) if dict(vis, **new)[x] == 'int' and x != v]
                if ok and d.bool():
                    init = d.pick(sorted(set(ok))) + ' + ' + init
                out.append('%s = %s' % (v, init))
                new[v] = 'int'
            sc.add(v)
            vis[v] = new[v]
        if not out:
            return []
        return ['%sint %s;' % ('static ' if static else '', ', '.join(out))] + \
            ([] if top else [v + '[0] = %d;' % d.int(0, 9) for v, k in new.items() if k == 'arr' and not static])

    def show():
        e = []
        for v, k in sorted(vis.items()):
            e.append({'int': v, 'arr': '%s[0]' % v, 'ptr': '*' + v}[k])
        return 'printf("%s\\n"%s);' % (' '.join(['%d'] * len(e)), ''.join(', ' + x for x in e))

    def block(depth):
        nonlocal vis
        saved, sc, out = dict(vis), set(), []
        for _ in range(d.int(1, 4)):
            k = d.int(0, 5)
            if k <= 1:
                st = d.chance(1, 3)
                if st:
                    f.add('static')
                out += decllist(sc, depth, st)
            elif k == 2 and depth < 3:
                out += ['{'] + block(depth + 1) + ['}']
            elif k == 3 and depth < 3:
                v = d.pick(names)
                old = dict(vis)
                out.append('for (int %s = %d; %s < %d; %s++) {' % (v, d.int(0, 1), v, d.int(1, 3), v))
                vis[v] = 'int'
                out += block(depth + 1) + ['}']
                vis = old
            elif k == 4:
                ok = sorted(v for v, t in vis.items() if t == 'int')
                if ok:
                    v = d.pick(ok)
                    out.append('%s = (%s + %d) %% 1000;' % (v, v, d.int(1, 20)))
            out.append(show() if vis else ';')
        vis = saved
        return out

    tops = set()
    glob += decllist(tops, 0, d.bool(), True)
    saved = dict(vis)
    par = d.shuffle(names)[:d.int(1, 2)]
    for v in par:
        vis[v] = 'int'
    # a function body shares its scope with the parameters
    fns.append('int fn(%s) {\n%s\nreturn %s;\n}' % (', '.join('int ' + v for v in par), '\n'.join(['{'] + block(1) + ['}']), par[0]))
    vis = saved
    body = block(0)
    for _ in range(d.int(0, 3)):
        body.insert(d.int(0, 0), 'printf("%%d\\n", fn(%s));' % ', '.join(str(d.int(0, 50)) for _ in par))
    src = 'extern int printf(const char *f, ...);\n' + '\n'.join(glob + fns) + '\nint main() {\n' + '\n'.join(body) + \
        '\nreturn 0;\n}\n'
    return {'src': src, 'f': sorted(f)}


def types(d):
    """A type means what its parts meant where it was declared, whatever the scope that uses it calls by these names."""
    f = {'types'}
    cnt = [0]

    def uid():
        cnt[0] += 1
        return cnt[0]

    def enum(force=False):
        ns = [n for n in ('N', 'M', 'K') if force or d.bool()]
        return 'enum { %s };' % ', '.join('%s = %d' % (n, d.int(1, 9)) for n in ns) if ns else ''

    def compound(tag):
        kw = 'struct' if tag[0] == 'T' else 'union'
        mem = ['%s %s%s;' % (d.pick(['char', 'short', 'int', 'long', 'double', 'unsigned char']), m,
                             d.pick(['', '', '[2]', '[N]', '[M + 1]'])) for m in d.shuffle(['a', 'b', 'c', 'd'])[:d.int(1, 4)]]
        return '%s %s { %s };' % (kw, tag, ' '.join(mem))

    # the types of the file
    top = [enum(True), compound('T'), compound('U'), 'enum E { E0, E1 = %s };' % d.pick(['4', '-1', '100'])]
    parts = {'T': d.bool(), 'U': d.bool()}
    tds, exprs = [], []

    def lens():
        return d.pick(['N', 'M', 'K', 'N + 1', 'M * 2', 'K - 0', '(N)', 'sizeof(struct T)', 'E1 * 0 + N', 'sizeof(union U) + M'])

    for i in range(d.int(1, 3)):
        b = d.pick(['char', 'short', 'int', 'long', 'struct T', 'union U', 'struct T *', 'enum E'])
        top.append('typedef %s A%d[%s];' % (b, i, lens()))
        tds.append('A%d' % i)
    members = []
    for i in range(d.int(2, 7)):
        k = d.int(0, 10)
        m = 'm%d' % i
        if k == 0:
            members.append(('struct T %s;' % m, m, 't'))
        elif k == 1:
            members.append(('union U %s;' % m, m, 'o'))
        elif k == 2:
            members.append(('%s %s[%s];' % (d.pick(['int', 'char', 'long', 'short']), m, lens()), m, 'v'))
        elif k == 3:
            members.append(('%s %s;' % (d.pick(tds), m), m, 'o'))
        elif k == 4:
            members.append(('struct I%d { %s i; char j[%s]; } %s;' % (i, d.pick(['int', 'long', 'char']), lens(), m), m, 'i'))
        elif k == 5:
            members.append(('struct T *%s;' % m, m, 'p'))
        elif k == 6:
            members.append(('enum E %s;' % m, m, 'e'))
        elif k == 7:
            members.append(('int (*%s[%s])(int);' % (m, lens()), m, 'o'))
        elif k == 8:
            members.append(('struct T %s[%s];' % (m, lens()), m, 'ta'))
        elif k == 9:
            members.append(('struct { struct T x; char q[%s]; } %s;' % (lens(), m), m, 'x'))
        else:
            members.append(('struct S *%s;' % m, m, 's'))
    S = 'struct S { %s };' % ' '.join(t for t, m, k in members)
    if d.chance(1, 3):
        S = 'struct S;\n' + S
        f.add('forward')
    td = d.bool()
    top.append(S)
    if td:
        top.append('typedef struct S ST;')
        top.append('typedef struct T TT;')
    spec = lambda: 'ST' if td and d.bool() else 'struct S'

    def layout(o, n):
        """sizes and offsets of an object of type S"""
        out = ['printf("%%d", (int)sizeof(%s));' % o]
        for t, m, k in members:
            out.append('printf(" %%d", (int)sizeof(%s.%s));' % (o, m))
            if k == 'x':
                out.append('printf(",%%d,%%d", (int)sizeof(%s.%s.x), (int)sizeof(%s.%s.q));' % (o, m, o, m))
            if k == 'i':
                out.append('printf(",%%d", (int)sizeof(%s.%s.j));' % (o, m))
            if k == 'p':
                out.append('printf(",%%d", (int)sizeof(*%s.%s));' % (o, m))
            if k == 'ta':
                out.append('printf(",%%d", (int)sizeof(%s.%s[0]));' % (o, m))
        out.append('printf("\\n");')
        return ' '.join(out)

    def use(o):
        """every part is storage of its own"""
        out, rd = [], []
        for t, m, k in members:
            v = d.int(1, 100)
            if k == 'i':
                out.append('%s.%s.i = %d; %s.%s.j[0] = %d;' % (o, m, v, o, m, v + 1))
                rd += ['%s.%s.i' % (o, m), '%s.%s.j[0]' % (o, m)]
            elif k == 'v':
                out.append('%s.%s[0] = %d;' % (o, m, v))
                rd.append('%s.%s[0]' % (o, m))
            elif k == 'e':
                out.append('%s.%s = %d;' % (o, m, v))
                rd.append('%s.%s' % (o, m))
            elif k == 'x':
                out.append('%s.%s.q[0] = %d;' % (o, m, v))
                rd.append('%s.%s.q[0]' % (o, m))
            elif k == 's':
                out.append('%s.%s = &%s;' % (o, m, o))
                rd.append('%s.%s == &%s' % (o, m, o))
        return ' '.join(out) + ' ' + ' '.join('printf("%%d ", (int)%s);' % r for r in rd) + ' printf("\\n");'

    def scope(depth):
        out = []
        for x in d.shuffle(['enum', 'T', 'U', 'I', 'E'])[:d.int(0, 5)]:
            if x == 'enum':
                out.append(enum())
            elif x == 'E':
                out.append('enum E { F%d = %s };' % (uid(), d.pick(['1', '-1', '7'])))
            elif x == 'I':
                out += ['struct I%d { char z[%d]; };' % (i, d.int(1, 50)) for i in range(7) if d.bool()]
            else:
                out.append(compound(x))
        for _ in range(d.int(1, 3)):
            o = 'o%d' % uid()
            k = d.int(0, 4)
            if k <= 1:
                out.append('%s %s; %s' % (spec(), o, layout(o, 0)))
                if d.bool():
                    out.append(use(o))
            elif k == 2:
                t = d.pick(tds)
                out.append('%s %s; printf("%%d %%d %%d\\n", (int)sizeof(%s), (int)sizeof(%s[0]), (int)sizeof(%s));' % (t, o, o, o, t))
            elif k == 3:
                t = d.pick(['struct T', 'union U'] + (['TT'] if td else []))
                out.append('%s %s; printf("%%d %%d\\n", (int)sizeof(%s), (int)sizeof(%s));' % (t, o, o, t))
            else:
                out.append('%s *%s; printf("%%d\\n", (int)sizeof(*%s));' % (spec(), o, o))
        if depth < 3 and d.bool():
            out += [d.pick(['{', 'if (1) {', 'for (i = 0; i < 2; i++) {', 'for (i = 0; i < 1; i++) {'])] + scope(depth + 1) + ['}']
            if d.bool():
                o = 'o%d' % uid()
                out.append('%s %s; %s' % (spec(), o, layout(o, 0)))
        return out

    fn = 'void fn() {\nint i;\n%s\n}' % '\n'.join(scope(1))
    body = ['int i;'] + d.pick([['fn();'], ['fn();', 'fn();'], []]) + scope(0) + d.pick([['fn();'], []])
    src = 'extern int printf(const char *f, ...);\n' + '\n'.join(top) + '\n' + fn + '\nint main() {\n' + '\n'.join(body) + '\nreturn 0;\n}\n'
    return {'src': src, 'f': sorted(f)}


def cases():
    return case_strategy(scale.mixed(gen, PROP))


def check(env, case):
    expect_same(env.gcc(case['src']), env.bic(case['src']))
    if case.get('scale'):
        return case['f']
    return case['f'] if set(case['f']) & {'shadow', 'static', 'via pointer', 'types'} else []
