"""F02: external variables are shared with the library, in both directions.

A generated library defines variables surrounded by guard objects, setters and a function that prints them
all; the program mixes stores and reads of the script with stores and reads of the library."""
from cgen import *
import scale
from engine import expect_same

PROP = 'F02'
COUNTS = {'quick': 2200, 'thorough': 40000}
RULE = ('each case generates a library with 1-6 variables (integers of 10 types, float, double, long double, char pointers, int '
        'pointers, arrays with and without a size, structs, arrays of structs, unions, pointers to structs, function '
        'pointers), each between guard bytes, and up to 20 interleaved stores and reads by the script (by name, declared directly, through typedefs, with others, '
        'element, member, address, ++, compound assignment, inside functions with a local extern declaration) and by '
        'the library; non-trivial: at least one store by each side that the other side reads; one case in 14 is extreme in one dimension (lib/scale.py); distinct by text')
ASSUMPTIONS = ['gcc -O0 is a correct C compiler', 'both programs run against the very same library']

FMT = {t.name: t.fmt for t in INTS}
FMT.update({'float': '%a', 'double': '%a', 'long double': '%La'})
FLOATS = ['float', 'double', 'long double']
SCAL = [t.name for t in INTS] + FLOATS


class V:
    pass


def gen(d):
    lib = ['extern int printf(const char *f, ...);\nextern void *memset(void *, int, unsigned long);',
           'struct st { char x; int a; double b; long c[2]; };', 'union un { int i; unsigned char c[4]; float f; };',
           'struct st so[3];']
    decl = ['extern int printf(const char *f, ...);', 'struct st { char x; int a; double b; long c[2]; };',
            'union un { int i; unsigned char c[4]; float f; };', 'extern void show(void);', 'extern struct st so[3];']
    show, body, fns, feats = [], [], [], set()
    vs = []
    n = d.int(1, 6)
    lib.append('static int twice(int x) { return 2 * x; }\nstatic int neg(int x) { return -x; }')
    for i in range(n):
        v = V()
        v.n = 'ev%d' % i
        v.kind = d.pick(['sc', 'sc', 'sc', 'arr', 'cptr', 'iptr', 'st', 'starr', 'un', 'sptr', 'fp', 'parr'])
        v.t = d.pick(SCAL)
        feats.add(v.kind)
        v.len = d.int(1, 5)
        ty = {'sc': '%s %s', 'arr': '%s %s[%d]', 'cptr': 'char *%s', 'iptr': 'int *%s', 'st': 'struct st %s',
              'starr': 'struct st %s[%d]', 'un': 'union un %s', 'sptr': 'struct st *%s', 'fp': 'int (*%s)(int)',
              'parr': 'char *%s[%d]'}[v.kind]
        if v.kind == 'sc':
            de = ty % (v.t, v.n)
            init = initval(d, v.t)
            show.append('printf("%s=%s\\n", %s);' % (v.n, FMT[v.t], v.n))
        elif v.kind == 'arr':
            de = ty % (v.t, v.n, v.len)
            init = '{ %s }' % ', '.join(initval(d, v.t) for _ in range(v.len))
            show += ['printf("%s[%d]=%s\\n", %s[%d]);' % (v.n, k, FMT[v.t], v.n, k) for k in range(v.len)]
        elif v.kind == 'cptr':
            de, init = ty % v.n, '"%s"' % d.pick(['', 'abc', 'hello'])
            show.append('printf("%s=%%s\\n", %s);' % (v.n, v.n))
        elif v.kind == 'iptr':
            lib.append('int t%s[3] = { 1, 2, 3 };' % v.n)
            decl.append('extern int t%s[3];' % v.n)
            de, init = ty % v.n, 't%s' % v.n
            show.append('printf("%s=%%d,%%d\\n", (int)(%s - t%s), *%s);' % (v.n, v.n, v.n, v.n))
            show.append('printf("%%d %%d %%d\\n", t%s[0], t%s[1], t%s[2]);' % (v.n, v.n, v.n))
        elif v.kind == 'st':
            de, init = ty % v.n, '{ 1, %d, 2.5, { 3, 4 } }' % d.int(-9, 9)
            show.append('printf("%s=%%d %%d %%a %%ld %%ld\\n", %s.x, %s.a, %s.b, %s.c[0], %s.c[1]);' % ((v.n,) * 6))
        elif v.kind == 'starr':
            de, init = ty % (v.n, v.len), '{ { 1, 5, 0.5, { 3, 4 } } }'
            show += ['printf("%s[%d]=%%d %%d %%a %%ld %%ld\\n", %s[%d].x, %s[%d].a, %s[%d].b, %s[%d].c[0], %s[%d].c[1]);'
                     % ((v.n, k) * 6) for k in range(v.len)]
        elif v.kind == 'un':
            de, init = ty % v.n, '{ 0x01020304 }'
            show.append('printf("%s=%%d %%d %%d\\n", %s.i, %s.c[0], %s.c[3]);' % ((v.n,) * 4))
        elif v.kind == 'sptr':
            de, init = ty % v.n, '&so[%d]' % d.int(0, 2)
            show.append('printf("%s=%%d: %%d %%a\\n", (int)(%s - so), %s->a, %s->b);' % ((v.n,) * 4))
        elif v.kind == 'fp':
            de, init = ty % v.n, d.pick(['twice', 'neg'])
            show.append('printf("%s: %%d\\n", %s(21));' % (v.n, v.n))
        else:
            de, init = ty % (v.n, v.len), '{ "init" }'
            show += ['printf("%s[%d]=%%s\\n", %s[%d] ? %s[%d] : "null");' % ((v.n, k) * 3) for k in range(v.len)]
        lib.append('char pre%d[8] = { 90, 90, 90, 90, 90, 90, 90, 90 };\n%s = %s;\nchar post%d[8] = { 91, 91, 91, 91, 91, '
                   '91, 91, 91 };' % (i, de, init, i))
        show.append('{ int k; for (k = 0; k < 8; k++) if (pre%d[k] != 90 || post%d[k] != 91) printf("guard %s\\n"); }'
                    % (i, i, v.n))
        if v.kind in ('arr', 'starr', 'parr') and d.chance(1, 4):
            de = de.replace('[%d]' % v.len, '[]')
            feats.add('unknown size')
        v.ext = 'extern %s;' % de
        if d.chance(1, 4):
            feats.add('typedef')
            if d.chance(1, 3) and v.kind in ('arr', 'starr', 'parr', 'cptr', 'iptr', 'sptr'):
                # of the base type
                b, _, rest = de.partition(' *' if v.kind in ('parr', 'cptr', 'iptr', 'sptr') else ' ' + v.n)
                decl.append('typedef %s td%d;' % (b, i))
                v.ext = 'extern td%d %s;' % (i, ('*' + rest if v.kind in ('parr', 'cptr', 'iptr', 'sptr') else v.n + rest))
            else:
                decl.append('typedef %s;' % de.replace(v.n, 'td%d' % i))
                v.ext = 'extern td%d %s;' % (i, v.n)
        elif d.chance(1, 6):
            # with another one in the same declaration
            lib.append('%s = %s;' % (de.replace('[]', '[%d]' % v.len).replace(v.n, 'other%d' % i), init))
            base = de.split(v.n)[0].rstrip(' *(')
            v.ext = 'extern %s %s;' % (base, ', '.join(d.shuffle([de[len(base):].strip().replace(v.n, x) for x in (v.n, 'other%d' % i)])))
            feats.add('two declarators')
        v.local = d.chance(1, 5)
        if not v.local:
            decl.append(v.ext)
            if d.chance(1, 4):
                feats.add('redeclared')
                decl.append(v.ext)
        # a setter of the library
        st = libset(d, v)
        lib.append('void set%d(int k) { %s }' % (i, st))
        decl.append('extern void set%d(int k);' % i)
        vs.append(v)
    lib.append('void show(void) { %s }' % '\n'.join(show))
    w = [0, 0, 0]
    for _ in range(d.int(2, 20)):
        i = d.int(0, n - 1)
        v = vs[i]
        k = d.int(0, 9)
        if k <= 1:
            body.append('show();')
            w[2] += w[1]
        elif k <= 4:
            body.append('set%d(%d);' % (i, d.int(0, 20)))
            w[0] += 1
        else:
            s, isread = script(d, v)
            if v.local:
                feats.add('local extern')
                s = '{ %s %s }' % (v.ext, s)
            elif d.chance(1, 6):
                feats.add('redeclared')
                s = '{ %s %s }' % (v.ext, s)
            if d.chance(1, 5):
                fns.append('void u%d() { %s }' % (len(fns), s))
                s = 'u%d();' % (len(fns) - 1)
                feats.add('in function')
            if isread:
                w[2] += w[0]
            else:
                w[1] += 1
            body.append(s)
    body.append('show();')
    src = '\n'.join(decl + fns) + '\nint main() {\n' + '\n'.join(body) + '\nreturn 0;\n}\n'
    return {'src': src, 'lib': '\n'.join(lib) + '\n', 'f': sorted(feats), 'w': w}


def ival(d, t):
    x = [x for x in INTS if x.name == t][0]
    v = value(d, x)
    return v + 1 if v == LONG.lo else v


def initval(d, t):
    if t in FLOATS:
        return '%d.25' % d.int(-99, 99)
    v = ival(d, t)
    return '%d%s' % (v, 'UL' if v > LONG.hi else '')


def sval(d, t):
    if t in FLOATS:
        return '%s%d.%s' % (d.pick(['', '-']), d.int(1, 99), d.pick(['5', '125', '0']))
    return literal(d, ival(d, t)).text


def libset(d, v):
    k = v.kind
    if k == 'sc':
        return '%s = (%s)%s + k;' % (v.n, v.t, initval(d, v.t)) if v.t in FLOATS else '%s = k * %d - 3;' % (v.n, d.int(1, 9999))
    if k == 'arr':
        return '%s[k %% %d] = k + %d;' % (v.n, v.len, d.int(0, 99))
    if k == 'cptr':
        return '%s = k %% 2 ? "odd" : "even";' % v.n
    if k == 'iptr':
        return '%s = &t%s[k %% 3]; *%s += k;' % (v.n, v.n, v.n)
    if k == 'st':
        return '%s.x = k; %s.a -= k; %s.b *= 2; %s.c[k %% 2] += k;' % ((v.n,) * 4)
    if k == 'starr':
        return '%s[k %% %d].a = k; %s[k %% %d].c[1] = k + 1; %s[k %% %d].b = k / 2.0;' % ((v.n, v.len) * 3)
    if k == 'un':
        return '%s.c[k %% 4] = k;' % v.n
    if k == 'sptr':
        return '%s = &so[k %% 3]; %s->a = k; %s->b += 1.5;' % ((v.n,) * 3)
    if k == 'fp':
        return '%s = k %% 2 ? twice : neg;' % v.n
    return '%s[k %% %d] = k %% 3 ? "lib" : "other";' % (v.n, v.len)


def script(d, v):
    """(statement, reads only)"""
    k, n, rd = v.kind, v.n, d.bool()
    lv, t = None, None
    if k == 'sc':
        lv, t = n, v.t
    elif k == 'arr':
        lv, t = '%s[%d]' % (n, d.int(0, v.len - 1)), v.t
        if d.chance(1, 4):
            return 'printf("%%d\\n", (int)sizeof(%s[0]));' % n, True
    elif k == 'st':
        lv, t = d.pick([('%s.x', 'char'), ('%s.a', 'int'), ('%s.b', 'double'), ('%s.c[1]', 'long')])
        lv = lv % (n if d.chance(3, 4) else '(*&%s)' % n)
        if d.chance(1, 6):
            return 'printf("%%d\\n", (int)sizeof(%s));' % n, True
    elif k == 'starr':
        lv, t = d.pick([('%s[%d].x', 'char'), ('%s[%d].a', 'int'), ('%s[%d].b', 'double'), ('%s[%d].c[0]', 'long')])
        lv = lv % (n, d.int(0, v.len - 1))
    elif k == 'un':
        lv, t = d.pick([('%s.i', 'int'), ('%s.c[1]', 'unsigned char'), ('%s.c[3]', 'unsigned char')])
        lv = lv % n
    elif k == 'sptr':
        if not rd and d.bool():
            return '%s = &so[%d];' % (n, d.int(0, 2)), False
        lv, t = d.pick([('%s->a', 'int'), ('%s->b', 'double'), ('%s->c[1]', 'long'), ('(*%s).a', 'int')])
        lv = lv % n
    elif k == 'cptr':
        if rd:
            return 'printf("%%s\\n", %s);' % n, True
        return '%s = "%s";' % (n, d.pick(['script', 'x', ''])), False
    elif k == 'iptr':
        if not rd and d.bool():
            return '%s = &t%s[%d];' % (n, n, d.int(0, 2)), False
        lv, t = '*' + n, 'int'
        if d.chance(1, 3):
            lv = 't%s[%d]' % (n, d.int(0, 2))
    elif k == 'fp':
        return 'printf("%%d\\n", %s(%d));' % (n, d.int(-9, 9)), True
    else:
        i = d.int(0, v.len - 1)
        if rd:
            return 'if (%s[%d]) printf("%%s\\n", %s[%d]);' % (n, i, n, i), True
        return '%s[%d] = "%s";' % (n, i, d.pick(['script', 'x', ''])), False
    if rd:
        return 'printf("%s\\n", %s);' % (FMT[t], lv), True
    j = d.int(0, 5)
    if j == 0:
        return '{ %s *p; p = &%s; *p = %s; }' % (t, lv if lv[0] != '*' else '(%s)' % lv, sval(d, t)), False
    if j == 1:
        p = lv if lv[0] != '*' else '(%s)' % lv
        return d.pick(['%s++;', '--%s;', '++%s;']) % p, False
    if j == 2 and t not in FLOATS:
        return '%s %s %d;' % (lv, d.pick(['+=', '-=', '^=']), d.int(0, 99)), False
    return '%s = %s;' % (lv, sval(d, t)), False


def cases():
    return case_strategy(scale.mixed(gen, PROP))


def render(case):
    return '/* library */\n%s\n/* script */\n%s' % (case['lib'], case['src'])


def check(env, case):
    lib = env.lib(case['lib'], 'libt')
    expect_same(env.gcc(case['src'], opts=[lib]), env.bic(case['src'], opts=['-l', lib]))
    if case.get('scale'):
        return case['f']
    return case['f'] if case['w'][0] and case['w'][1] and case['w'][2] else []
