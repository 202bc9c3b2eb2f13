"""T01: type specifiers and typedefs denote the C type in any spelling.

Oracle: a table of C's type specifier sets (Python) and gcc."""
from cgen import *
import scale
from engine import expect_same

PROP = 'T01'
COUNTS = {'quick': 4500, 'thorough': 60000}
RULE = ('each case is a program of up to 8 uses (object, element, member, parameter, return type, cast, sizeof, '
        'static, auto, register, extern, local typedef) of types spelled as a shuffled multiset of specifiers with qualifiers and '
        'storage classes anywhere, or through chains of typedefs of arithmetic types, pointers, arrays, compounds, '
        'enums and function pointers; non-trivial: a spelling of two or more keywords or a typedef; one case in 14 is extreme in one dimension (lib/scale.py); distinct by text')
ASSUMPTIONS = ['gcc is a correct C compiler for the generated programs']

SPECS = [
    ['char'], ['signed', 'char'], ['unsigned', 'char'],
    ['short'], ['signed', 'short'], ['short', 'int'], ['signed', 'short', 'int'],
    ['unsigned', 'short'], ['unsigned', 'short', 'int'],
    ['int'], ['signed'], ['signed', 'int'], ['unsigned'], ['unsigned', 'int'],
    ['long'], ['signed', 'long'], ['long', 'int'], ['signed', 'long', 'int'],
    ['unsigned', 'long'], ['unsigned', 'long', 'int'],
    ['long', 'long'], ['signed', 'long', 'long'], ['long', 'long', 'int'], ['signed', 'long', 'long', 'int'],
    ['unsigned', 'long', 'long'], ['unsigned', 'long', 'long', 'int'],
    ['float'], ['double'], ['long', 'double'],
]
FMT = {'float': '%.9g', 'double': '%.17g', 'ldouble': '%.20Lg'}


def arith(specs):
    """The kind of a specifier set: a T, or a float name."""
    s = sorted(specs)
    if 'float' in s:
        return 'float'
    if 'double' in s:
        return 'ldouble' if 'long' in s else 'double'
    uns = 'unsigned' in s
    if 'char' in s:
        return UCHAR if uns else CHAR
    if 'short' in s:
        return USHORT if uns else SHORT
    n = s.count('long')
    return ([INT, LONG, LLONG], [UINT, ULONG, ULLONG])[uns][n]


def spell(d, specs, quals=True):
    toks = list(specs)
    if quals:
        for _ in range(d.int(0, 2)):
            toks.append(d.pick(['const', 'volatile', 'volatile']))
        if toks.count('const') > 1:
            toks.remove('const')
    return d.shuffle(toks)


class Ty:
    """kind: arithmetic (T or float name), ptr, arr, st, en, fp; text: how to name it."""

    def __init__(self, kind, text, const=False, base=None, n=0):
        self.kind, self.text, self.const, self.base, self.n = kind, text, const, base, n


def gen(d):
    glob, body, feats = ['struct st { char a; long b; short c; };', 'union un { char a; int b; };',
                         'enum en { E0, E1, E2 };', 'int fn1(int x) { return x + 1; }'], [], set()
    types = []   # typedef names available at file scope
    nt = False

    def fresh(storage_ok=True):
        nonlocal nt
        if types and d.chance(2, 5):
            feats.add('typedef')
            nt = True
            t = d.pick(types)
            if d.chance(1, 5) and not isinstance(t.kind, str):
                return Ty(t.kind, d.pick(['const %s', '%s const', 'volatile %s']) % t.text, True, t.base, t.n)
            return t
        sp = d.pick(SPECS)
        toks = spell(d, sp)
        if len(toks) > 1:
            nt = True
            feats.add('%d keywords' % len(toks))
        return Ty(arith(sp), ' '.join(toks), 'const' in toks)

    def typedef(i):
        nonlocal nt
        nt = True
        feats.add('typedef')
        name = 'td%d' % i
        k = d.int(0, 9)
        words = lambda t: ' '.join(d.shuffle(['typedef'] + t.split()) if d.bool() and '(' not in t and 'struct' not in t
                                   and 'enum' not in t and 'union' not in t else ['typedef', t])
        if k <= 4:
            t = fresh()
            glob.append('%s %s;' % (words(t.text), name))
            n = Ty(t.kind, name, t.const, t.base, t.n)
            feats.add('chain')
        elif k == 5:
            t = fresh()
            if t.kind in ('arr', 'fp', 'st', 'un', 'en'):
                t = Ty(INT, 'int')
            stars = '*' * d.int(1, 2)
            glob.append('typedef %s %s%s;' % (t.text, stars, name))
            n = Ty('ptr', name, False, t, len(stars))
            feats.add('ptr typedef')
        elif k == 6:
            t = fresh()
            if not isinstance(t.kind, T):
                t = Ty(INT, 'int')
            ln = d.int(1, 5)
            glob.append('typedef %s %s[%d];' % (t.text.replace('const', ''), name, ln))
            n = Ty('arr', name, False, t, ln)
            feats.add('array typedef')
        elif k == 7:
            w = d.int(0, 2)
            if w == 0:
                glob.append('typedef struct st %s;' % name)
            elif w == 1:
                glob.append('typedef struct st%d { char a; long b; short c; } %s;' % (i, name))
            else:
                glob.append('typedef struct { char a; long b; short c; } %s;' % name)
            n = Ty('st', name)
            feats.add('struct typedef')
        elif k == 8:
            w = d.int(0, 1)
            if w:
                glob.append('typedef enum en %s;' % name)
                n = Ty(UINT, name)
            else:
                glob.append('typedef union un %s;' % name)
                n = Ty('un', name)
            feats.add('enum/union typedef')
        else:
            glob.append('typedef int (*%s)(int);' % name)
            n = Ty('fp', name)
            feats.add('fnptr typedef')
        types.append(n)

    def stor(text, reg=True, where=('auto', 'register', 'static')):
        # a storage class, before the type or anywhere between its words
        if d.chance(3, 5):
            return text
        w = d.pick([x for x in where if reg or x != 'register'])
        feats.add(w)
        toks = text.split()
        if '(' in text or set(toks) & {'struct', 'union', 'enum'}:
            return w + ' ' + text
        toks.insert(d.int(0, len(toks)), w)
        return ' '.join(toks)

    def val(kind):
        if isinstance(kind, T):
            v = d.pick([-1, 200, 40000, 70000, 3000000000, kind.hi, kind.lo + 1 if kind.signed else 5, d.int(-300, 300)])
            return literal(d, v).text
        return d.pick(['1', '0.1', '-2.5', '16777217', '3.999999999', '-7'])

    def fmt(kind):
        return kind.fmt if isinstance(kind, T) else FMT[kind]

    for i in range(d.int(0, 4)):
        typedef(i)
    for i in range(d.int(1, 8)):
        t = fresh()
        o = 'o%d' % i
        k = t.kind
        if k == 'ptr':
            b = t.base
            isa = isinstance(b.kind, T) or b.kind in FMT
            if t.n == 1 and isa:
                glob.append('%s q%d;' % (b.text.replace('const', ''), i))
                body.append('{ %s p = &q%d; q%d = %s; printf("%%d %s\\n", (int)sizeof(p), *p); }'
                            % (stor(t.text), i, i, val(b.kind), fmt(b.kind)))
            body.append('{ %s p; printf("%%d %%d\\n", (int)sizeof(%s), (int)sizeof(p)); }' % (t.text, t.text))
            continue
        if k == 'arr':
            b = t.base
            body.append('{ %s v; v[%d] = %s; printf("%s %%d %%d\\n", v[%d], (int)sizeof(v), (int)sizeof(v[0])); }'
                        % (stor(t.text, False), t.n - 1, val(b.kind), fmt(b.kind), t.n - 1))
            continue
        if k in ('st', 'un'):
            m = d.pick(['a', 'b'])
            body.append('{ %s v; %s *p; p = &v; p->%s = %d; printf("%%d %%d %%d\\n", (int)v.%s, (int)sizeof(v), '
                        '(int)sizeof(%s)); }' % (stor(t.text, False), stor(t.text), m, d.int(-3, 99), m, t.text))
            continue
        if k == 'fp':
            body.append('{ %s v = &fn1; printf("%%d %%d\\n", v(%d), (int)sizeof(%s)); }' % (stor(t.text), d.int(0, 99), t.text))
            continue
        v, f = val(k), fmt(k)
        use = d.int(0, 10)
        feats.add('use%d' % use)
        if use == 0:
            body.append('{ %s %s = %s; printf("%s %%d\\n", %s, (int)sizeof(%s)); }' % (stor(t.text), o, v, f, o, o))
        elif use == 1:
            glob.append('%s %s(void) { return %s; }' % (t.text, o, v))
            body.append('printf("%s\\n", %s());' % (f, o))
        elif use == 2:
            glob.append('void %s(%s x, int y) { printf("%s %%d %%d\\n", x, (int)sizeof(x), y); }' % (o, stor(t.text, True, ('register',)), f))
            body.append('%s(%s, 4);' % (o, v))
        elif use == 3 and not t.const:
            glob.append('struct s%d { char c; %s m; char e; };' % (i, t.text))
            body.append('{ struct s%d v; v.e = 1; v.m = %s; printf("%s %%d %%d\\n", v.m, (int)sizeof(v), v.e); }' % (i, v, f))
        elif use == 4 and not t.const:
            body.append('{ %s v[3]; v[1] = %s; v[2] = 1; printf("%s %%d\\n", v[1], (int)sizeof(v)); }' % (stor(t.text, False), v, f))
        elif use == 5:
            body.append('printf("%s\\n", (%s)%s);' % (f, t.text, v if v[0] != '-' else '(%s)' % v))
        elif use == 6:
            body.append('printf("%%d\\n", (int)sizeof(%s));' % t.text)
        elif use == 7 and not types:
            toks = t.text.split() + [d.pick(['static', 'auto', 'register'])]
            body.append('{ %s v = %s; printf("%s\\n", v); }' % (' '.join(d.shuffle(toks)), v, f))
        elif use == 8:
            toks = ['static'] + t.text.split()
            glob.append('%s g%d;' % (' '.join(toks), i))
            if not t.const:
                body.append('g%d = %s; printf("%s\\n", g%d);' % (i, v, f, i))
        elif use == 9:
            body.append('{ %s v = %s; %s *p = &v; printf("%s %%d\\n", *p, (int)sizeof(p)); }' % (stor(t.text, False), v, stor(t.text), f))
        elif isinstance(k, T):
            # signedness: a right shift and a comparison see the sign
            body.append('{ %s v = %s; %s w = v; printf("%%ld %%d\\n", w >> 3, w < 0); }' % (stor(t.text), v, stor('long')))
        else:
            body.append('{ %s v = %s; double w = v; printf("%%.17g\\n", w); }' % (t.text, v))
    src = 'extern int printf(const char *f, ...);\n' + '\n'.join(glob) + '\nint main() {\n' + \
        '\n'.join(body) + '\nreturn 0;\n}\n'
    return {'src': src, 'f': sorted(feats), 'nt': nt}


def cases():
    return case_strategy(scale.mixed(gen, PROP))


def check(env, case):
    expect_same(env.gcc(case['src']), env.bic(case['src']))
    if case.get('scale'):
        return case['f']
    return case['f'] if case['nt'] else []
