"""T02: structs and unions have the platform ABI's size and member offsets.  Oracle: gcc."""
from cgen import *
from ctypesgen import *
import scale
from engine import expect_same

PROP = 'T02'
COUNTS = {'quick': 4000, 'thorough': 50000}
RULE = ('each case defines 1-5 random struct/union types (15 scalar types, pointers, function pointers, arrays, '
        'arrays up to 70001 elements, nested/inline/anonymous-tag/typedef/forward/self-referential) and prints sizes of types, objects, pointees, '
        'members, offsets of all members by address, the element distance of arrays and the bytes of a filled '
        'object; non-trivial: a type whose size is not the sum of its parts (padding) or a nested or array member; '
        'one case in 14 is extreme in one dimension (lib/scale.py); distinct by program text')
ASSUMPTIONS = ['gcc implements the platform ABI; padding bytes are compared as zero (objects are cleared with memset)']


def gen(d):
    g = TGen(d, True)
    for _ in range(d.int(1, 5)):
        g.compound(d.int(0, 2))
    body = []
    for k, t in enumerate(g.named[-4:]):
        o = 'o%d' % k
        g.out.append(t.declare(o) + ';')
        g.out.append(t.declare('%sa[3]' % o) + ';')
        g.out.append('%s *%sp;' % (t.text, o))
        body.append('%sp = &%s;' % (o, o))
        body.append('printf("%s %%d %%d %%d %%d %%d\\n", (int)sizeof(%s), (int)sizeof(%s), (int)sizeof(*%sp), '
                    '(int)sizeof(%sa), (int)sizeof(%sp));' % (o, t.text, o, o, o, o))
        body.append('printf("%%d %%d\\n", (int)((char *)&%sa[1] - (char *)&%sa[0]), (int)((char *)&%sa[2] - (char *)'
                    '&%sa[0]));' % (o, o, o, o))
        ps = paths(t, o)
        sel = ps if len(ps) <= 14 else [ps[(i * len(ps)) // 14] for i in range(14)]
        for p, m in sel:
            if m.kind in ('st', 'un', 'sc', 'ptr', 'pp', 'fp'):
                q = p
                if d.chance(1, 3) and '.' in p:
                    q = p.replace(o + '.', o + 'p->', 1)
                    body.append('printf("%%d ", (int)((char *)&%s - (char *)%sp));' % (q, o))
                else:
                    body.append('printf("%%d ", (int)((char *)&%s - (char *)&%s));' % (q, o))
            if m.kind != 'arr' or not p.endswith(']'):
                body.append('printf("(%%d) ", (int)sizeof(%s));' % p)
        if t.kind == 'st':
            # fill the object and look at its bytes; pointers are not printed
            body.append('memset(&%s, 0, sizeof(%s));' % (o, o))
            for p, m in ps[:20]:
                if m.kind == 'sc' and m.text != 'long double':
                    body.append('%s = %d;' % (p, d.int(1, 100)))
                elif m.kind == 'ptr' or m.kind == 'pp':
                    body.append('%s = 0;' % p)
            body.append('if ((int)sizeof(%s) <= 600) { unsigned char *b; int i; b = (unsigned char *)&%s; for (i = 0; i < %s; i++) printf("%%02x", '
                        'b[i]); puts(""); }' % (o, o, 'sizeof(%s)' % o))
            # a copy made by compiled code
            body.append('memcpy(&%sa[1], &%s, sizeof(%s));' % (o, o, o))
            for p, m in ps[:6]:
                if m.kind == 'sc' and m.text != 'long double':
                    body.append('printf("%s ", %s);' % (FMTS[m.text], p.replace(o, o + 'a[1]', 1)))
        body.append('puts("");')
    src = ('extern int printf(const char *f, ...);\nextern int puts(const char *s);\n'
           'extern void *memset(void *s, int c, unsigned long n);\n'
           'extern void *memcpy(void *d, void *s, unsigned long n);\n') + '\n'.join(g.out) + \
        '\nint main() {\n' + '\n'.join(body) + '\nreturn 0;\n}\n'
    return {'src': src, 'f': sorted(g.f)}


def cases():
    return case_strategy(scale.mixed(gen, PROP))


def check(env, case):
    expect_same(env.gcc(case['src']), env.bic(case['src']))
    if case.get('scale'):
        return case['f']
    f = set(case['f'])
    return case['f'] if len(f) >= 2 else []
