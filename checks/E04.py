"""E04: ++, -- and compound assignment update and yield the right value."""
from cgen import *
import scale
from engine import expect_same

PROP = 'E04'
COUNTS = {'quick': 4500, 'thorough': 60000}
RULE = ('each case is a program with up to 5 objects (integers of 10 types, float, double, pointers to 7 element '
        'types; reached as variables, elements, members, pointees, globals, statics) and up to 14 updates on '
        'them, printing the yielded value and every object after each; non-trivial: an update of a value at the '
        'edge of its type, of a pointer, or at least 3 updates of one object; one case in 14 is extreme in one dimension (lib/scale.py); distinct by program text')
ASSUMPTIONS = ['gcc -O0 -fwrapv is a correct C compiler for the generated programs']


class Obj:
    pass


def gen(d):
    glob, loc, body, feats = ['struct el { char a; long b; };'], [], [], set()
    objs = []
    for n in range(d.int(1, 5)):
        o = Obj()
        kind = d.weighted([(7, 'int'), (3, 'ptr'), (1, 'float')])
        o.kind = kind
        if kind == 'int':
            o.t = d.pick(INTS)
            o.v = value(d, o.t)
            o.name = o.t.name
            o.fmt = o.t.fmt
            if o.v == LONG.lo:
                o.v += 1
            init = literal(d, o.v).text
            o.edge = o.v in (o.t.lo, o.t.hi, 0, LONG.lo + 1)
        elif kind == 'float':
            o.name = d.pick(['float', 'double'])
            o.v = d.int(-20, 20) + 0.5
            o.fmt = '%f'
            o.edge = False
            init = '%s%s' % ('-' if o.v < 0 else '', abs(o.v))
        else:
            o.el = d.pick(['char', 'int', 'short', 'long', 'double', 'struct el', 'char *', 'unsigned char'])
            o.name = o.el + ' *'
            o.v = 50
            o.edge = True
            glob.append('%s base%d[100];' % (o.el, n))
            init = '&base%d[50]' % n
            o.fmt = '%ld'
        o.lv = 'o%d' % n
        where = d.int(0, 6)
        lv = 'o%d' % n
        if where == 0:
            glob.append('%s %s;' % (o.name, lv))
            loc.append('%s = %s;' % (lv, init))
        elif where == 1:
            i = d.int(0, 2)
            glob.append('%s %s[3];' % (o.name, lv))
            o.lv = '%s[%d]' % (lv, i)
            loc.append('%s = %s;' % (o.lv, init))
        elif where == 2:
            glob.append('struct S%d { char x; %s m; char y; };' % (n, o.name))
            glob.append('struct S%d %s;' % (n, lv))
            loc.append('%s.x = 1; %s.y = 2;' % (lv, lv))
            o.lv = lv + '.m'
            loc.append('%s = %s;' % (o.lv, init))
        elif where == 3:
            glob.append('struct S%d { char x; %s m; char y; };' % (n, o.name))
            glob.append('struct S%d g%s;' % (n, lv))
            loc.append('struct S%d *%s;' % (n, lv))
            loc.append('%s = &g%s;' % (lv, lv))
            o.lv = lv + '->m'
            loc.append('%s = %s;' % (o.lv, init))
        elif where == 4:
            loc.append('%s t%s;' % (o.name, lv))
            loc.append('%s *%s;' % (o.name, lv))
            loc.append('%s = &t%s;' % (lv, lv))
            o.lv = '(*%s)' % lv
            loc.append('%s = %s;' % (o.lv, init))
        elif where == 5:
            loc.append('static %s %s;' % (o.name, lv))
            loc.append('%s = %s;' % (lv, init))
        else:
            loc.append('%s %s%s;' % (o.name, lv, ' = ' + init if kind != 'ptr' else ''))
            if kind == 'ptr':
                loc.append('%s = %s;' % (lv, init))
        o.n = n
        o.upd = 0
        objs.append(o)
        feats.add(kind)
        feats.add('at%d' % where)
    # neighbours: bytes of all globals are checked at the end

    def show(o, e):
        return '%s - (%s)base%d' % (e, o.name, o.n) if o.kind == 'ptr' else e

    nt = False
    body.append('long idx = 0;')
    for _ in range(d.int(1, 14)):
        o = d.pick(objs)
        o.upd += 1
        nt |= o.edge or o.upd >= 3
        lv = o.lv
        k = d.int(0, 11)
        if o.kind == 'float' or k <= 4:
            e, delta = d.pick([('%s++', 1), ('++%s', 1), ('%s--', -1), ('--%s', -1)])
            feats.add(e)
            e = e % lv
            if o.kind == 'ptr':
                o.v += delta
        elif o.kind == 'ptr':
            s = d.int(0, 20)
            op = d.pick(['+=', '-='])
            if not 0 <= o.v + (s if op == '+=' else -s) < 100:
                op = '-=' if op == '+=' else '+='
            o.v += s if op == '+=' else -s
            feats.add('ptr' + op)
            if d.bool():
                body.append('idx = %d;' % s)
                s = 'idx'
            e = '%s %s %s' % (lv, op, s)
        else:
            op = d.pick(['+=', '-=', '^=', '<<=', '>>=', '/='])
            feats.add(op)
            if op in ('+=', '-=', '^='):
                r = value(d, d.pick(INTS))
                if r == LONG.lo:
                    r += 1
                rhs = literal(d, r).text
                if d.chance(1, 3):
                    other = d.pick(objs)
                    if other.kind == 'int':
                        rhs = other.lv
            elif op == '<<=':
                # non-negative by way of a conversion to an unsigned type; wraps on the store
                rhs = str(d.int(0, 12))
                if o.t.signed:
                    body.append('if (%s < 0) %s = 3;' % (lv, lv))
                if promote(o.t) is INT and o.t.bits < 32 or not o.t.signed or True:
                    pass
            elif op == '>>=':
                rhs = str(d.int(0, promote(o.t).bits - 1))
            else:
                r = value(d, o.t)
                if r == LONG.lo:
                    r += 1
                if r in (0, -1):
                    r = 3
                if not o.t.signed and r < 0:
                    r = 7
                rhs = literal(d, r).text if lit_type('%d' % abs(r), abs(r)).rank <= promote(o.t).rank else str(d.int(1, 90))
            e = '%s %s %s' % (lv, op, rhs)
        use = d.int(0, 4)
        if use == 0:
            body.append('%s;' % e)
        elif use == 1:
            e2 = '(%s)' % e
            body.append('printf("y %s\\n", %s);' % (o.fmt if o.kind != 'ptr' else '%ld', show(o, e2)))
        elif use == 2:
            body.append('{ %s y; y = (%s); printf("y %s\\n", %s); }'
                        % (o.name, e, o.fmt if o.kind != 'ptr' else '%ld', show(o, 'y')))
        elif use == 3 and o.kind == 'int':
            body.append('if (%s) printf("t\\n"); else printf("f\\n");' % e)
        elif use == 4 and o.kind == 'int':
            body.append('{ long y = (%s); printf("y %%ld\\n", y); }' % e)
        else:
            body.append('%s;' % e)
        body.append('printf("%s\\n", %s);' % (o.fmt if o.kind != 'ptr' else '%ld', show(o, lv)))
    fin = []
    for o in objs:
        fin.append('printf("%s\\n", %s);' % (o.fmt if o.kind != 'ptr' else '%ld', show(o, o.lv)))
        if o.lv.endswith(']'):
            b = o.lv[:o.lv.index('[')]
            for j in range(3):
                fin.append('printf("%s\\n", %s);' % (o.fmt if o.kind != 'ptr' else '%d',
                                                     '%s[%d]' % (b, j) if o.kind != 'ptr' or '[%d]' % j not in o.lv
                                                     else '0')
                           if o.kind != 'ptr' else 'printf("%%d\\n", %s[%d] == 0);' % (b, j))
        if o.lv.endswith('.m'):
            fin.append('printf("%%d %%d\\n", %s.x, %s.y);' % (o.lv[:-2], o.lv[:-2]))
    src = 'extern int printf(const char *f, ...);\n' + '\n'.join(glob) + '\nint main() {\n' + \
        '\n'.join(loc + body + fin) + '\nreturn 0;\n}\n'
    return {'src': src, 'f': sorted(feats), 'nt': nt}


def cases():
    return case_strategy(scale.mixed(gen, PROP))


def check(env, case):
    expect_same(env.gcc(case['src']), env.bic(case['src']))
    if case.get('scale'):
        return case['f']
    return case['f'] if case['nt'] else []
