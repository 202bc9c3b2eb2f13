"""N01: enumeration constants have their C values.  Oracle: gcc."""
from cgen import *
import scale
from engine import expect_same

PROP = 'N01'
COUNTS = {'quick': 4000, 'thorough': 50000}
RULE = ('each case declares 1-5 enum types (named, anonymous, typedefed, as a member of a compound, at file or block '
        'scope, in a loop body, shadowing) with implicit and explicit enumerators whose values are random constant '
        'expressions over literals and earlier enumerators, prints all enumerators and uses objects, parameters, '
        'members, arrays and returned values of the types; non-trivial: an explicit value followed by an implicit '
        'one, an expression over an earlier enumerator, or a negative value; one case in 14 is extreme in one dimension (lib/scale.py); distinct by text')
ASSUMPTIONS = ['gcc -O0 is a correct C compiler for the generated programs', 'enumerator values fit an int']


class Gen:
    def __init__(self, d):
        self.d = d
        self.n = 0
        self.f = set()
        self.scopes = [{}]

    def all(self):
        r = {}
        for s in self.scopes:
            r.update(s)
        return r

    def const(self, depth=2):
        """A constant expression: (text, value), the value fits an int."""
        d = self.d
        known = self.all()
        k = d.int(0, 9)
        if depth <= 0 or k <= 2:
            if known and d.bool():
                n = d.pick(sorted(known))
                self.f.add('ref')
                return n, known[n]
            if d.chance(1, 6):
                c = chr(d.int(97, 122))
                return "'%s'" % c, ord(c)
            v = d.pick([d.int(0, 20), d.int(0, 1000), d.int(0, 2147483600)]) if d.chance(1, 3) else d.int(0, 20)
            return lit(d, v), v
        if k == 3:
            e, v = self.const(depth - 1)
            self.f.add('neg')
            return '-%s' % wrap(e), -v if v > -2147483648 else 1 / 0
        if k == 4:
            e, v = self.const(depth - 1)
            return ('~%s' % wrap(e), ~v) if d.bool() else ('!%s' % wrap(e), int(not v))
        if k == 5:
            c, cv = self.const(depth - 1)
            a, av = self.const(depth - 1)
            b, bv = self.const(depth - 1)
            return '%s ? %s : %s' % (wrap(c), wrap(a), wrap(b)), av if cv else bv
        if k == 6:
            if d.bool():
                t, s = d.pick([('char', 1), ('short', 2), ('int', 4), ('long', 8), ('struct sz', 12), ('int *', 8)])
                return '(int)sizeof(%s)' % t, s
            e, v = self.const(depth - 1)
            t = d.pick([CHAR, SHORT, INT, UCHAR])
            return '(%s)%s' % (t.name, wrap(e)), t.wrap(v)
        a, av = self.const(depth - 1)
        b, bv = self.const(depth - 1)
        op = d.pick(['+', '-', '*', '&', '|', '^', '<<', '>>', '<', '>', '==', '!=', '<=', '>=', '&&', '||', '/', '%'])
        if op in ('<<', '>>'):
            b, bv = str(d.int(0, 6)), None
            bv = int(b)
            if op == '<<' and av < 0:
                op = '>>'
        if op in ('/', '%') and bv == 0:
            b, bv = '3', 3
        if op == '/':
            v = abs(av) // abs(bv) * (1 if (av < 0) == (bv < 0) else -1)
        elif op == '%':
            v = abs(av) % abs(bv) * (1 if av >= 0 else -1)
        else:
            v = {'+': av + bv, '-': av - bv, '*': av * bv, '&': av & bv, '|': av | bv, '^': av ^ bv,
                 '<<': av << max(bv, 0) if op == '<<' else 0, '>>': av >> max(bv, 0) if op == '>>' else 0,
                 '<': int(av < bv), '>': int(av > bv),
                 '==': int(av == bv), '!=': int(av != bv), '<=': int(av <= bv), '>=': int(av >= bv),
                 '&&': int(bool(av and bv)), '||': int(bool(av or bv))}[op]
        if not -2147483648 < v < 2147483647:
            return a, av
        return '%s %s %s' % (wrap(a), op, wrap(b)), v

    def enum(self, tag=None):
        """Returns (body text, [(name, value)])."""
        d = self.d
        last = -1
        es, names = [], []
        prev_explicit = False
        for i in range(d.int(1, 6)):
            if d.chance(1, 8) and len(self.scopes) > 1:
                # shadow an outer enumerator
                out = [n for s in self.scopes[:-1] for n in s if n not in self.scopes[-1]]
                n = d.pick(sorted(out)) if out else None
            else:
                n = None
            if n:
                self.f.add('shadow')
            else:
                n = 'E%d' % self.n
                self.n += 1
            text, v = n, last + 1
            if d.bool():
                try:
                    e, ev = self.const(d.int(0, 2))
                    # inside its own definition a shadowing name is not yet visible
                    text, v = '%s = %s' % (n, e), ev
                    self.f.add('explicit')
                    prev_explicit = True
                except ZeroDivisionError:
                    pass
            elif prev_explicit:
                self.f.add('after explicit')
            if v > 2147483646:
                v, text = 5, '%s = 5' % n
            if v < 0:
                self.f.add('negative')
            es.append(text)
            names.append((n, v))
            self.scopes[-1][n] = v
            last = v
        sep = d.pick([', ', ',', ' ,\n  '])
        return '{ %s%s }' % (sep.join(es), d.pick(['', '', ','])), names

    def show(self, names):
        return 'printf("%s\\n"%s);' % (' '.join(['%d'] * len(names)), ''.join(', ' + n for n in names))

    def uses(self, text, names, scope):
        """Statements that use objects of the type."""
        d = self.d
        i = self.n
        self.n += 1
        a, b = d.pick(names), d.pick(names)
        k = d.int(0, 5)
        v = 'v%d' % i
        if k == 0:
            return '%s %s = %s; printf("%%d %%d %%d\\n", %s, %s == %s, %s != %s);' % (text, v, a[0], v, v, a[0], v, b[0])
        if k == 1:
            return '%s %s[3]; %s[1] = %s; %s[0] = %s; printf("%%d %%d %%d\\n", %s[1], %s[0], (int)sizeof(%s));' % (
                text, v, v, a[0], v, b[0], v, v, v)
        if k == 2:
            return 'struct s%d { char c; %s m; char d; }; struct s%d %s; %s.m = %s; %s.d = 1; printf("%%d %%d %%d\\n", ' \
                   '%s.m, %s.m == %s, (int)sizeof(%s));' % (i, text, i, v, v, a[0], v, v, v, b[0], v)
        if k == 3:
            return '%s %s; %s *p%s; p%s = &%s; *p%s = %s; printf("%%d %%d\\n", %s, (int)sizeof(%s));' % (
                text, v, text, v, v, v, v, a[0], v, text)
        if k == 4 and -1000 < a[1] < 1000:
            return '%s %s = %s; %s++; printf("%%d\\n", %s); %s = %s; %s -= 1; printf("%%d\\n", %s);' % (
                text, v, a[0], v, v, v, b[0] if abs(b[1]) < 1000 and b[1] > 0 else 3, v, v) \
                if min(n[1] for n in names) < 0 or a[1] >= 0 else ';'
        return '%s %s; %s = %s; printf("%%d %%d\\n", %s < %s, %s ? 1 : 2);' % (text, v, v, a[0], v, b[0], v)


def wrap(e):
    return e if e.replace('_', 'a').isalnum() else '(%s)' % e


def gen(d):
    g = Gen(d)
    top = ['struct sz { char a; int b; short c; };']
    body = []
    for i in range(d.int(1, 5)):
        k = d.int(0, 6)
        glob = d.bool()
        tag = 'tg%d' % i
        dst = top if glob else body
        if k == 5:
            # in an inner block or a loop
            g.scopes.append({})
            e, names = g.enum()
            text = 'enum %s' % tag
            s = '%s %s; %s %s' % (text, e, g.show([n for n, _ in names]), g.uses(text, names, None))
            n = d.int(1, 3)
            body.append(d.pick(['{ %s }', 'for (int q = 0; q < %d; q++) { %%s }' % n,
                                'if (1) { %s }']) % s)
            g.scopes.pop()
            body.append(g.show(sorted(g.all())[:8] or ['0']))
            g.f.add('block')
            continue
        if not glob and len(g.scopes) == 1:
            g.scopes.append({})
        if glob and len(g.scopes) > 1:
            # top-level enumerators must not see main's
            glob, dst = False, body
        e, names = g.enum()
        text = None
        if k == 0:
            dst.append('enum %s;' % e)
            g.f.add('anonymous')
        elif k == 1:
            text = 'tt%d' % i
            dst.append('typedef enum %s %s;' % (e, text))
        elif k == 2:
            text = d.pick(['tt%d' % i, 'enum ' + tag])
            dst.append('typedef enum %s %s tt%d;' % (tag, e, i))
        elif k == 3:
            dst.append('enum %s %s gv%d;' % (tag, e, i))
            body.append('gv%d = %s; printf("%%d\\n", gv%d);' % (i, names[-1][0], i))
            text = 'enum ' + tag
        elif k == 4:
            dst.append('struct ms%d { enum %s %s m; int x; };' % (i, tag, e))
            text = 'enum ' + tag
            g.f.add('member')
        else:
            dst.append('enum %s %s;' % (tag, e))
            text = 'enum ' + tag
        body.append(g.show([n for n, _ in names]))
        if text:
            body.append(g.uses(text, names, None))
            if glob and d.chance(1, 2):
                ok = [n for n, v in names]
                top.append('%s fn%d(%s p, int q) { if (q) return %s; return p; }' % (text, i, text, d.pick(ok)))
                body.append('printf("%%d %%d\\n", fn%d(%s, 1), fn%d(%s, 0));' % (i, d.pick(ok), i, d.pick(ok)))
                g.f.add('function')
    if len(g.scopes) > 1 or True:
        body.append(g.show(sorted(g.all())[:12] or ['0']))
    e, v = '0', 0
    try:
        e, v = g.const(2)
    except ZeroDivisionError:
        pass
    if 0 < v < 200:
        body.append('char arr[%s]; printf("%%d\\n", (int)sizeof(arr));' % e if False else 'printf("%%d\\n", %s);' % e)
    src = 'extern int printf(const char *f, ...);\n' + '\n'.join(top) + '\nint main() {\n' + '\n'.join(body) + \
        '\nreturn 0;\n}\n'
    return {'src': src, 'f': sorted(g.f)}


def cases():
    return case_strategy(scale.mixed(gen, PROP))


def check(env, case):
    expect_same(env.gcc(case['src']), env.bic(case['src']))
    if case.get('scale'):
        return case['f']
    return case['f'] if set(case['f']) & {'after explicit', 'ref', 'negative'} else []
