"""T03: members, elements and pointees are independent storage.  Oracle: gcc.

Random histories of typed writes through random access paths and aliases; after the
history every object is read through several paths and dumped byte by byte."""
from cgen import *
from ctypesgen import *
import scale
from engine import expect_same

PROP = 'T03'
COUNTS = {'quick': 4000, 'thorough': 50000}
RULE = ('each case declares 1-3 random struct/union types and 2-5 objects (globals, locals, statics, heap), then runs '
        'up to 25 writes and reads through member, pointer-member, subscript (constant, variable, negative), '
        'dereference and cast paths and through alias pointers that are re-pointed on the way, and dumps the bytes '
        'of every object; non-trivial: at least 3 writes, one of them through an alias, an element or a nested '
        'member; one case in 14 is extreme in one dimension (lib/scale.py); distinct by program text')
ASSUMPTIONS = ['gcc -O0 -fwrapv is a correct C compiler for the generated programs (type punning through char and '
               'unions only)']

RANGE = {'char': CHAR, 'signed char': CHAR, 'unsigned char': UCHAR, 'short': SHORT, 'unsigned short': USHORT,
         'int': INT, 'unsigned int': UINT, 'long': LONG, 'unsigned long': ULONG, 'long long': LLONG,
         'unsigned long long': ULLONG}


class Obj:
    def __init__(self, name, t, ptr=False, off=0, n=1):
        self.name, self.t, self.ptr, self.off, self.n = name, t, ptr, off, n


class G:
    def __init__(self, d):
        self.d = d
        self.g = TGen(d)
        self.f = set()
        self.objs = []        # roots: (lvalue text, type)
        self.ptrs = []        # alias pointers: dict(name, t, at=(array elements before, after) or None)
        self.body = []
        self.ixs = 0

    def index(self, i):
        d = self.d
        k = d.int(0, 4)
        if k <= 2:
            return str(i)
        if k == 3:
            self.f.add('varindex')
            a = d.int(0, 3)
            # a path can use several indices
            self.ixs = (self.ixs + 1) % 10
            self.body.append('ix%d = %d;' % (self.ixs, i - a))
            return 'ix%d + %d' % (self.ixs, a) if a else 'ix%d' % self.ixs
        return '%d - %d' % (i + 2, 2)

    def root(self):
        """A starting lvalue."""
        d = self.d
        live = [p for p in self.ptrs if p['t'] is not None and p['set']]
        if live and d.bool():
            p = d.pick(live)
            self.f.add('alias')
            lo, hi = p['at']
            if hi - lo > 1 and d.bool():
                i = d.int(lo, hi - 1)
                if i < 0:
                    self.f.add('negindex')
                ix = self.index(i) if i >= 0 else str(i)
                if d.bool():
                    return '%s[%s]' % (p['name'], ix), p['t'], False
                return '*(%s + %s)' % (p['name'], ix if i >= 0 else '(%s)' % ix), p['t'], True
            return '*%s' % p['name'], p['t'], True
        o = d.pick(self.objs)
        return o.name, o.t, False

    def lvalue(self, scalar=True):
        """A random path: (text, type)."""
        d = self.d
        e, t, star = self.root()
        while True:
            if t.kind in ('st', 'un'):
                if not scalar and d.chance(1, 3):
                    break
                n, m = d.pick(t.mem)
                if star and e.startswith('*') and d.bool():
                    inner = e[1:]
                    e = '%s->%s' % (inner, n)
                elif star:
                    e = '(%s).%s' % (e, n)
                elif d.chance(1, 6):
                    e = '(&%s)->%s' % (e, n)
                else:
                    e = '%s.%s' % (e, n)
                if t.kind == 'un':
                    self.f.add('union')
                else:
                    self.f.add('member')
                t, star = m, False
            elif t.kind == 'arr':
                i = d.int(0, t.n - 1)
                self.f.add('element')
                k = d.int(0, 4)
                ix = self.index(i)
                b = '(%s)' % e if star else e
                if k <= 2:
                    e, star = '%s[%s]' % (b, ix), False
                elif k == 3:
                    e, star = '*(%s + %s)' % (b, ix), True
                else:
                    e, star = '*(&%s[%s])' % (b, ix), True
                t = t.of
            else:
                if t.kind == 'sc' and d.chance(1, 8):
                    e, star = '*&%s' % (e if not star else '(%s)' % e), True
                break
        return e, t, star

    def declare(self):
        d = self.d
        g = self.g
        for _ in range(d.int(1, 3)):
            g.compound(d.int(0, 2))
        heap = []
        loc = []
        for i in range(d.int(2, 5)):
            k = d.int(0, 5)
            if k <= 2:
                t = d.pick(g.named)
            elif k == 3:
                t = Ty('arr', of=Ty('sc', d.pick(SCAL)), n=d.pick([1, 2, 3, 4, 5, 6, 8]))
            elif k == 4:
                t = Ty('arr', of=d.pick(g.named), n=d.int(1, 3))
            else:
                t = Ty('sc', d.pick(SCAL))
            where = d.int(0, 3)
            n = 'o%d' % i
            if where == 0:
                g.out.append(t.declare(n) + ';')
            elif where == 1:
                loc.append(t.declare(n) + ';')
            elif where == 2:
                loc.append('static ' + t.declare(n) + ';')
            elif t.kind == 'arr':
                loc.append(t.declare(n) + ';')
            else:
                self.f.add('heap')
                loc.append('%s *h%d;' % (t.text, i))
                loc.append('h%d = malloc(sizeof(%s));' % (i, t.text))
                n = '(*h%d)' % i
            loc.append('memset(%s%s, 0, sizeof(%s));' % (d.pick(['', '&']) if t.kind == 'arr' else '&', n, n))
            o = Obj(n, t)
            self.objs.append(o)
        for i in range(d.int(0, 3)):
            # alias pointers, typed by something that can be reached
            cands = []
            for o in self.objs:
                if o.t.kind in ('st', 'un') and o.t.text:
                    cands.append(o.t)
                if o.t.kind == 'arr':
                    cands.append(o.t.of)
                for p, m in paths(o.t, o.name):
                    if m.kind == 'sc' or m.kind in ('st', 'un') and m.text:
                        cands.append(m)
            cands = [c for c in cands if c.kind in ('sc', 'st', 'un') and c.text != 'long double']
            if cands:
                t = d.pick(cands)
                loc.append('%s *p%d;' % (t.text, i))
                self.ptrs.append({'name': 'p%d' % i, 't': t, 'set': False, 'at': (0, 1)})
        if d.bool():
            self.ptrs.append({'name': 'cp', 't': Ty('sc', 'unsigned char'), 'set': False, 'at': (0, 1)})
            loc.append('unsigned char *cp;')
        return loc

    def value(self, t):
        d = self.d
        if t.text in RANGE:
            v = value(d, RANGE[t.text])
            return str(max(v, LONG.lo + 1))
        if t.text == 'enum en':
            return d.pick(['EA', 'EB'])
        v = '%d.%s' % (d.int(1, 99), d.pick(['5', '25', '0', '75']))
        return '-' + v if d.bool() else v

    def point(self):
        """Re-point an alias."""
        d = self.d
        p = d.pick(self.ptrs)
        t = p['t']
        if p['name'] == 'cp':
            o = d.pick(self.objs)
            self.body.append('cp = (unsigned char *)%s%s;' % (d.pick(['', '&']) if o.t.kind == 'arr' else '&', o.name))
            p['set'], p['at'] = True, (0, 1)
            return
        k = d.int(0, 3)
        cands = []
        for o in self.objs:
            for q, m in [(o.name, o.t)] + paths(o.t, o.name):
                if m.kind in ('st', 'un', 'sc') and m.text == t.text and m.kind == t.kind:
                    cands.append((q, None))
                if m.kind == 'arr' and m.of.kind == t.kind and m.of.text == t.text:
                    cands.append((q, m.n))
                    cands.append((q, m.n))
        if not cands:
            return
        q, n = d.pick(cands)
        if n is None:
            self.body.append('%s = &%s;' % (p['name'], q))
            p['at'] = (0, 1)
        else:
            i = d.int(0, n - 1)
            form = d.int(0, 3)
            if form == 3:
                i = 0
                self.body.append('%s = (%s *)&%s;' % (p['name'], t.text, q))
                self.f.add('address of array')
            elif form == 0:
                i = 0
                self.body.append('%s = %s;' % (p['name'], q))
            elif form == 1:
                self.body.append('%s = &%s[%s];' % (p['name'], q, self.index(i)))
            else:
                self.body.append('%s = %s + %d;' % (p['name'], q, i))
            p['at'] = (-i, n - i)
        p['set'] = True
        k = d.int(0, 5)
        lo, hi = p['at']
        if k == 0 and hi > 1:
            self.body.append('%s++;' % p['name'])
            p['at'] = (lo - 1, hi - 1)
        elif k == 1 and lo < 0:
            self.body.append('%s -= 1;' % p['name'])
            p['at'] = (lo + 1, hi + 1)

    def run(self):
        d = self.d
        loc = self.declare()
        writes = 0
        for _ in range(d.int(5, 28)):
            k = d.int(0, 9)
            if k <= 1 and self.ptrs:
                self.point()
                continue
            e, t, star = self.lvalue()
            if t.kind in ('ptr', 'pp', 'fp'):
                if k <= 5 and t.kind == 'ptr':
                    # link to an object of the pointed-to type, or clear
                    tgt = [o for o in self.objs if o.t.kind == t.of.kind and o.t.text == t.of.text and o.t.text]
                    if tgt and d.bool():
                        o = d.pick(tgt)
                        self.body.append('%s = &%s;' % (e, o.name))
                        self.f.add('link')
                        writes += 1
                        if o.t.kind in ('st', 'un'):
                            sc = [(n, m) for n, m in o.t.mem if m.kind == 'sc' and m.text != 'long double']
                            if sc:
                                n, m = d.pick(sc)
                                b = '(%s)' % e if star else e
                                self.body.append('%s->%s = %s;' % (b, n, self.value(m)))
                        else:
                            self.body.append('*%s = %s;' % (e, self.value(o.t)) if o.t.text != 'long double' else ';')
                        self.body.append('printf("%%d ", %s == &%s);' % (e, o.name))
                        # pointers are not dumped
                    self.body.append('%s = 0;' % e)
                continue
            if t.text == 'long double':
                continue
            if k <= 6:
                writes += 1
                v = self.value(t)
                j = d.int(0, 9)
                if j <= 1:
                    e2, t2, _ = self.lvalue()
                    # copying between different types is E03's subject
                    if t2.kind == 'sc' and t2.text == t.text and t.text != 'enum en':
                        v = e2
                        self.f.add('copy')
                self.body.append('%s = %s;' % (e, v))
                if j == 9 and t.text in RANGE:
                    self.body.append('%s++;' % ('(%s)' % e if star else e))
            else:
                if t.kind == 'sc' and t.text in FMTS:
                    self.body.append('printf("%s ", %s);' % (FMTS[t.text] if t.text not in FLOATS else '%a', e))
        for i, o in enumerate(self.objs):
            self.body.append('puts(""); dump((unsigned char *)%s%s, sizeof(%s));' % (
                d.pick(['', '&']) if o.t.kind == 'arr' else '&', o.name, o.name))
            for p, m in paths(o.t, o.name)[:5]:
                if m.kind == 'sc' and m.text in RANGE:
                    self.body.append('printf("%s ", %s);' % (FMTS[m.text], p))
        src = ('extern int printf(const char *f, ...);\nextern int puts(const char *s);\n'
               'extern void *malloc(unsigned long n);\n'
               'extern void *memset(void *s, int c, unsigned long n);\n' + '\n'.join(self.g.out) +
               '\nvoid dump(unsigned char *b, int n) { int i; for (i = 0; i < n; i++) printf("%02x", b[i]); puts(""); }\n'
               'int main() {\nlong ix0, ix1, ix2, ix3, ix4, ix5, ix6, ix7, ix8, ix9;\n' + '\n'.join(loc) + '\n' + '\n'.join(self.body) + '\nreturn 0;\n}\n')
        return {'src': src, 'f': sorted(self.f), 'w': writes}


def gen(d):
    return G(d).run()


def cases():
    return case_strategy(scale.mixed(gen, PROP))


def check(env, case):
    expect_same(env.gcc(case['src']), env.bic(case['src']))
    if case.get('scale'):
        return case['f']
    f = set(case['f'])
    return case['f'] if case['w'] >= 3 and f & {'alias', 'element', 'member', 'union'} else []
