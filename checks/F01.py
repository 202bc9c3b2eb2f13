"""F01: external C functions receive and return exactly the values C would pass.

Each case generates a C library whose functions print every byte they are given and return a computed
value, and a program calling them; the program is run by bic and compiled by gcc against the library."""
import re
from cgen import *
import scale
from engine import expect_same

PROP = 'F01'
COUNTS = {'quick': 2000, 'thorough': 40000}
RULE = ('each case generates a library of 1-4 functions (0-20 parameters of 21 integer, floating and pointer types, '
        'fixed or variadic, spelled directly, through typedefs, as arrays, through array typedefs, 17 return types) and up to 10 calls by name or through function pointers (variables, '
        'members, typedefs, arrays, (*f)) with arguments that are literals, variables, elements, members, pointees, '
        'expressions, strings, addresses, enumerators or nested calls; the callee prints every argument it got; '
        'non-trivial: at least 3 arguments, or a parameter whose type differs from the argument, or a variadic call; '
        'one case in 14 is extreme in one dimension (lib/scale.py); distinct by program and library text')
ASSUMPTIONS = ['gcc -O0 is a correct C compiler', 'both programs run against the very same library']

INT_P = INTS + [T('signed char', 8, True, 1, '%d')]
FMT = {t.name: t.fmt for t in INT_P}
FMT.update({'float': '%a', 'double': '%a', 'long double': '%La'})
FLOATS = FLOATS + ['long double']
RET = [t.name for t in INTS] + ['float', 'double', 'long double', 'void', 'char *', 'int *', 'struct st *']
STR = ['', 'a', 'hello world', 'x%dy', 'tab\\there', 'long string with many characters, more than sixteen', '\\377\\1']


class Fn:
    pass


def dump(name, t):
    """C statements that print the parameter."""
    if t in FMT:
        return 'printf(" %s", %s);' % (FMT[t], name)
    if t in ('char *', 'const char *'):
        return 'printf(" \\"%%s\\"", %s);' % name
    if t in ('int *', 'const int *'):
        return 'printf(" *%%d", *%s); if (%s != cst) *(int *)%s += 1;' % (name, name, name)
    if t == 'double *':
        return 'printf(" *%%a", *%s); *%s += 0.5;' % (name, name)
    if t == 'struct st *':
        return 'printf(" {%%d %%a %%ld}", %s->a, %s->b, %s->c); %s->c += 1;' % (name, name, name, name)
    if t == 'void *':
        return 'printf(" %%ld", (long)((char *)%s - (char *)base));' % name
    if t == 'enum en':
        return 'printf(" e%%u", %s);' % name
    raise KeyError(t)


HEAD = 'struct st { int a; double b; long c; };\nenum en { E0, E1, E5 = 5 };\n'
LIBHEAD = ('#include <stdarg.h>\nextern int printf(const char *f, ...);\nextern int strlen(const char *);\n' + HEAD +
           'char base[64];\nint cst[2] = { 11, 22 };\nint own = 5;\nstruct st ost = { 3, 4.5, 6 };\n'
           'void *getbase(int i) { return base + i; }\n')


class Gen:
    def __init__(self, d):
        self.d = d
        self.lib = []
        self.decl = []
        self.loc = []
        self.body = []
        self.f = set()
        self.n = 0
        self.vars = {}
        self.fns = []

    def uid(self):
        self.n += 1
        return self.n

    def make_fn(self, i):
        d = self.d
        f = Fn()
        f.name = 'fn%d' % i
        f.variadic = d.chance(1, 4)
        n = d.pick([0, 1, 2, 3, 5, 8, 12, 20]) if not f.variadic else d.int(0, 4)
        types = [t.name for t in INT_P] + ['float', 'double', 'long double'] * 2 + ['char *', 'const char *', 'int *', 'double *',
                                                                      'struct st *', 'void *', 'enum en']
        f.params = [d.pick(types) for _ in range(n)]
        f.ret = d.pick(RET)
        f.ret_of = None
        ps = ['%s p%d' % (t, k) for k, t in enumerate(f.params)]
        if f.variadic:
            ps = ['const char *fmt'] + ps + ['...']
        b = ['printf("%s:");' % f.name]
        if f.variadic:
            b[0:0] = ['va_list ap; const char *c;']
        b += [dump('p%d' % k, t) for k, t in enumerate(f.params)]
        if f.variadic:
            b.append('va_start(ap, %s); for (c = fmt; *c; c++) switch (*c) {' % ('p%d' % (n - 1) if n else 'fmt'))
            for k, (c, t) in enumerate(VA[:-1]):
                b.append("case '%s': { %s v = va_arg(ap, %s); %s break; }" % (c, t, t, dump('v', t)))
            b.append('} va_end(ap);')
        b.append('printf("\\n");')
        b.append(self.ret(f))
        self.lib.append('%s %s(%s) { %s }' % (f.ret, f.name, ', '.join(ps) or 'void', ' '.join(b)))
        names = d.bool()
        ret = f.ret if d.chance(3, 4) else self.typedef(f.ret, '')
        sig = self.sig(f, names)
        self.decl.append('extern %s %s(%s);' % (ret, f.name, sig))
        self.fns.append(f)

    def sig(self, f, names=False):
        ps = [self.spell(t, ' q%d' % k if names else '') for k, t in enumerate(f.params)]
        if f.variadic:
            ps = [self.spell('const char *', 'fmt' if names else '')] + ps + ['...']
        return ', '.join(ps) or 'void'

    def spell(self, t, name):
        """A parameter declaration of type t, in one of its spellings."""
        d = self.d
        k = d.int(0, 9)
        if k <= 1:
            self.f.add('typedef parameter')
            return self.typedef(t, '') + ' ' + name
        if k <= 4 and t.endswith('*') and t != 'void *':
            b = t[:-1].strip()
            if k == 2:
                return '%s %s[%s]' % (b, name, d.pick(['', '3', '10']))
            if k == 3:
                self.f.add('array typedef parameter')
                return self.typedef(b, '[%d]' % d.int(1, 9)) + ' ' + name
            return self.typedef(b, '') + ' *' + name
        if k == 5 and ' ' in t and '*' not in t and 'enum' not in t:
            return ' '.join(d.shuffle(t.split())) + ' ' + name
        if k == 6 and '*' not in t:
            return 'const ' + t + ' ' + name
        return t + name

    def typedef(self, b, suffix):
        i = self.uid()
        two = self.d.chance(1, 4)
        for out in (self.decl, self.lib):
            out.append('typedef %s td%d%s;' % (b, i, suffix))
            if two:
                out.append('typedef td%d td%d_2;' % (i, i))
        if two:
            return 'td%d_2' % i
        return 'td%d' % i

    def ret(self, f):
        d = self.d
        if f.ret == 'void':
            return 'return;'
        same = [k for k, t in enumerate(f.params) if t == f.ret]
        if same and d.chance(2, 3):
            return 'return p%d;' % d.pick(same)
        if f.ret == 'char *':
            return 'return "%s";' % d.pick(STR)
        if f.ret == 'int *':
            return 'return %s;' % d.pick(['&own', 'cst'])
        if f.ret == 'struct st *':
            return 'return &ost;'
        if f.ret in FLOATS:
            return 'return %d.%s;' % (d.int(-99, 99), d.pick(['5', '25', '1', '333333333']))
        t = [t for t in INTS if t.name == f.ret][0]
        v = value(d, t)
        if v == LONG.lo:
            v += 1
        return 'return %s%s;' % (v, 'UL' if v > LONG.hi else '')

    # -- argument expressions -------------------------------------------------
    def ivar(self, t):
        """An lvalue of integer type t holding some value, in one of several places."""
        d = self.d
        i = self.uid()
        v = value(d, t)
        if v == LONG.lo:
            v += 1
        init = literal(d, v).text
        return self.place(i, t.name, init)

    def place(self, i, tn, init):
        d = self.d
        k = d.int(0, 5)
        n = 'v%d' % i
        self.f.add('arg in %s' % ['var', 'element', 'member', 'pointee', 'global', 'static'][k])
        if k == 0:
            self.loc.append('%s %s = %s;' % (tn, n, init))
        elif k == 1:
            self.loc.append('%s %s[3]; %s[2] = %s;' % (tn, n, n, init))
            n += '[2]'
        elif k == 2:
            self.loc.append('struct { char x; %s m; } %s; %s.m = %s;' % (tn, n, n, init))
            n += '.m'
        elif k == 3:
            self.loc.append('%s x%s; %s *%s; %s = &x%s; *%s = %s;' % (tn, n, tn, n, n, n, n, init))
            n = '*' + n
        elif k == 4:
            self.decl.append('%s %s;' % (tn, n))
            self.loc.append('%s = %s;' % (n, init))
        else:
            self.loc.append('static %s %s; %s = %s;' % (tn, n, n, init))
        return n

    def call_of(self, pred):
        """A nested call returning something accepted by pred."""
        c = [f for f in self.fns if pred(f.ret)]
        if not c or self.nest > 0:
            return None
        self.nest += 1
        self.f.add('nested call')
        r = self.call(self.d.pick(c))
        self.nest -= 1
        return r

    def int_arg(self, t, exact=False):
        d = self.d
        k = d.int(0, 9)
        if k <= 2:
            if exact:
                return '(%s)%s' % (t.name, literal(d, self.val(t)).paren().text) if t not in (INT,) else literal(d, self.val(t)).text
            return literal(d, self.val(t)).text
        if k == 3 and not exact:
            self.f.add('enumerator')
            return d.pick(['E0', 'E1', 'E5'])
        if k == 4 and not exact:
            return "'%s'" % chr(d.int(97, 122))
        if k == 5:
            r = self.call_of(lambda r: r == t.name if exact else r in FMT and r not in FLOATS)
            if r:
                return r
        if k == 6 and not exact:
            e = expr(d, literal, 2, ops=BINOP_LIST[:-1])
            self.f.add('expression')
            return e.text
        if k == 7 and not exact:
            # another type: converted to the parameter type
            self.f.add('converted')
            return self.ivar(d.pick(INTS))
        if k == 8 and not exact:
            self.f.add('converted')
            v = self.val(d.pick([INT, SHORT, CHAR, UCHAR]))
            v = max(0, min(abs(v), t.hi - 1, 100000))
            return self.place(self.uid(), d.pick(FLOATS), '%d.5' % v) if d.bool() else '%d.25' % v
        return self.ivar(t)

    def val(self, t):
        v = value(self.d, t)
        return v + 1 if v == LONG.lo else v

    def flt(self):
        d = self.d
        return '%s%d.%s' % (d.pick(['', '', '-']), d.int(1, 1000), d.pick(['0', '5', '25', '1', '123456789', '3']))

    def float_arg(self, t, exact=False):
        d = self.d
        k = d.int(0, 6)
        if k == 0 and t == 'double' or k == 0 and not exact:
            return self.flt()
        if k == 1 and not exact:
            self.f.add('converted')
            return self.ivar(d.pick(INTS[:7])) if d.bool() else str(d.int(-100, 100))
        if k == 2 and not exact:
            self.f.add('converted')
            return self.place(self.uid(), d.pick(FLOATS), self.flt())
        if k == 3:
            r = self.call_of(lambda r: r == t)
            if r:
                return r
        return self.place(self.uid(), t, self.flt())

    def arg(self, t, exact=False):
        d = self.d
        it = [x for x in INT_P if x.name == t]
        if it:
            return self.int_arg(it[0], exact)
        if t in FLOATS:
            return self.float_arg(t, exact)
        i = self.uid()
        n = 'v%d' % i
        k = d.int(0, 4)
        if t in ('char *', 'const char *'):
            s = '"%s"' % d.pick(STR)
            if k <= 1:
                return s
            if k == 2:
                r = self.call_of(lambda r: r == 'char *')
                if r:
                    return r
            if k == 3 and d.bool():
                self.f.add('alloca')
                self.loc.append('char *%s; %s = alloca(4); %s[0] = 97; %s[1] = 108; %s[2] = 0;' % (n, n, n, n, n))
                return d.pick([n, '&%s[1]' % n])
            if k == 3:
                self.loc.append('char %s[4]; %s[0] = 104; %s[1] = 105; %s[2] = 0;' % (n, n, n, n))
                return d.pick([n, '&%s[0]' % n, '&%s[1]' % n, '%s + 1' % n])
            return self.place(i, 'char *', s)
        if t in ('int *', 'const int *', 'double *'):
            b = t.replace('const ', '')[:-2]
            v = '%d' % d.int(1, 99) if b == 'int' else self.flt()
            if k == 0 and b == 'int':
                r = self.call_of(lambda r: r == 'int *')
                if r:
                    return r
            if k <= 1:
                self.loc.append('%s %s = %s;' % (b, n, v))
                self.f.add('address')
                return '&' + n
            if k == 2 and d.chance(1, 3):
                self.f.add('alloca')
                self.loc.append('%s *%s; %s = alloca(3 * sizeof(%s)); %s[0] = %s; %s[1] = %s;' % (b, n, n, b, n, v, n, v))
                return d.pick([n, '&%s[1]' % n])
            if k == 2:
                self.loc.append('%s %s[3]; %s[0] = %s; %s[1] = %s;' % (b, n, n, v, n, v))
                return d.pick([n, '&%s[1]' % n, '%s + 1' % n])
            if k == 3:
                self.loc.append('struct { char c; %s m; } %s; %s.m = %s;' % (b, n, n, v))
                return '&%s.m' % n
            self.loc.append('%s x%s = %s; %s *%s; %s = &x%s;' % (b, n, v, b, n, n, n))
            return n
        if t == 'struct st *':
            if k == 0:
                r = self.call_of(lambda r: r == 'struct st *')
                if r:
                    return r
            self.loc.append('struct st %s; %s.a = %d; %s.b = %s; %s.c = %d;' % (
                n, n, d.int(-9, 9), n, self.flt(), n, d.int(0, 1000)))
            if k == 1:
                self.loc.append('struct st *p%s; p%s = &%s;' % (n, n, n))
                return 'p' + n
            return '&' + n
        if t == 'void *':
            if k <= 1:
                return 'getbase(%d)' % d.int(0, 60)
            if k == 2:
                self.loc.append('void *%s; %s = getbase(%d);' % (n, n, d.int(0, 60)))
                return n
            return '%sbase[%d]' % ('&', d.int(0, 9))
        if t == 'enum en':
            if k <= 1:
                return d.pick(['E0', 'E1', 'E5'])
            self.loc.append('enum en %s; %s = %s;' % (n, n, d.pick(['E1', 'E5'])))
            return n
        raise KeyError(t)

    def call(self, f, callee=None):
        d = self.d
        args = [self.arg(t) for t in f.params]
        if f.variadic:
            self.f.add('variadic')
            n = d.int(0, 20 - len(args) - 1) if d.bool() else d.int(0, 3)
            kinds = [d.pick(VA) for _ in range(n)]
            fmt = ''.join(c for c, _ in kinds)
            va = []
            for c, t in kinds:
                if t == 'int' and d.bool():
                    # promoted
                    x = d.pick([CHAR, SHORT, UCHAR, USHORT, INT])
                    self.f.add('promoted')
                    va.append(self.ivar(x) if d.chance(2, 3) else literal(d, self.val(INT)).text)
                elif t == 'double' and d.chance(1, 3):
                    self.f.add('promoted')
                    va.append(self.place(self.uid(), 'float', self.flt()))
                else:
                    va.append(self.arg(t, True))
            args = ['"%s"' % fmt] + args + va
        if len(args) >= 3:
            self.f.add('nt')
        # at most one argument with a call, the order of evaluation is open
        seen = False
        for i, a in enumerate(args):
            if re.search(r'fn\d+\(|\bf[pamtx]\d+\b.*\(', a):
                if seen:
                    t = ([None] + f.params if f.variadic else f.params)
                    t = t[i] if i < len(t) else kinds[i - len(t)][1]
                    args[i] = self.simple(t)
                seen = True
        sep = d.pick([', ', ','])
        return '%s(%s)' % (callee or f.name, sep.join(args))

    def simple(self, t):
        if t in FLOATS:
            return {'double': '1.5', 'float': '2', 'long double': '(long double)2.5'}[t]
        if t in FMT:
            return '(%s)7' % t
        if t in ('char *', 'const char *'):
            return '"simple"'
        if t == 'void *':
            return 'base'
        if t == 'enum en':
            return 'E1'
        n = 'v%d' % self.uid()
        b = t.replace('const ', '')[:-2]
        self.loc.append('%s %s; %s = 0;' % (b, n, n) if b != 'struct st' else
                        'struct st %s; %s.a = 1; %s.b = 2.5; %s.c = 3;' % (n, n, n, n))
        return '&' + n

    def pointer(self, f):
        """Bind f to a function pointer; returns the text to call."""
        d = self.d
        i = self.uid()
        self.f.add('function pointer')
        k = d.int(0, 5)
        sig = self.sig(f)
        self.lib.append('void *get%d(void) { return (void *)%s; }' % (i, f.name))
        self.decl.append('extern void *get%d(void);' % i)
        if k == 0:
            self.loc.append('%s (*fp%d)(%s); fp%d = get%d();' % (f.ret, i, sig, i, i))
            return d.pick(['fp%d', '(*fp%d)']) % i
        if k == 1:
            self.decl.append('typedef %s (*ft%d)(%s);' % (f.ret, i, sig))
            self.loc.append('ft%d fp%d; fp%d = get%d();' % (i, i, i, i))
            return 'fp%d' % i
        if k == 2:
            self.decl.append('struct so%d { int x; %s (*m)(%s); };' % (i, f.ret, sig))
            self.loc.append('struct so%d fm%d; fm%d.m = get%d();' % (i, i, i, i))
            return 'fm%d.m' % i
        if k == 3:
            self.decl.append('typedef %s (*ft%d)(%s);' % (f.ret, i, sig))
            self.loc.append('ft%d fa%d[2]; fa%d[1] = get%d();' % (i, i, i, i))
            return 'fa%d[1]' % i
        if k == 4:
            self.decl.append('struct so%d { int x; %s (*m)(%s); };' % (i, f.ret, sig))
            self.lib.append('struct so%d { int x; %s (*m)(%s); } t%d = { 1, %s };' % (i, f.ret, sig, i, f.name))
            self.decl.append('extern struct so%d t%d;' % (i, i))
            self.loc.append('struct so%d *fm%d; fm%d = &t%d;' % (i, i, i, i))
            return 'fm%d->m' % i
        self.lib.append('%s (*fx%d)(%s) = %s;' % (f.ret, i, sig, f.name))
        self.decl.append('extern %s (*fx%d)(%s);' % (f.ret, i, sig))
        return 'fx%d' % i

    def builtins(self):
        """The checking variants of strcpy and strcat, that some headers expand the calls to."""
        d = self.d
        self.f |= {'builtin', 'nt'}
        p = 'cb%d' % self.uid()
        self.loc.append(d.pick(['char %s[3000]; %s[0] = 0;' % (p, p), 'char *%s = getbuf();' % p]))
        def src():
            return d.pick(['"%s"' % d.pick(STR), 'v_s', '&v_s[1]', 'ident("%s")' % d.pick(STR)])
        def call(inner=None):
            return '__builtin___%s_chk(%s, %s, %s)' % (d.pick(['strcpy', 'strcat']), inner or p, src(), d.pick(['3000', 'sizeof(int) + 2990', '6000 / 2']))
        for _ in range(d.int(1, 5)):
            k = d.int(0, 5)
            if k == 0:
                self.body.append(call() + ';')
            elif k == 1:
                self.body.append('printf("b %%s\\n", %s);' % call())
            elif k == 2:
                self.body.append('printf("b %%d\\n", %s == &%s[0]);' % (call(), p))
            elif k == 3:
                self.body.append('{ int i; for (i = 0; i < 3; i++) %s; }' % call())
            elif k == 4:
                self.body.append('{ char *r; r = %s; printf("b %%s\\n", r); }' % call(call()))
            else:
                self.body.append('%s(%s, %s);' % (d.pick(['strcpy', 'strcat']), p, src()))
            self.body.append('printf("b %%s\\n", &%s[0]);' % p)

    def run(self):
        d = self.d
        for i in range(d.int(1, 4)):
            self.make_fn(i)
        for _ in range(d.int(1, 10)):
            self.nest = 0
            if d.chance(1, 30):
                self.builtins()
                continue
            f = d.pick(self.fns)
            callee = self.pointer(f) if d.chance(1, 4) else None
            c = self.call(f, callee)
            r = f.ret
            i = self.uid()
            k = d.int(0, 3)
            if r == 'void':
                self.body.append(c + ';')
            elif r in FMT:
                if k == 0:
                    self.body.append('printf("= %s\\n", %s);' % (FMT[r], c))
                elif k == 1:
                    self.loc.append('%s r%d;' % (r, i))
                    self.body.append('r%d = %s; printf("= %s\\n", r%d);' % (i, c, FMT[r], i))
                elif k == 2 and r not in FLOATS:
                    self.body.append('printf("= %%d\\n", (%s) == %s);' % (c, literal(d, d.int(0, 9)).text))
                else:
                    self.body.append('%s r%d = %s; printf("= %s\\n", r%d);' % (r, i, c, FMT[r], i))
            elif r == 'char *':
                self.body.append('printf("= %%s\\n", %s);' % c)
            elif r == 'int *':
                self.body.append('printf("= %%d\\n", *%s);' % c)
            else:
                self.body.append('{ struct st *sp; sp = %s; printf("= %%d %%a %%ld\\n", sp->a, sp->b, sp->c); }' % c)
        if 'alloca' in self.f:
            self.decl.append('extern void *alloca(unsigned long n);')
        if 'builtin' in self.f:
            self.lib.append('char *getbuf(void) { static char b[50][3000]; static int i; return b[i++]; }\n'
                            'char *ident(char *s) { return s; }')
            self.decl.append('extern char *getbuf(void);\nextern char *ident(char *s);\n'
                             'extern char *strcpy(char *d, const char *s);\nextern char *strcat(char *d, const char *s);')
            self.loc.append('char v_s[4]; v_s[0] = 120; v_s[1] = 121; v_s[2] = 0;')
        src = ('extern int printf(const char *f, ...);\nextern void *getbase(int i);\nextern char base[64];\n' + HEAD +
               '\n'.join(self.decl) + '\nint main() {\n' + '\n'.join(self.loc) + '\n' + '\n'.join(self.body) +
               '\nreturn 0;\n}\n')
        return {'src': src, 'lib': LIBHEAD + '\n'.join(self.lib) + '\n', 'f': sorted(self.f)}


VA = [('i', 'int'), ('l', 'long'), ('u', 'unsigned int'), ('L', 'unsigned long'), ('q', 'long long'), ('d', 'double'),
      ('s', 'char *'), ('p', 'int *'), ('S', 'struct st *'), ('D', 'long double'), ('d', 'double')]


def gen(d):
    return Gen(d).run()


def cases():
    return case_strategy(scale.mixed(gen, PROP))


def render(case):
    return '/* library */\n%s\n/* script */\n%s' % (case['lib'], case['src'])


def check(env, case):
    lib = env.lib(case['lib'], 'libt')
    expect_same(env.gcc(case['src'], opts=[lib]), env.bic(case['src'], opts=['-l', lib]))
    if case.get('scale'):
        return case['f']
    return case['f'] if set(case['f']) & {'nt', 'variadic', 'converted'} else []
