"""A model of a session at the prompt: generates lines with the output they must have."""
import re
from cgen import *

PTR = 'PTR'


class Cell:
    """An integer object."""

    def __init__(self, t, v=0):
        self.t, self.v = t, v


class Dbl:
    def __init__(self, t, v=0.0):
        self.t, self.v = t, v          # 'double' or 'float'


class Str:
    """A char * object; None or the text it points to."""

    def __init__(self, v=None):
        self.v = v


class Arr:
    def __init__(self, t, n):
        self.t, self.cells = t, [Cell(t) for _ in range(n)]


class Ptr:
    """A pointer to an integer object (None is a null pointer)."""

    def __init__(self, t, target=None):
        self.t, self.target = t, target


class SPtr:
    def __init__(self, st, target=None):
        self.st, self.target = st, target


class SType:
    def __init__(self, spec, members):
        self.spec, self.tag, self.members = spec, spec[7:], members      # members: [(name, kind, arg)]


class Struct:
    def __init__(self, st):
        self.st = st
        self.m = {}
        for n, k, a in st.members:
            self.m[n] = {'int': lambda: Cell(a), 'dbl': lambda: Dbl(a), 'str': Str, 'arr': lambda: Arr(*a),
                         'struct': lambda: Struct(a), 'ptr': lambda: Ptr(a)}[k]()


class Opq:
    """An object that is only declared, echoed and inspected."""

    def __init__(self, desc, size, text, const=True):
        self.desc, self.size, self.text = desc, size, text


class Enum(Opq):
    """A variable of an enumeration."""


class Union:
    def __init__(self, tag, members):
        self.tag, self.members, self.b = tag, members, bytearray(max(t.size for _, t in members))

    def get(self, t):
        return int.from_bytes(self.b[:t.size], 'little', signed=t.lo < 0)

    def set(self, t, v):
        self.b[:t.size] = v.to_bytes(t.size, 'little', signed=t.lo < 0)


def fmt_f(v):
    return '%.6f' % v


def show_value(o):
    """The echo of an object (without indentation)."""
    if isinstance(o, Cell):
        return '%d' % o.v
    if isinstance(o, Dbl):
        return fmt_f(o.v)
    if isinstance(o, Str):
        return '(nil)' if o.v is None else '%s ("%s")' % (PTR, o.v)
    if isinstance(o, Arr):
        if o.t is CHAR:
            return '%s ("%s")' % (PTR, cstr(o))
        return PTR
    if isinstance(o, (Ptr, SPtr)):
        if o.target is None:
            return '(nil)'
        if isinstance(o, Ptr) and o.t is CHAR:
            return None
        return PTR
    if isinstance(o, Struct):
        out = ['{']
        for n, k, a in o.st.members:
            out.append('.%s = %s' % (n, show_value(o.m[n])))
        return '\n'.join(out + ['}'])
    if isinstance(o, Opq):
        return o.text
    if isinstance(o, Union):
        return '\n'.join(['{'] + ['.%s = %d' % (n, o.get(t)) for n, t in o.members] + ['}'])
    raise AssertionError(o)


def cstr(a):
    r = ''
    for c in a.cells:
        if c.v == 0:
            break
        r += chr(c.v & 255)
    return r


def norm(text):
    """Output of a line without addresses and indentation."""
    text = re.sub(r'0x[0-9a-f]{5,}', PTR, text)
    return '\n'.join(l.strip(' ') for l in text.split('\n')).rstrip('\n')


def transcript(out):
    """[(echoed line, output)] of a session's stdout."""
    text = out.decode('latin-1')
    parts = re.split(r'BIC> ', text)
    res = []
    for p in parts[1:]:
        echo, _, rest = p.partition('\n')
        res.append((echo, rest))
    return parts[0], res


DBLS = [0.0, 0.5, 1.5, 2.25, 100.125, 3.0, 0.75, 1024.0625]
WORDS = ['', 'a', 'hello', 'two words', 'x=1;', '100%', '// no', '/* c */', '{}', 'tab', "it's", '<&>', 'zz zz', '#include']


class Session:
    def __init__(self, d, prefix='', decls=True):
        self.d = d
        self.vars = {}        # name -> object, in order of declaration
        self.consts = {}      # enumerators
        self.stypes = []
        self.typedefs = {}
        self.funcs = []
        self.tags = []        # of enumerations
        self.n = 0
        self.prefix = prefix
        self.letters = d.pick([['v', 'x', 'A', 'i'], ['s', 'p', 'n', 'k'], ['_', 'q', 'T', 'w']])
        self.kinds = set()

    # -- names -----------------------------------------------------------
    def name(self):
        self.n += 1
        if not self.prefix and self.letters and self.d.chance(1, 6):
            return self.letters.pop(0)
        base = self.d.pick(['v', 'count', 'x', 'tmp', 'A', '_n', 'value', 'i'])
        return '%s%s%d' % (self.prefix, base, self.n)

    # -- walking objects ------------------------------------------------------
    def walk(self, toks, prec, o, want, out, depth=0):
        if isinstance(o, want):
            out.append((toks, prec, o))
        if isinstance(o, Arr):
            for i, c in enumerate(o.cells):
                self.walk(toks + ['[', str(i), ']'], 17, c, want, out, depth + 1)
        elif isinstance(o, Struct):
            for n, m in o.m.items():
                self.walk(toks + ['.', n], 17, m, want, out, depth + 1)
        elif isinstance(o, Ptr) and o.target is not None and depth < 4:
            self.walk(['*'] + toks, 15, o.target, want, out, depth + 1)
        elif isinstance(o, SPtr) and o.target is not None and depth < 4:
            for n, m in o.target.m.items():
                self.walk(toks + ['->', n], 17, m, want, out, depth + 1)
            if isinstance(o.target, want):
                out.append((['*'] + toks, 15, o.target))

    def lvalues(self, want):
        out = []
        for n, o in self.vars.items():
            self.walk([n], 17, o, want, out)
        return out

    def int_leaf(self, d):
        k = d.int(0, 5)
        cells = self._cells
        if k >= 2 and cells:
            toks, prec, c = d.pick(cells)
            return X(toks, prec, c.t, c.v)
        if k == 1 and self.consts:
            n = d.pick(list(self.consts))
            return X([n], 17, INT, self.consts[n])
        return literal(d)

    def int_expr(self, depth):
        self._cells = self.lvalues(Cell)
        return expr(self.d, self.int_leaf, depth, ops=BINOP_LIST[:-1])

    # -- declarations ---------------------------------------------------------
    def tname(self, t):
        names = [n for n, u in self.typedefs.items() if u is t]
        if names and self.d.bool():
            return self.d.pick(names)
        return t.name

    def decl_int(self):
        d = self.d
        t = d.pick(INTS)
        names, parts = [], []
        new = {}
        for _ in range(d.weighted([(4, 1), (1, 2), (1, 3)])):
            n = self.name()
            c = Cell(t)
            if d.int(0, 2):
                e = self.int_expr(d.int(0, 2))
                c.v = t.wrap(e.v)
                parts.append('%s = %s' % (n, e.text))
            else:
                parts.append(n)
            new[n] = c
        self.vars.update(new)
        self.kinds.add('int declaration')
        spec = self.tname(t)
        if d.chance(1, 8):
            spec = 'static ' + spec
        return '%s %s;' % (spec, ', '.join(parts)), list(new)[-1]

    def decl_dbl(self):
        d = self.d
        t = d.pick(['double', 'float'])
        n = self.name()
        v = d.pick(DBLS)
        self.vars[n] = o = Dbl(t)
        if d.bool():
            o.v = v
            return '%s %s = %r;' % (t, n, v), n
        return '%s %s;' % (t, n), n

    def decl_str(self):
        n = self.name()
        self.vars[n] = o = Str()
        if self.d.bool():
            o.v = self.d.pick(WORDS)
            return 'char *%s = "%s";' % (n, o.v), n
        return 'char *%s;' % n, n

    def decl_arr(self):
        d = self.d
        t = d.pick(INTS)
        n = self.name()
        k = d.int(1, 5)
        self.vars[n] = Arr(t, k)
        return '%s %s[%d];' % (self.tname(t), n, k), n

    def decl_ptr(self):
        d = self.d
        cells = [c for c in self.lvalues(Cell) if c[2].t is not CHAR]
        if not cells:
            return self.decl_int()
        toks, prec, c = d.pick(cells)
        n = self.name()
        self.vars[n] = p = Ptr(c.t)
        if d.bool():
            p.target = c
            return '%s *%s = &%s;' % (c.t.name, n, join(toks if prec >= 15 else ['('] + toks + [')'])), n
        return '%s *%s;' % (c.t.name, n), n

    def decl_other(self):
        """Pointers of every depth and base, arrays of pointers and structs, enumerations, unions, function pointers."""
        d = self.d
        n = self.name()
        k = d.int(0, 9)
        self.kinds.add('other objects')
        if k <= 5:
            base, desc = d.pick([(t.name, DESC[t]) for t in INTS] + [('float', 'float'), ('double', 'double'), ('long double', 'long double'),
                                                                    ('void', 'Void type'), ('const char', DESC[CHAR])] * 2 +
                                [(st.spec, st.tag) for st in self.stypes] * 3 + [('enum ' + t, DESC[UINT]) for t in self.tags] * 2 +
                                [(x, DESC[t]) for x, t in self.typedefs.items()] * 2)
            depth = d.weighted([(3, 1), (4, 2), (3, 3), (1, 4), (1, 5)])
            if k == 5:
                z = d.int(1, 4)
                self.vars[n] = Opq('pointer to a ' * (depth + 1) + desc, 8 * z, PTR)
                return '%s %s%s[%d];' % (base, '*' * depth, n, z), n
            if k == 4:
                # points to another pointer
                ps = [(x, o) for x, o in self.vars.items() if isinstance(o, Opq) and o.text == '(nil)' and hasattr(o, 'ctype')]
                if ps:
                    x, o = d.pick(ps)
                    self.vars[n] = Opq('pointer to a ' + o.desc, 8, PTR)
                    return '%s *%s = &%s;' % (o.ctype, n, x), n
            self.vars[n] = o = Opq('pointer to a ' * depth + desc, 8, '(nil)')
            o.ctype = '%s %s' % (base, '*' * depth)
            if (base, depth) in (('char', 1), ('const char', 1)):
                del o.ctype
            return '%s %s%s%s;' % (base, '*' * depth, n, d.pick([' = 0', ''])), n
        if k == 6:
            ret, par = d.pick(['int', 'void', 'char *', 'double']), d.pick(['int', 'void', 'char *__s, int __n', 'const char *, ...'])
            if d.bool():
                self.vars[n] = Opq('pointer to a Function', 8, '(nil)')
                return '%s (*%s)(%s);' % (ret, n, par), n
            z = d.int(1, 3)
            self.vars[n] = Opq('pointer to a pointer to a Function', 8 * z, PTR)
            return '%s (*%s[%d])(%s);' % (ret, n, z, par), n
        if k == 7 and self.stypes:
            st = d.pick(self.stypes)
            z = d.int(1, 4)
            self.vars[n] = Opq('pointer to a ' + st.tag, z * size_of('struct', st), PTR)
            return '%s %s[%d];' % (st.spec, n, z), n
        if k == 8 and self.tags:
            v = d.int(0, 40)
            self.vars[n] = Enum(DESC[UINT], 4, '%d' % v)
            return 'enum %s %s = %d;' % (d.pick(self.tags), n, v), n
        mem = [(x, d.pick(INTS)) for x in ['mi', 'c_', 'xx'][:d.int(1, 3)]]
        self.vars[n] = Union('U' + n, mem)
        return 'union U%s { %s } %s;' % (n, ' '.join('%s %s;' % (t.name, x) for x, t in mem), n), n

    def ex_other(self):
        d = self.d
        objs = [(n, o) for n, o in self.vars.items() if isinstance(o, (Enum, Union))]
        if not objs:
            return self.decl_other()
        n, o = d.pick(objs)
        if isinstance(o, Enum):
            v = d.int(0, 40)
            o.text = '%d' % v
            return '%s = %d;' % (n, v), o.text
        m, t = d.pick(o.members)
        v = max(t.lo + 1, min(t.hi, value(d, t)))
        o.set(t, v)
        return '%s.%s = %s;' % (n, m, literal(d, v).text), '%d' % v

    def new_stype(self):
        d = self.d
        tag = self.name()
        mem, text = [], []
        for i in range(d.int(1, 4)):
            mn = d.pick(['a', 'b', 'len', 'next', 'k']) + str(i)
            k = d.int(0, 6)
            if k <= 2:
                t = d.pick(INTS)
                mem.append((mn, 'int', t)); text.append('%s %s;' % (t.name, mn))
            elif k == 3:
                mem.append((mn, 'dbl', 'double')); text.append('double %s;' % mn)
            elif k == 4:
                mem.append((mn, 'str', None)); text.append('char *%s;' % mn)
            elif k == 5:
                t = d.pick([INT, SHORT, LONG])
                z = d.int(1, 3)
                mem.append((mn, 'arr', (t, z))); text.append('%s %s[%d];' % (t.name, mn, z))
            elif self.stypes:
                s = d.pick(self.stypes)
                mem.append((mn, 'struct', s)); text.append('%s %s;' % (s.spec, mn))
            else:
                mem.append((mn, 'ptr', INT)); text.append('int *%s;' % mn)
        st = SType('struct ' + tag, mem)
        return st, 'struct %s { %s }' % (tag, ' '.join(text))

    def decl_struct(self):
        d = self.d
        self.kinds.add('struct')
        k = d.int(0, 3)
        if not self.stypes or k == 0:
            st, text = self.new_stype()
            if d.chance(1, 4):
                td = self.name()
                st.spec = td
                self.stypes.append(st)
                return 'typedef %s %s;' % (text, td), td
            self.stypes.append(st)
            if d.bool():
                return text + ';', ''
            n = self.name()
            self.vars[n] = Struct(st)
            return '%s %s;' % (text, n), n
        st = d.pick(self.stypes)
        if k == 3:
            objs = [x for x in self.lvalues(Struct) if x[2].st is st]
            n = self.name()
            self.vars[n] = p = SPtr(st)
            if objs and d.int(0, 3):
                toks, prec, o = d.pick(objs)
                p.target = o
                return '%s *%s = &%s;' % (st.spec, n, join(toks)), n
            return '%s *%s;' % (st.spec, n), n
        n = self.name()
        self.vars[n] = Struct(st)
        return '%s %s;' % (st.spec, n), n

    def decl_enum(self):
        d = self.d
        v, parts = -1, []
        for _ in range(d.int(1, 4)):
            n = self.name()
            v += 1
            if d.chance(1, 3):
                v = d.int(0, 50)
                parts.append('%s = %d' % (n, v))
            else:
                parts.append(n)
            self.consts[n] = v
        self.kinds.add('enum')
        tag = self.name() if d.bool() else ''
        if tag:
            self.tags.append(tag)
        return 'enum %s{ %s };' % (tag + ' ' if tag else '', ', '.join(parts)), ''

    def decl_typedef(self):
        t = self.d.pick(INTS)
        n = self.name()
        text = 'typedef %s %s;' % (self.tname(t), n)
        self.typedefs[n] = t
        self.kinds.add('typedef')
        return text, n

    # -- expressions -----------------------------------------------------------
    def ex_int(self):
        e = self.int_expr(self.d.int(0, 3))
        self.kinds.add('expression')
        return e.text + ';', '%d' % e.v

    def as_int(self, v, e):
        return v

    def ex_assign(self):
        d = self.d
        cells = self.lvalues(Cell)
        if not cells:
            return self.decl_int()
        toks, prec, c = d.pick(cells)
        e = self.int_expr(d.int(0, 2))
        self.kinds.add('assignment')
        if len(cells) > 1 and d.chance(1, 6):
            toks2, prec2, c2 = d.pick(cells)
            c2.v = c2.t.wrap(e.v)
            c.v = c.t.wrap(c2.v)
            return '%s = %s = %s;' % (join(toks), join(toks2), e.text), '%d' % c.v
        c.v = c.t.wrap(e.v)
        return '%s = %s;' % (join(toks), e.text), '%d' % c.v

    def ex_inc(self):
        d = self.d
        cells = self.lvalues(Cell)
        if not cells:
            return self.decl_int()
        toks, prec, c = d.pick(cells)
        op = d.pick(['++', '--'])
        old = c.v
        text = join(toks)
        if prec < 17:
            text = '(%s)' % text
        new = c.t.wrap(old + (1 if op == '++' else -1))
        c.v = new
        self.kinds.add('increment')
        if d.bool():
            return '%s%s;' % (text, op), '%d' % old
        return '%s%s;' % (op, text), '%d' % new

    def ex_compound(self):
        d = self.d
        cells = self.lvalues(Cell)
        if not cells:
            return self.decl_int()
        toks, prec, c = d.pick(cells)
        e = self.int_expr(d.int(0, 1))
        op = d.pick(['+', '-', '/', '^'])
        r = binop_value(op, X(toks, prec, c.t, c.v), e)
        if r is None:
            return self.ex_int()
        c.v = c.t.wrap(r[1])
        self.kinds.add('compound assignment')
        return '%s %s= %s;' % (join(toks), op, e.text), '%d' % c.v

    def ex_dbl(self):
        d = self.d
        ds = self.lvalues(Dbl)
        k = d.int(0, 3)
        if not ds or k == 0:
            v = d.pick(DBLS)
            return '%r;' % v, fmt_f(v)
        toks, prec, o = d.pick(ds)
        if k == 1:
            return join(toks) + ';', fmt_f(o.v)
        if k == 2 and len(ds) > 1:
            t2, _, o2 = d.pick(ds)
            o.v = o2.v
            return '%s = %s;' % (join(toks), join(t2)), fmt_f(o.v)
        o.v = d.pick(DBLS)
        self.kinds.add('floating')
        return '%s = %r;' % (join(toks), o.v), fmt_f(o.v)

    def ex_str(self):
        d = self.d
        ss = self.lvalues(Str)
        k = d.int(0, 4)
        self.kinds.add('string')
        if not ss or k == 0:
            w = d.pick(WORDS)
            return '"%s";' % w, '"%s"' % w
        toks, prec, o = d.pick(ss)
        if k == 1:
            return join(toks) + ';', show_value(o)
        if k == 2 and o.v:
            i = d.int(0, len(o.v) - 1)
            return '%s[%d];' % (join(toks if prec >= 17 else ['('] + toks + [')']), i), '%d' % ord(o.v[i])
        if k == 3 and o.v and prec == 17:
            o.v = o.v[1:]
            return '%s = %s + 1;' % (join(toks), join(toks)), show_value(o)
        o.v = d.pick(WORDS)
        return '%s = "%s";' % (join(toks), o.v), show_value(o)

    def ex_ptr(self):
        d = self.d
        ps = self.lvalues((Ptr, SPtr))
        if not ps:
            return self.decl_ptr()
        toks, prec, p = d.pick(ps)
        self.kinds.add('pointer')
        k = d.int(0, 3)
        if k == 0:
            return join(toks) + ';', show_value(p)
        if k == 1:
            p.target = None
            return '%s = 0;' % join(toks), '(nil)'
        if isinstance(p, Ptr):
            objs = [x for x in self.lvalues(Cell) if x[2].t is p.t and x[2] is not p.target]
        else:
            objs = [x for x in self.lvalues(Struct) if x[2].st is p.st]
        objs = [x for x in objs if x[0][0] != '*' or True]
        if not objs:
            return join(toks) + ';', show_value(p)
        t2, prec2, o = d.pick(objs)
        p.target = o
        return '%s = &%s;' % (join(toks), join(t2)), PTR

    def ex_any(self):
        objs = self.lvalues((Cell, Dbl, Str, Arr, Struct, Ptr, SPtr, Opq, Union))
        if not objs:
            return self.decl_int()
        toks, prec, o = self.d.pick(objs)
        s = show_value(o)
        if s is None:
            return self.ex_int()
        self.kinds.add('echo of ' + type(o).__name__)
        return join(toks) + ';', s

    PROTO = {'printf': 'extern int printf(const char *__f, ...);', 'puts': 'extern int puts(const char *__s);',
             'abs': 'extern int abs(int __i);', 'strlen': 'extern unsigned long strlen(const char *__s);',
             'srand': 'extern void srand(unsigned int __s);', 'toupper': 'extern int toupper(int __c);'}

    def ex_call(self):
        d = self.d
        f = d.pick(list(self.funcs or self.PROTO) if d.bool() else list(self.PROTO))
        if f not in self.funcs:
            self.funcs.append(f)
            return self.PROTO[f], f
        self.kinds.add('call')
        if f == 'printf':
            e = self.int_expr(d.int(0, 2))
            if e.prec <= 1:
                e = e.paren()
            o = '<%d>' % INT.wrap(e.v) if promote(e.t).bits == 32 else '<%d>' % LONG.wrap(e.v)
            c = '%d' if promote(e.t).bits == 32 else '%ld'
            # the type bic passes is that of the value, make it definite
            return 'printf("<%s>\\n", (%s)%s);' % (c, 'int' if c == '%d' else 'long',
                                                   e.paren().text if e.prec < 15 else e.text), o + '\n%d' % (len(o) + 1)
        if f == 'puts':
            w = d.pick(WORDS)
            return 'puts("%s");' % w, '%s\n%d' % (w, len(w) + 1)
        if f == 'strlen':
            ss = [s for s in self.lvalues(Str) if s[2].v is not None]
            if ss and d.bool():
                toks, _, o = d.pick(ss)
                return 'strlen(%s);' % join(toks), '%d' % len(o.v)
            w = d.pick(WORDS)
            return 'strlen("%s");' % w, '%d' % len(w)
        if f == 'srand':
            return 'srand(%d);' % d.int(0, 9), ''
        e = self.int_expr(d.int(0, 2))
        v = e.v
        if not -200 < v < 200:
            e = literal(d, v % 200)
            v = e.v
        if f == 'abs':
            return 'abs(%s);' % e.text, '%d' % abs(v)
        v = abs(v)
        return 'toupper(abs(%s));' % e.text if 'abs' in self.funcs else 'toupper(%d);' % v, \
            '%d' % (v - 32 if 97 <= v <= 122 else v)

    def line(self):
        return self.d.weighted([
            (3, self.decl_int), (1, self.decl_dbl), (1, self.decl_str), (1, self.decl_arr), (1, self.decl_ptr),
            (2, self.decl_struct), (1, self.decl_enum), (1, self.decl_typedef), (1, self.decl_other), (1, self.ex_other),
            (4, self.ex_int), (4, self.ex_assign), (2, self.ex_inc), (2, self.ex_compound), (1, self.ex_dbl),
            (2, self.ex_str), (2, self.ex_ptr), (3, self.ex_any), (3, self.ex_call)])()

    def dump(self):
        """Lines that show the value of every object."""
        res = []
        for n, o in self.vars.items():
            s = show_value(o)
            if s is not None:
                res.append((n + ';', s))
        return res


# -- layout ---------------------------------------------------------------------
def align_of(k, a):
    if k == 'int':
        return a.size
    if k == 'arr':
        return a[0].size
    if k == 'struct':
        return max(align_of(k2, a2) for _, k2, a2 in a.members)
    return 4 if a == 'float' else 8


def size_of(k, a):
    if k == 'int':
        return a.size
    if k == 'arr':
        return a[0].size * a[1]
    if k != 'struct':
        return 4 if a == 'float' else 8
    off = 0
    for _, k2, a2 in a.members:
        al = align_of(k2, a2)
        off = -(-off // al) * al + size_of(k2, a2)
    al = align_of('struct', a)
    return -(-off // al) * al


DESC = {CHAR: 'signed char', SHORT: 'signed short', INT: 'signed integer', LONG: 'signed long', LLONG: 'signed long long',
        UCHAR: 'unsigned char', USHORT: 'unsigned short', UINT: 'unsigned integer', ULONG: 'unsigned long',
        ULLONG: 'unsigned long long'}


def describe(o):
    """(type description, size) of an object."""
    if isinstance(o, Cell):
        return DESC[o.t], o.t.size
    if isinstance(o, Dbl):
        return o.t, 4 if o.t == 'float' else 8
    if isinstance(o, Str):
        return 'pointer to a signed char', 8
    if isinstance(o, Arr):
        return 'pointer to a ' + DESC[o.t], o.t.size * len(o.cells)
    if isinstance(o, Ptr):
        return 'pointer to a ' + DESC[o.t], 8
    if isinstance(o, SPtr):
        return 'pointer to a ' + o.st.tag, 8
    if isinstance(o, Opq):
        return o.desc, o.size
    if isinstance(o, Union):
        return o.tag, len(o.b) if len(o.b) == 1 else -(-len(o.b) // max(t.size for _, t in o.members)) * max(t.size for _, t in o.members)
    return o.st.tag, size_of('struct', o.st)


def inspection(n, o, where):
    """The lines ?n must print."""
    t, z = describe(o)
    return '%s is a %s.\nvalue of %s is %s\nsizeof(%s) = %d bytes.\n%s was declared at: %s' % (
        n, t, n, show_value(o), n, z, n, where)


# -- extreme in one dimension -----------------------------------------------------
def big(d, s):
    """Lines (with what they print) that are large in one dimension; the objects join the session."""
    k = d.int(0, 9)
    s.kinds.add('large %d' % k)
    n = d.pick([17, 33, 65, 100, 129, 200, 257, 300])
    out = []
    if k == 0:
        # many objects
        names = []
        t = d.pick(INTS)
        for i in range(n):
            x = '%s_m%d' % (s.name(), i)
            v = i % 100
            s.vars[x] = Cell(t, v)
            names.append(x)
            out.append(('%s %s = %d;' % (t.name, x, v), x))
        for i in (0, n - 1, d.int(0, n - 1)):
            out.append((names[i] + ';', '%d' % s.vars[names[i]].v))
            if i != n // 2:
                s.vars[names[i]].v += 1
                out.append(('++%s;' % names[i], '%d' % s.vars[names[i]].v))
    elif k == 1:
        # long strings
        z = d.pick([255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 9000, 20000])
        w = ''.join('abcdefghij klmnopqrstuvwxyz;{}<>=!'[(i * i + i // 7) % 34] for i in range(z - 1)) + 'z'
        n = s.name()
        s.vars[n] = o = Str(w)
        out.append(('char *%s = "%s";' % (n, w), n))
        out.append((n + ';', show_value(o)))
        out.append(('%s[%d];' % (n, z - 1), '%d' % ord('z')))
        out.append(('"%s";' % w, '"%s"' % w))
    elif k == 2:
        # a large array
        z = d.pick([100, 255, 256, 257, 1000, 5000, 32768, 65536, 65537, 100000])
        t = d.pick(INTS)
        x = s.name()
        cells = {}
        s.vars[x] = Opq('pointer to a ' + DESC[t], z * t.size, PTR)
        if t is CHAR:
            s.vars[x].text = '%s ("")' % PTR
        out.append(('%s %s[%d];' % (t.name, x, z), x))
        for _ in range(d.int(2, 8)):
            i = d.pick([z - 1, z - 2, z // 2, d.int(1, z - 1), 255 if z > 256 else 3])
            v = d.int(0, 100)
            cells[i] = v
            out.append(('%s[%d] = %d;' % (x, i, v), '%d' % v))
        for i in cells:
            out.append(('%s[%d];' % (x, i), '%d' % cells[i]))
        if t is CHAR and z > 2:
            pass
    elif k == 3:
        # a compound with many members
        tag = s.name()
        mem = [('m%d' % i, 'int', INTS[(i * 7) % len(INTS)]) for i in range(n)]
        st = SType('struct ' + tag, mem)
        s.stypes.append(st)
        x = s.name()
        s.vars[x] = Struct(st)
        out.append(('struct %s { %s } %s;' % (tag, ' '.join('%s %s;' % (t.name, m) for m, _, t in mem), x), x))
        for _ in range(d.int(2, 8)):
            m, _, t = d.pick([mem[-1], d.pick(mem), mem[0]])
            v = d.int(0, 100)
            s.vars[x].m[m].v = v
            out.append(('%s.%s = %d;' % (x, m, v), '%d' % v))
        out.append((x + ';', show_value(s.vars[x])))
    elif k == 4:
        # long names that share a long prefix
        z = d.pick([31, 32, 63, 64, 127, 128, 200, 255, 256, 300, 1000])
        base = s.name() + 'n' * z
        for suffix in d.shuffle(['', 'a', 'b', 'ab'])[:d.int(2, 4)]:
            v = d.int(0, 100)
            s.vars[base + suffix] = Cell(INT, v)
            out.append(('int %s = %d;' % (base + suffix, v), base + suffix))
        for x in [x for x in s.vars if x.startswith(base)]:
            out.append((x + ';', '%d' % s.vars[x].v))
    elif k == 5:
        # deep pointers
        x = s.name()
        z = min(n, 65)
        s.vars[x] = Opq('pointer to a ' * z + DESC[INT], 8, '(nil)')
        out.append(('int %s%s;' % ('*' * z, x), x))
    elif k == 6:
        # long lines
        cells = s.lvalues(Cell)
        v, parts = 0, []
        for i in range(n * d.int(1, 4)):
            if cells and i % 5 == 0:
                t, p, c = cells[i % len(cells)]
                if p >= 15 and abs(c.v) < 1000:
                    parts.append(join(t))
                    v += c.v
                    continue
            parts.append(str(i % 97))
            v += i % 97
        out.append((' + '.join(parts) + ';', '%d' % v))
        out.append(('(' * n + '7' + ' + 1)' * n + ';', '%d' % (7 + n)))
    elif k == 7:
        # many declarators
        t = d.pick(INTS)
        names = ['%s_d%d' % (s.name(), i) for i in range(n)]
        for i, x in enumerate(names):
            s.vars[x] = Cell(t, i % 100)
        out.append(('%s %s;' % (t.name, ', '.join('%s = %d' % (x, s.vars[x].v) for x in names)), names[-1]))
        out.append((names[0] + ';', '0'))
    elif k == 8:
        # deeply nested compounds
        z = d.pick([9, 16, 17, 20, 33])
        prev = None
        for i in range(z):
            tag = s.name()
            mem = [('a', 'int', d.pick(INTS))] + ([('n', 'struct', prev)] if prev else [])
            st = SType('struct ' + tag, mem)
            out.append(('struct %s { %s a; %s};' % (tag, mem[0][2].name, '%s n; ' % prev.spec if prev else ''), ''))
            prev = st
        x = s.name()
        s.vars[x] = o = Struct(prev)
        out.append(('%s %s;' % (prev.spec, x), x))
        for _ in range(4):
            i = d.pick([z - 1, 0, d.int(0, z - 1)])
            o = s.vars[x]
            for _ in range(i):
                o = o.m['n']
            o.m['a'].v = v = d.int(0, 100)
            out.append(('%s%s.a = %d;' % (x, '.n' * i, v), '%d' % v))
        s.stypes.append(prev)
    else:
        # one line again and again
        x = s.name()
        s.vars[x] = c = Cell(INT, 0)
        out.append(('int %s;' % x, x))
        line = d.pick(['%s++;', '++%s;', '%s += 2;', '%s = %s + 3;', 'printf("<%%d>\\n", ++%s);'])
        if 'printf' in line and 'printf' not in s.funcs:
            s.funcs.append('printf')
            out.append((s.PROTO['printf'], 'printf'))
        line = line.replace('%s', x).replace('%%', '%')
        for _ in range(n):
            if 'printf' in line:
                c.v += 1
                out.append((line, '<%d>\n%d' % (c.v, len(str(c.v)) + 3)))
            elif '++' in line:
                c.v += 1
                out.append((line, '%d' % (c.v - (not line.startswith('+')))))
            else:
                c.v += 2 if '+= 2' in line else 3
                out.append((line, '%d' % c.v))
    return out
