"""Generators of C programs (Hypothesis), with a model of C's integer types."""
from functools import lru_cache
from hypothesis import strategies as st


@lru_cache(maxsize=None)
def _ints(lo, hi):
    return st.integers(lo, hi)


@lru_cache(maxsize=None)
def _bool():
    return st.booleans()


class D:
    """Convenience wrapper around Hypothesis' draw."""

    def __init__(self, draw):
        self.draw = draw

    def int(self, lo, hi):
        return self.draw(_ints(lo, hi)) if lo < hi else lo

    def bool(self):
        return self.draw(_bool())

    def chance(self, k, n):
        """True in about k of n cases; shrinks to False."""
        return self.int(0, n - 1) >= n - k

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, pairs):
        tot = sum(w for w, _ in pairs)
        x = self.int(0, tot - 1)
        for w, v in pairs:
            if x < w:
                return v
            x -= w

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.int(0, i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


def case_strategy(fn):
    """Turn fn(D) -> case into a strategy."""
    @st.composite
    def s(draw):
        return fn(D(draw))
    return s()


# ---------------------------------------------------------------- C types
class T:
    def __init__(self, name, bits, signed, rank, fmt):
        self.name, self.bits, self.signed, self.rank, self.fmt = name, bits, signed, rank, fmt
        self.size = bits // 8
        self.lo = -(1 << (bits - 1)) if signed else 0
        self.hi = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1

    def fits(self, v):
        return self.lo <= v <= self.hi

    def wrap(self, v):
        v &= (1 << self.bits) - 1
        if self.signed and v > self.hi:
            v -= 1 << self.bits
        return v

    def __repr__(self):
        return self.name


CHAR = T('char', 8, True, 1, '%d')
UCHAR = T('unsigned char', 8, False, 1, '%d')
SHORT = T('short', 16, True, 2, '%d')
USHORT = T('unsigned short', 16, False, 2, '%d')
INT = T('int', 32, True, 3, '%d')
UINT = T('unsigned int', 32, False, 3, '%u')
LONG = T('long', 64, True, 4, '%ld')
ULONG = T('unsigned long', 64, False, 4, '%lu')
LLONG = T('long long', 64, True, 5, '%lld')
ULLONG = T('unsigned long long', 64, False, 5, '%llu')
INTS = [INT, CHAR, LONG, SHORT, UCHAR, UINT, USHORT, ULONG, LLONG, ULLONG]
FLOATS = ['float', 'double']


def promote(t):
    return INT if t.rank < 3 else t


def common(a, b):
    a, b = promote(a), promote(b)
    if a is b:
        return a
    if a.signed == b.signed:
        return a if a.rank > b.rank else b
    u, s = (a, b) if not a.signed else (b, a)
    if u.rank >= s.rank:
        return u
    if s.bits > u.bits:
        return s
    return {LONG: ULONG, LLONG: ULLONG}[s]


def lit_type(text, v):
    if text[0] != '0' or text == '0':
        return INT if v <= INT.hi else LONG
    for t in (INT, UINT, LONG, ULONG):
        if v <= t.hi:
            return t


def value(d, t):
    """An interesting value of type t."""
    k = d.int(0, 5)
    if k <= 2:
        v = d.int(0, 20)
        if t.signed and d.bool():
            v = -v
        return v
    if k == 3:
        return d.pick([t.hi, t.lo, t.hi - 1, t.lo + 1, t.hi // 2, t.lo // 2 + 1])
    if k == 4:
        s = d.int(0, t.bits - 2)
        v = (1 << s) + d.int(-1, 1)
        if t.signed and d.bool():
            v = -v
        return min(max(v, t.lo), t.hi)
    return d.int(t.lo, t.hi)


class X:
    """An expression: tokens, precedence, type, value."""
    __slots__ = ('toks', 'prec', 't', 'v', 'depth', 'ops')

    def __init__(self, toks, prec, t, v, depth=0, ops=()):
        self.toks, self.prec, self.t, self.v, self.depth, self.ops = toks, prec, t, v, depth, ops

    def paren(self):
        return X(['('] + self.toks + [')'], 17, self.t, self.v, self.depth, self.ops)

    @property
    def text(self):
        return join(self.toks)


def join(toks, seps=None):
    """Join tokens; seps yields the separator wanted before each token."""
    out = []
    prev = ''
    for i, k in enumerate(toks):
        s = ' ' if seps is None else seps(i)
        if s == '' and prev and _clash(prev, k):
            s = ' '
        if i:
            if s[:1] == '/' and prev[-1:] == '/':
                s = ' ' + s
            out.append(s)
        out.append(k)
        prev = k
    return ''.join(out)


def _clash(a, b):
    x, y = a[-1], b[0]
    if (x.isalnum() or x in '_.') and (y.isalnum() or y in '_.'):
        return True
    if x in '+-&|<>=!/*%^:' and y in '+-&|<>=!/*%^:>':
        return True
    # glibc's preprocessor treats a string directly followed by a name specially
    return (x in '"\'' and (y.isalnum() or y == '_')) or (y in '"\'' and (x.isalnum() or x == '_'))


SEPS = ['', ' ', '  ', '\t', '\n', ' /* c */ ', '/**/', ' // x\n', '\n\n']


def sep_fn(d, tame=False):
    """A random token separator function."""
    mode = d.int(0, 3)
    if mode <= 1 or tame:
        return None
    if mode == 2:
        return lambda i: ''
    base = [d.pick(SEPS) for _ in range(6)]
    return lambda i: base[(i * 7 + i // 5) % 6]


def lit(d, v):
    """A literal token for the non-negative value v."""
    k = d.int(0, 5)
    if k == 4 and v:
        s = '0%o' % v
    elif k == 5:
        h = '%x' % v
        s = '0x' + (h.upper() if d.bool() else h)
    else:
        s = '%d' % v
        if v > LONG.hi:
            s = '0x%x' % v
    return s


def literal(d, v=None):
    """A literal expression, negative values with a unary minus."""
    if v is None:
        v = value(d, d.weighted([(4, INT), (1, LONG), (1, CHAR), (1, UINT)]))
    if v == LONG.lo:
        v += 1
    s = lit(d, abs(v))
    t = lit_type(s, abs(v))
    if v < 0:
        # -0x80000000 would be unsigned.
        if not t.signed:
            s = '%d' % -v
            t = lit_type(s, -v)
        return X(['-', s], 15, t, v, 1, ('neg',))
    if 32 <= v < 127 and chr(v) not in '\'"\\?' and d.chance(1, 6):
        return X(["'%c'" % v], 17, INT, v)
    return X([s], 17, t, v)


BINOPS = {
    '*': 13, '/': 13, '%': 13, '+': 12, '-': 12, '<<': 11, '>>': 11,
    '<': 10, '>': 10, '<=': 10, '>=': 10, '==': 9, '!=': 9,
    '&': 8, '^': 7, '|': 6, '&&': 5, '||': 4, ',': 1,
}
BINOP_LIST = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '<', '>', '<=', '>=', '==', '!=', '&&', '||', ',']


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def binop_value(op, a, b):
    """(type, value) of a op b, or None where the exact value isn't the C value."""
    if op == ',':
        return b.t, b.v
    if op in ('&&', '||'):
        return INT, int((a.v and b.v) != 0 if op == '&&' else (a.v or b.v) != 0)
    if op in ('<<', '>>'):
        t = promote(a.t)
        if not 0 <= b.v < t.bits:
            return None
        v = a.v << b.v if op == '<<' else a.v >> b.v
        if op == '<<' and a.v < 0:
            return None
        return (t, v) if t.fits(v) else None
    t = common(a.t, b.t)
    if not t.fits(a.v) or not t.fits(b.v):
        return None
    if op in ('<', '>', '<=', '>=', '==', '!='):
        return INT, int({'<': a.v < b.v, '>': a.v > b.v, '<=': a.v <= b.v, '>=': a.v >= b.v,
                         '==': a.v == b.v, '!=': a.v != b.v}[op])
    if op in '/%':
        if b.v == 0:
            return None
        v = tdiv(a.v, b.v)
        if op == '%':
            if not t.fits(v):
                return None
            v = a.v - v * b.v
    else:
        v = {'+': a.v + b.v, '-': a.v - b.v, '*': a.v * b.v,
             '&': a.v & b.v, '|': a.v | b.v, '^': a.v ^ b.v}[op]
    return (t, v) if t.fits(v) else None


def combine(d, op, a, b, spare=False):
    """a op b with parentheses where needed; a spare pair with spare."""
    r = binop_value(op, a, b)
    if r is None:
        return None
    p = BINOPS[op]
    if a.prec < p or (spare and d.chance(1, 4)):
        a = a.paren()
    if b.prec <= p or (spare and d.chance(1, 4)):
        b = b.paren()
    return X(a.toks + [op] + b.toks, p, r[0], r[1], max(a.depth, b.depth) + 1, a.ops + b.ops + (op,))


def unary(d, op, a):
    if op == '!':
        t, v = INT, int(a.v == 0)
    else:
        t = promote(a.t)
        v = {'-': -a.v, '~': ~a.v, '+': a.v}[op]
        if not t.fits(v):
            return None
    if a.prec < 14:
        a = a.paren()
    return X([op] + a.toks, 15, t, v, a.depth + 1, a.ops + (op + 'u',))


def cast(d, t, a, spelling=None):
    v = t.wrap(a.v)
    if a.prec < 14:
        a = a.paren()
    return X(['('] + (spelling or t.name).split() + [')'] + a.toks, 14, t, v, a.depth + 1, a.ops + ('cast',))


def cond(d, c, a, b):
    # the result has the common type; both must be representable in it
    t = common(a.t, b.t)
    v = a.v if c.v else b.v
    if not t.fits(v):
        return None
    if c.prec <= 3:
        c = c.paren()
    if b.prec < 3:
        b = b.paren()
    return X(c.toks + ['?'] + a.toks + [':'] + b.toks, 3, t, v, max(a.depth, b.depth, c.depth) + 1,
             a.ops + b.ops + c.ops + ('?:',))


def expr(d, leaf, depth, unops=('-', '!', '~'), ops=BINOP_LIST, casts=True, spare=True):
    """A random expression over the leaves."""
    if depth <= 0:
        return leaf(d)
    k = d.int(0, 11)
    if k == 0:
        return leaf(d)
    if k <= 7:
        a = expr(d, leaf, depth - 1, unops, ops, casts, spare)
        b = expr(d, leaf, depth - 1 - d.int(0, 1), unops, ops, casts, spare)
        i = d.int(0, len(ops) - 1)
        # the next operator that is defined for these values
        for j in range(len(ops)):
            op = ops[(i + j) % len(ops)]
            if op == ',' and j:
                continue
            r = combine(d, op, a, b, spare)
            if r is not None:
                return r
        return a
    if k == 8 and unops:
        a = expr(d, leaf, depth - 1, unops, ops, casts, spare)
        r = unary(d, d.pick(unops), a)
        return r if r is not None else unary(d, '!', a)
    if k == 9 and casts:
        return cast(d, d.pick(INTS), expr(d, leaf, depth - 1, unops, ops, casts, spare))
    if k == 10:
        c = expr(d, leaf, depth - 1, unops, ops, casts, spare)
        a = expr(d, leaf, depth - 1, unops, ops, casts, spare)
        b = expr(d, leaf, depth - 1, unops, ops, casts, spare)
        r = cond(d, c, a, b)
        return r if r is not None else a
    a = expr(d, leaf, depth - 1, unops, ops, casts, spare)
    return a.paren()
