"""Syntactically valid programs of the whole supported grammar, with the syntax tree
each must have.  A node is (KIND, {property: value}), a value is None, a node, a
list (chain) of nodes, or a string (the printed form of a number, flag or name)."""
from cgen import D, join, SEPS, _clash

PREFIX = {}
for _k, _p in [l.split() for l in '''T_INTEGER tINT
T_FLOAT tFLOAT
T_STRING tSTRING
T_P_INC tPINC
T_P_DEC tPDEC
T_INC tINC
T_DEC tDEC
T_NEGATE tNEGATE
T_ONES_COMP tONES_COMP
T_SIZEOF tSZOF
T_IDENTIFIER tID
T_POINTER tPTR
T_MUL tMUL
T_DIV tDIV
T_MOD tMOD
T_ADD tADD
T_SUB tSUB
T_LSHIFT tLSHIFT
T_RSHIFT tRSHIFT
T_LT tLT
T_GT tGT
T_LTEQ tLTEQ
T_GTEQ tGTEQ
T_EQ tEQ
T_N_EQ tN_EQ
T_L_OR tL_OR
T_I_OR tI_OR
T_X_OR tX_OR
T_I_AND tI_AND
T_L_AND tL_AND
T_IF tIF
T_ASSIGN tASSIGN
T_CAST tCAST
T_BLOCK tBLOCK
T_EXPR_LIST tEXPR_LIST
T_BITFIELD tBITFIELD
T_COMP_ACCESS tCOMP_ACCESS
T_ARRAY_ACCESS tARR_ACCESS
T_ADDR tADDR
T_DEREF tDEREF
T_ARRAY tARRAY
T_DECL tDECL
T_TYPE_SPECIFIER tTYPE_SPECIFIER
T_DECL_COMPOUND tCOMP_DECL
T_FN tFN
T_FN_CALL tFNCALL
T_INFIX tINFIX
T_LOOP_FOR tFLOOP
T_LOOP_WHILE tWLOOP
T_RETURN tRET
T_ENUMERATOR tENUM'''.split('\n')]:
    PREFIX[_k] = _p

BIN = [('*', 13, 'T_MUL'), ('/', 13, 'T_DIV'), ('%', 13, 'T_MOD'), ('+', 12, 'T_ADD'), ('-', 12, 'T_SUB'),
       ('<<', 11, 'T_LSHIFT'), ('>>', 11, 'T_RSHIFT'), ('<', 10, 'T_LT'), ('>', 10, 'T_GT'), ('<=', 10, 'T_LTEQ'),
       ('>=', 10, 'T_GTEQ'), ('==', 9, 'T_EQ'), ('!=', 9, 'T_N_EQ'), ('&', 8, 'T_I_AND'), ('^', 7, 'T_X_OR'),
       ('|', 6, 'T_I_OR'), ('&&', 5, 'T_L_AND'), ('||', 4, 'T_L_OR')]
ASG = {'+=': 'T_ADD', '-=': 'T_SUB', '/=': 'T_DIV', '<<=': 'T_LSHIFT', '>>=': 'T_RSHIFT', '^=': 'T_X_OR'}
UN = [('*', 'T_DEREF'), ('&', 'T_ADDR'), ('!', 'T_NEGATE'), ('~', 'T_ONES_COMP'), ('++', 'T_INC'), ('--', 'T_DEC')]
TS = ['int', 'char', 'void', 'short', 'long', 'float', 'double', 'signed', 'unsigned', 'unsigned int', 'long long',
      'unsigned char', 'signed char', 'long int', 'unsigned long long int', 'short int', 'long unsigned', 'int short',
      'long double']
TSK = {k: 'T_%s_TS' % k.upper() for k in ('int', 'char', 'void', 'short', 'long', 'float', 'double', 'signed', 'unsigned')}
OBJ = ['a', 'b', 'x1', 'long_name_of_an_object', '_u', 'iff', 'structure', 'T', 'for_', 'inty', 'O0', 'returned']
MEM = ['m', 'n1', 'next', 'a', 'tag']
TAGS = ['s', 'node', 'a', 'm']


def N(k, **props):
    return (k, props)


def ident(n):
    return N('T_IDENTIFIER', STR=n)


class Syn:
    def __init__(self, d, size):
        self.d = d
        self.left = size
        self.types = []
        self.f = set()
        self.nt = 0
        self.long = d.chance(1, 4)
        self.extreme = d.chance(1, 12)

    def spend(self):
        self.left -= 1
        return self.left > 0

    # -- expressions: (tokens, precedence, tree)
    def many(self, n):
        """The length of a list: n, or rarely a long one, once."""
        if self.long and self.d.chance(1, 12):
            self.long = False
            self.f.add('long list')
            return self.d.int(8, 45)
        return n

    def paren(self, e):
        self.f.add('paren')
        t = e[2]
        chain = t[1]['CHAIN'] if e[1] == 1 else [t]
        return (['('] + e[0] + [')'], 17, N('T_EXPR_LIST', CHAIN=chain))

    def at(self, e, prec):
        """The operand e of an operator that binds with prec."""
        if e[1] < prec or self.d.chance(1, 14):
            return self.paren(e)
        return e

    def prim(self):
        d = self.d
        k = d.int(0, 9)
        if self.extreme and d.chance(1, 3):
            # once: a long name, number or string
            self.extreme = False
            self.f.add('long token')
            n = d.pick([31, 32, 63, 64, 127, 128, 255, 256, 257, 1000, 1024, 4095, 4096, 8191, 8192, 16384, 20000])
            if k < 3:
                return (['q' * n], 17, ident('q' * n))
            if k < 6:
                v = (10 ** min(n, 3000) - 1) // 9
                return (['%d' % v if d.bool() else '0x%x' % v], 17, N('T_INTEGER', VAL='%d' % v))
            return (['"%s"' % ('s' * n)], 17, N('T_STRING', VAL='s' * n))
        if k < 5:
            n = d.pick(OBJ)
            return ([n], 17, ident(n))
        if k == 5:
            v = d.int(0, 70000) if d.bool() else d.pick([0, 1, 8, 2147483648, 18446744073709551615, 10**25])
            f = d.int(0, 3)
            t = '%d' % v if f < 2 or not v else '0%o' % v if f == 2 else d.pick(['0x%x', '0X%X']) % v
            return ([t], 17, N('T_INTEGER', VAL='%d' % v))
        if k == 6:
            c = d.pick([('\'%s\'' % x, ord(x)) for x in 'aZ0 +"(;'] + [("'\\n'", 10), ("'\\\\'", 92), ("'\\r'", 13)])
            return ([c[0]], 17, N('T_INTEGER', VAL='%d' % c[1]))
        if k == 7:
            i, fr = d.int(0, 100000), d.int(0 if d.bool() else 1, 63)
            v = i + fr / 64.0
            if not v:
                v = 0.5
            t = '%f' % v
            return ([t.rstrip('0') + ('0' if t.rstrip('0').endswith('.') else '') if d.bool() else t], 17,
                    N('T_FLOAT', VAL=t))
        s = [d.pick(['a', 'b', ' ', '0', ';', '{', '%d', '/*', '//', "'", '\\n', '\\t', '\\"', '\\\\', '\\101', '\\7'])
             for _ in range(d.int(0, 6))]
        val = ''.join({'\\n': '\n', '\\t': '\t', '\\"': '"', '\\\\': '\\', '\\101': 'A', '\\7': '\7'}.get(x, x) for x in s)
        txt = ''
        for x in s:
            # an octal escape ends before a digit only after three digits
            txt += '\\007' if x == '\\7' else x
        return (['"%s"' % txt], 17, N('T_STRING', VAL=val))

    def expr(self, depth):
        d = self.d
        if depth <= 0 or not self.spend():
            return self.prim()
        k = d.int(0, 15)
        if k < 5:
            op, p, t = d.pick(BIN)
            l, r = self.at(self.expr(depth - 1), p), self.at(self.expr(depth - 1), p + 1)
            self.f.add('binary')
            return (l[0] + [op] + r[0], p, N(t, LHS=l[2], RHS=r[2]))
        if k < 7:
            op, t = d.pick(UN)
            e = self.at(self.expr(depth - 1), 15 if op in ('++', '--') else 14)
            return ([op] + e[0], 15, N(t, EXP=e[2]))
        if k == 7:
            e = self.at(self.expr(depth - 1), 14)
            if e[2][0] in ('T_INTEGER', 'T_FLOAT'):
                v = e[2][1]['VAL']
                v = v[1:] if v[0] == '-' else v if v == '0' else '-' + v
                return (['-'] + e[0], 15, N(e[2][0], VAL=v))
            return (['-'] + e[0], 15, N('T_SUB', LHS=N('T_INTEGER', VAL='0'), RHS=e[2]))
        if k == 8:
            ty = self.type_name(depth - 1)
            e = self.at(self.expr(depth - 1), 14)
            self.f.add('cast')
            return (['('] + ty[0] + [')'] + e[0], 14, N('T_CAST', NEWTYPE=ty[1], EXP=e[2]))
        if k == 9:
            if d.bool():
                ty = self.type_name(depth - 1)
                return (['sizeof', '('] + ty[0] + [')'], 15, N('T_SIZEOF', EXP=ty[1]))
            e = self.at(self.expr(depth - 1), 15)
            return (['sizeof'] + e[0], 15, N('T_SIZEOF', EXP=e[2]))
        if k == 10:
            c = self.at(self.expr(depth - 1), 4)
            a = self.comma(depth - 1)
            b = self.at(self.expr(depth - 1), 3)
            self.f.add('conditional')
            return (c[0] + ['?'] + a[0] + [':'] + b[0], 3,
                    N('T_INFIX', COND=c[2], TRUE_STMT=a[1], FALSE_STMT=b[2]))
        if k == 11:
            l = self.at(self.expr(depth - 1), 15)
            r = self.at(self.expr(depth - 1), 2)
            op = d.pick(['=', '='] + list(ASG))
            self.f.add('assignment')
            rt = r[2] if op == '=' else N(ASG[op], LHS=l[2], RHS=r[2])
            return (l[0] + [op] + r[0], 2, N('T_ASSIGN', LHS=l[2], RHS=rt))
        e = self.at(self.expr(depth - 1), 16)
        if k == 12:
            n = self.many(d.int(0, 3))
            args = [self.at(self.expr(depth - 1 if n < 8 else 0), 2) for _ in range(n)]
            self.f.add('call')
            toks = e[0] + ['(']
            for i, a in enumerate(args):
                toks += ([','] if i else []) + a[0]
            return (toks + [')'], 16, N('T_FN_CALL', ID=e[2], ARGS=[a[2] for a in args] or None))
        if k == 13:
            i = self.comma(depth - 1)
            return (e[0] + ['['] + i[0] + [']'], 16, N('T_ARRAY_ACCESS', OBJ=e[2], IDX=i[1]))
        if k == 14:
            m = d.pick(MEM)
            if d.bool():
                return (e[0] + ['.', m], 16, N('T_COMP_ACCESS', OBJ=e[2], MEMBER=ident(m)))
            return (e[0] + ['->', m], 16, N('T_COMP_ACCESS', OBJ=N('T_DEREF', EXP=e[2]), MEMBER=ident(m)))
        op = d.bool()
        return (e[0] + ['++' if op else '--'], 16, N('T_P_INC' if op else 'T_P_DEC', EXP=e[2]))

    def comma(self, depth):
        """An `expression': (tokens, tree)."""
        d = self.d
        n = self.many(d.weighted([(6, 1), (1, 2), (1, 3)]))
        es = [self.at(self.expr(depth if n < 8 else 0), 2) for _ in range(n)]
        toks = []
        for i, e in enumerate(es):
            toks += ([','] if i else []) + e[0]
        return (toks, N('T_EXPR_LIST', CHAIN=[e[2] for e in es]))

    # -- types
    def noise(self):
        return [self.d.pick(['const', 'volatile', '__extension__'])] if self.d.chance(1, 10) else []

    def type_spec(self, depth):
        """(tokens, chain)"""
        d = self.d
        k = d.int(0, 9)
        if k < 6 or depth <= 0:
            ws = d.pick(TS).split()
            toks = []
            for w in ws:
                toks += self.noise() + [w]
            return toks, [N(TSK[w]) for w in ws]
        if k == 6 and self.types:
            n = d.pick(self.types)
            return [n], [ident(n)]
        if k == 9 or k == 6:
            return self.enum(depth)
        return self.compound(depth)

    def enum(self, depth):
        d = self.d
        self.f.add('enum')
        toks, name, enums = ['enum'], None, None
        if d.chance(3, 4):
            n = d.pick(TAGS)
            toks.append(n)
            name = ident(n)
        if name is None or d.bool():
            toks.append('{')
            enums = []
            for i in range(self.many(d.int(1, 4))):
                n = d.pick(OBJ) + str(i)
                toks += ([','] if i else []) + [n]
                if d.chance(1, 3):
                    e = self.at(self.expr(depth - 1), 3)
                    toks += ['='] + e[0]
                    enums.append(N('T_ASSIGN', LHS=ident(n), RHS=e[2]))
                else:
                    enums.append(ident(n))
            toks += [d.pick(['', ','])] if d.chance(1, 3) else []
            toks = [t for t in toks if t] + ['}']
        return toks, [N('T_ENUMERATOR', NAME=name, ENUMS=enums)]

    def compound(self, depth):
        d = self.d
        self.f.add('compound')
        kind = d.pick(['struct', 'union'])
        toks, name, decls = [kind], None, None
        if d.chance(3, 4):
            n = d.pick(TAGS)
            toks.append(n)
            name = ident(n)
        if name is None or d.bool():
            toks.append('{')
            decls = []
            count = self.many(d.int(1, 3))
            for _ in range(count):
                st, sc = self.type_spec(depth - 1 if count < 8 else 0)
                toks += st
                ds = []
                for i in range(d.weighted([(5, 1), (2, 2), (1, 0)])):
                    if i:
                        toks.append(',')
                    k = d.int(0, 7)
                    if k == 7:
                        e = self.at(self.expr(1), 3)
                        toks += [':'] + e[0]
                        ds.append(N('T_BITFIELD', SZ=e[2], DECLARATOR=None))
                        continue
                    dt, tr, _ = self.declarator(depth - 1, d.pick(MEM))
                    toks += dt
                    if k == 6:
                        e = self.at(self.expr(1), 3)
                        toks += [':'] + e[0]
                        tr = N('T_BITFIELD', SZ=e[2], DECLARATOR=tr)
                        self.f.add('bitfield')
                    ds.append(tr)
                toks.append(';')
                decls.append(N('T_DECL', SPECS=sc, DECLS=ds or None))
            toks.append('}')
        return toks, [N('T_DECL_COMPOUND', ID=name, DECLS=decls, TYPE=kind)]

    def params(self, depth):
        """(tokens, chain or None)"""
        d = self.d
        if d.chance(1, 4):
            return (['void'], None) if d.bool() else ([], None)
        toks, ps = [], []
        for i in range(self.many(d.int(1, 3))):
            if i:
                toks.append(',')
            st, sc = self.type_spec(depth - 1 if d.chance(1, 4) else 0)
            if d.chance(1, 12):
                st, sc = ['register'] + st, [N('T_REGISTER')] + sc
            toks += st
            k = d.int(0, 3)
            if k < 2:
                dt, tr, _ = self.declarator(depth - 1, d.pick(OBJ))
            elif k == 2:
                dt, tr = self.abstract(depth - 1)
            else:
                dt, tr = [], None
            toks += dt
            ps.append(N('T_DECL', SPECS=sc, DECLS=tr))
        if len(ps) == 1 and ps[0][1]['DECLS'] is None and [x[0] for x in ps[0][1]['SPECS']] == ['T_VOID_TS']:
            return toks, None
        if d.chance(1, 5):
            toks += [',', '...']
            ps.append(N('T_VARIADIC'))
        return toks, ps

    def suffix(self, depth, toks, tr):
        d = self.d
        if d.bool():
            if d.chance(1, 4):
                return toks + ['[', ']'], N('T_ARRAY', DECL=tr, QUALIFIERS=None, SZ=None)
            e = self.at(self.expr(1), 2)
            if e[0] == ['*']:
                e = self.paren(e)
            self.f.add('array')
            return toks + ['['] + e[0] + [']'], N('T_ARRAY', DECL=tr, QUALIFIERS=None, SZ=e[2])
        pt, ps = self.params(depth - 1)
        self.f.add('function declarator')
        return toks + ['('] + pt + [')'], N('T_FN', DECL=tr, ARGS=ps, STMTS=None)

    def declarator(self, depth, name):
        """(tokens, tree, is direct)"""
        d = self.d
        toks, tr, direct = [name], ident(name), True
        for _ in range(d.weighted([(6, 0), (4, 1), (3, 2), (2, 3)]) if depth > 0 else d.int(0, 1)):
            if d.bool() or depth <= 0:
                if d.chance(1, 8):
                    toks = ['('] + toks + [')']
                # the quantity of stars belongs to one `pointer'
                toks = ['*'] + ([d.pick(['const', '__restrict'])] if d.chance(1, 8) else []) + toks
                tr, direct = N('T_POINTER', EXP=tr, QUALIFIERS=None), False
                self.f.add('pointer')
            else:
                if not direct or d.chance(1, 8):
                    toks = ['('] + toks + [')']
                    self.f.add('nested declarator')
                toks, tr = self.suffix(depth, toks, tr)
                direct = True
        return toks, tr, direct

    def abstract(self, depth):
        """(tokens, tree) of an abstract declarator, which isn't empty."""
        d = self.d
        toks, tr, direct = [], None, True
        for _ in range(d.int(1, 3)):
            if d.bool() or depth <= 0:
                toks, tr, direct = ['*'] + toks, N('T_POINTER', EXP=tr, QUALIFIERS=None), False
            else:
                if toks and (not direct or d.chance(1, 8)):
                    toks = ['('] + toks + [')']
                toks, tr = self.suffix(depth, toks, tr)
                direct = True
        self.f.add('abstract declarator')
        return toks, tr

    def type_name(self, depth):
        st, sc = self.type_spec(depth)
        if self.d.chance(1, 2):
            dt, tr = self.abstract(depth)
        else:
            dt, tr = [], None
        return st + dt, N('T_TYPE_SPECIFIER', SPECS=sc, DECL=tr)

    # -- declarations and statements
    def decl_specs(self, depth, storage=('static', 'extern', 'auto', 'register')):
        d = self.d
        toks, chain = self.type_spec(depth)
        if d.chance(1, 5):
            s = d.pick(storage)
            toks, chain = [s] + toks, [N('T_' + s.upper())] + chain
        return self.noise() + toks, chain

    def initializer(self, depth):
        """(tokens, tree or chain)"""
        d = self.d
        if depth > 0 and d.chance(1, 4):
            toks, items = ['{'], []
            self.f.add('initializer list')
            for i in range(self.many(d.int(1, 4))):
                if i:
                    toks.append(',')
                des = []
                for _ in range(d.weighted([(4, 0), (1, 1), (1, 2)])):
                    if d.bool():
                        e = self.at(self.expr(1), 3)
                        toks += ['['] + e[0] + [']']
                        des.append(N('T_ARRAY_ACCESS', OBJ=None, IDX=e[2]))
                    else:
                        m = d.pick(MEM)
                        toks += ['.', m]
                        des.append(N('T_COMP_ACCESS', OBJ=None, MEMBER=ident(m)))
                it, v = self.initializer(depth - 1)
                if des:
                    toks.append('=')
                    v = N('T_ASSIGN', LHS=des, RHS=v)
                elif isinstance(v, list):
                    v = N('T_EXPR_LIST', CHAIN=v)
                toks += it
                items.append(v)
            return toks + ([','] if d.chance(1, 3) else []) + ['}'], items
        e = self.at(self.expr(depth), 2)
        return e[0], e[2]

    def declaration(self, depth):
        d = self.d
        toks, sc = self.decl_specs(depth)
        ds = []
        for i in range(self.many(d.weighted([(6, 1), (2, 2), (1, 3), (1, 0)]))):
            if i:
                toks = toks + [',']
            dt, tr, _ = self.declarator(depth, d.pick(OBJ))
            toks = toks + dt
            if d.chance(2, 5):
                it, iv = self.initializer(min(depth, 3))
                toks = toks + ['='] + it
                tr = N('T_ASSIGN', LHS=tr, RHS=iv)
            ds.append(tr)
        self.f.add('declaration')
        return toks + [';'], N('T_DECL', SPECS=sc, DECLS=ds or None)

    def typedef(self, depth):
        toks, sc = self.type_spec(depth)
        toks, sc = ['typedef'] + toks, [N('T_TYPEDEF')] + sc
        ds, names = [], []
        for i in range(self.d.int(1, 2)):
            self.nt += 1
            n = 'ty%d' % self.nt
            dt, tr, _ = self.declarator(depth, n)
            toks = toks + ([','] if i else []) + dt
            ds.append(tr)
            names.append(n)
        self.types += names
        self.f.add('typedef')
        return toks + [';'], N('T_DECL', SPECS=sc, DECLS=ds)

    def body(self, depth):
        """(tokens, tree or chain, ends in an if without else)"""
        return self.stmt(depth)

    def item(self, depth):
        """A block item: (tokens, tree)."""
        if self.d.chance(1, 3):
            return self.declaration(min(depth, 2))
        t, tr, _ = self.stmt(depth)
        return t, N('T_BLOCK', STMTS=tr) if isinstance(tr, list) else tr

    def block(self, depth):
        toks, items = ['{'], []
        n = self.many(self.d.int(0, 3))
        for _ in range(n):
            t, tr = self.item(depth - 1 if n < 8 else 0)
            toks += t
            items.append(tr)
        return toks + ['}'], items or N('T_EMPTY')

    def braced(self, s):
        toks, tr, _ = s
        return ['{'] + toks + ['}'], [N('T_BLOCK', STMTS=tr) if isinstance(tr, list) else tr], False

    def stmt(self, depth):
        d = self.d
        k = d.int(0, 11)
        if depth <= 0 or k < 4 or not self.spend():
            if k == 0 and d.bool():
                return [';'], N('T_EMPTY'), False
            t, tr = self.comma(min(depth + 1, 4))
            return t + [';'], tr, False
        if k == 4:
            return ['break', ';'], N('T_BREAK'), False
        if k == 5:
            if d.chance(1, 3):
                return ['return', ';'], N('T_RETURN', EXP=None), False
            t, tr = self.comma(2)
            return ['return'] + t + [';'], N('T_RETURN', EXP=tr), False
        if k == 6:
            t, tr = self.block(depth)
            self.f.add('block')
            return t, tr, False
        if k == 7 and d.chance(1, 6):
            return ['<REPL>', ';'], N('T_REPL'), False
        if k in (7, 8, 9):
            c = self.comma(2)
            s = self.stmt(depth - 1)
            if d.bool():
                self.f.add('if')
                return (['if', '('] + c[0] + [')'] + s[0],
                        N('T_IF', COND=c[1], TRUE_STMTS=s[1], ELSE_STMTS=None), True)
            if s[2]:
                s = self.braced(s)
            e = self.stmt(depth - 1)
            self.f.add('if else')
            if e[2]:
                self.f.add('dangling else')
            return (['if', '('] + c[0] + [')'] + s[0] + ['else'] + e[0],
                    N('T_IF', COND=c[1], TRUE_STMTS=s[1], ELSE_STMTS=e[1]), e[2])
        self.f.add('loop')
        if k == 10:
            c = self.comma(2)
            s = self.stmt(depth - 1)
            return ['while', '('] + c[0] + [')'] + s[0], N('T_LOOP_WHILE', COND=c[1], STMTS=s[1]), s[2]
        toks = ['for', '(']
        if d.bool():
            t, init = self.declaration(1)
        elif d.bool():
            t, init = self.comma(2)
            t = t + [';']
        else:
            t, init = [';'], N('T_EMPTY')
        toks += t
        if d.chance(2, 3):
            t, cond = self.comma(2)
            toks += t + [';']
        else:
            toks += [';']
            cond = N('T_EMPTY')
        after = None
        if d.chance(2, 3):
            t, after = self.comma(2)
            toks += t
        s = self.stmt(depth - 1)
        return (toks + [')'] + s[0],
                N('T_LOOP_FOR', INIT=init, COND=cond, AFTER=after, STMTS=s[1]), s[2])

    def function(self, depth):
        d = self.d
        toks, sc = self.decl_specs(2 if d.chance(1, 4) else 0, ('static', 'extern'))
        pt, ps = self.params(2)
        n = d.pick(OBJ) + '_f'
        bt, body = self.block(depth)
        tr = N('T_FN', DECL=ident(n), ARGS=ps, STMTS=body)
        dt = [n, '('] + pt + [')']
        for _ in range(d.weighted([(3, 0), (1, 1), (1, 2)])):
            dt, tr = ['*'] + dt, N('T_POINTER', EXP=tr, QUALIFIERS=None)
        self.f.add('function')
        return toks + dt + bt, N('T_DECL', SPECS=sc, DECLS=[tr])

    def unit(self):
        d = self.d
        parts = []
        n = self.many(12)
        while self.left > 0 and len(parts) < n:
            k = d.int(0, 9)
            dp = d.int(1, 4) if n <= 12 else d.int(0, 1)
            self.left -= n <= 12
            if k < 2:
                parts.append(self.typedef(2))
            elif k < 4:
                parts.append(self.declaration(min(dp, 3)))
            elif k < 7:
                parts.append(self.function(dp))
            else:
                t, tr, _ = self.stmt(dp)
                parts.append((t, N('T_BLOCK', STMTS=tr) if isinstance(tr, list) else tr))
        if d.chance(1, 25):
            # one of them again and again
            i = d.int(0, len(parts) - 1)
            if 'typedef' not in parts[i][0] and len(parts[i][0]) < 100:
                self.f.add('long unit')
                parts[i:i + 1] = [parts[i]] * min(d.pick([50, 100, 130, 257, 400]), 1 + 3000 // len(parts[i][0]))
        return parts


EXTRA = ['', '', '\n', '#define UNUSED 1 + (\n', '#if 0\nnot C at all ]\n#endif\n', '/* int a; */\n', '// x = 1;\n',
         '\n\n\n\n\n\n\n\n\n\n\n\n']


def fix_open_ifs(parts):
    """An if without else must not be followed by an else of ... nothing: parts never start with else."""
    return parts


def layout(d, parts):
    """Source text of the parts."""
    mode = d.int(0, 2)
    base = [d.pick(SEPS + ['\\\n', '\n\n\n\n\n\n\n\n\n\n\n']) for _ in range(7)]
    if mode == 0:
        sep = None
    elif mode == 1:
        sep = lambda i: ''
    else:
        sep = lambda i: base[(i * 7 + i // 5) % 7]
    out = []
    for t, _ in parts:
        if mode:
            out.append(d.pick(EXTRA))
        out.append(join(t, sep).replace('\\\n', ' \\\n'))
        out.append('\n')
    return ''.join(out)


# ---------------------------------------------------------------- dumps
INTERNAL = {'T_DECL': ('OFFSET',), 'T_DECL_COMPOUND': ('SZ', 'ALIGN', 'EXPANDED'),
            'T_FN': ('CLOSURE', 'RET_TYPE'), 'T_ENUMERATOR': ('TYPE',)}


class Bad(Exception):
    pass


def parse_text(s):
    """The tree(s) of a textual dump."""
    pos = 0
    n = len(s)

    def ws():
        nonlocal pos
        while pos < n and s[pos] in ' \n':
            pos += 1

    def want(x):
        nonlocal pos
        ws()
        if not s.startswith(x, pos):
            raise Bad('expected %r at %r' % (x, s[pos:pos + 60]))
        pos += len(x)

    def word(stop):
        nonlocal pos
        b = pos
        while pos < n and s[pos] not in stop:
            pos += 1
        return s[b:pos]

    def value():
        nonlocal pos
        ws()
        if s.startswith('<null>', pos):
            pos += 6
            return None
        if s.startswith('<chain', pos):
            pos += 6
            out = []
            while True:
                ws()
                if s.startswith('>', pos):
                    pos += 1
                    return out
                v = value()
                if not isinstance(v, tuple):
                    raise Bad('element of a chain is not a tree: %r' % (v,))
                out.append(v)
        if s.startswith('<tree ', pos):
            return tree()
        if s.startswith('"', pos):
            pos += 1
            out = []
            while True:
                if pos >= n:
                    raise Bad('unterminated string')
                c = s[pos]
                pos += 1
                if c == '"':
                    return ''.join(out)
                if c == '\\':
                    c = s[pos]
                    pos += 1
                    c = {'n': '\n'}.get(c, c)
                out.append(c)
        v = word(' \n>')
        if not v:
            raise Bad('no value at %r' % s[pos:pos + 60])
        return v

    def tree():
        nonlocal pos
        want('<tree ')
        kind = word(' \n>')
        props = {}
        while True:
            ws()
            if s.startswith('>', pos):
                pos += 1
                return (kind, props)
            acc = word(':')
            want(':')
            p = PREFIX.get(kind)
            if p is None or not acc.startswith(p + '_'):
                raise Bad('property %r of %s' % (acc, kind))
            if acc[len(p) + 1:] in props:
                raise Bad('property %r occurs twice' % acc)
            props[acc[len(p) + 1:]] = value()

    v = value()
    ws()
    if pos != n:
        raise Bad('text after the dump: %r' % s[pos:pos + 80])
    return v


def external(v):
    """Without the properties that aren't the program's."""
    if isinstance(v, list):
        return [external(x) for x in v]
    if isinstance(v, tuple):
        skip = INTERNAL.get(v[0], ())
        return (v[0], {k: external(x) for k, x in v[1].items() if k not in skip})
    return v


def normal(v):
    """Parentheses around a single expression don't matter."""
    if isinstance(v, list):
        return [normal(x) for x in v]
    if isinstance(v, tuple):
        if v[0] == 'T_EXPR_LIST' and isinstance(v[1].get('CHAIN'), list) and len(v[1]['CHAIN']) == 1:
            return normal(v[1]['CHAIN'][0])
        return (v[0], {k: normal(x) for k, x in v[1].items()})
    return v


def without_null(v):
    if isinstance(v, list):
        return [without_null(x) for x in v]
    if isinstance(v, tuple):
        return (v[0], {k: without_null(x) for k, x in v[1].items() if x is not None})
    return v


def first_difference(a, b, path='program'):
    """Where the trees a (expected) and b differ, or None."""
    if type(a) != type(b):
        return '%s: expected %s, got %s' % (path, brief(a), brief(b))
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            r = first_difference(x, y, '%s[%d]' % (path, i))
            if r:
                return r
        if len(a) != len(b):
            return '%s: expected %d elements, got %d' % (path, len(a), len(b))
        return None
    if isinstance(a, tuple):
        if a[0] != b[0]:
            return '%s: expected %s, got %s' % (path, brief(a), brief(b))
        for k in sorted(set(a[1]) | set(b[1])):
            if k not in a[1] or k not in b[1]:
                return '%s %s: property %s %s' % (path, a[0], k, 'missing' if k in a[1] else 'unexpected')
            r = first_difference(a[1][k], b[1][k], '%s/%s.%s' % (path, a[0], k))
            if r:
                return r
        return None
    return None if a == b else '%s: expected %r, got %r' % (path, a, b)


def brief(v):
    if isinstance(v, tuple):
        return v[0] + (' %r' % list(v[1].values())[0] if len(v[1]) == 1 and isinstance(list(v[1].values())[0], str) else '')
    if isinstance(v, list):
        return 'a list of %d' % len(v)
    return repr(v)


def parse_dot(s):
    """(nodes {id: label}, edges [(from, to, attributes)], clusters {id: [ids]}) of a dot file."""
    import re
    tok = re.compile(r'\s+|(?P<arrow>->)|(?P<id>[A-Za-z_][A-Za-z_0-9]*|-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?))'
                     r'|"(?P<str>(?:[^"\\]|\\[\s\S])*)"|(?P<p>[\[\]{}=,;])')
    toks, pos = [], 0
    while pos < len(s):
        m = tok.match(s, pos)
        if not m:
            raise Bad('not a dot token: %r' % s[pos:pos + 60])
        if m.lastgroup == 'str':
            toks.append(('id', m.group('str').replace('\\n', '\n') if False else unescape(m.group('str'))))
        elif m.lastgroup:
            toks.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    i = 0
    nodes, edges, clusters = {}, [], {}

    def eat(k, v=None):
        nonlocal i
        if i >= len(toks) or toks[i][0] != k or v is not None and toks[i][1] != v:
            raise Bad('dot syntax: expected %s, got %r' % (v or k, toks[i:i + 4]))
        i += 1
        return toks[i - 1][1]

    def is_(k, v):
        return i < len(toks) and toks[i] == (k, v)

    def attrs():
        out = {}
        while is_('p', '['):
            eat('p', '[')
            while not is_('p', ']'):
                k = eat('id')
                eat('p', '=')
                out[k] = eat('id')
                if is_('p', ',') or is_('p', ';'):
                    eat('p')
            eat('p', ']')
        return out

    def stmts(inside):
        while not is_('p', '}'):
            if is_('p', ';'):
                eat('p')
                continue
            n = eat('id')
            if n == 'subgraph':
                c = eat('id')
                eat('p', '{')
                sub = inside + [c]
                clusters.setdefault(c, [])
                stmts(sub)
                eat('p', '}')
            elif is_('p', '='):
                eat('p')
                eat('id')
            elif is_('arrow', '->'):
                eat('arrow')
                m = eat('id')
                edges.append((n, m, attrs()))
            else:
                a = attrs()
                if n in nodes and nodes[n] != a.get('label'):
                    raise Bad('node %s declared as %r and as %r' % (n, nodes[n], a.get('label')))
                nodes[n] = a.get('label')
                for c in inside:
                    clusters[c].append(n)

    eat('id', 'digraph')
    eat('id')
    eat('p', '{')
    stmts([])
    eat('p', '}')
    if i != len(toks):
        raise Bad('text after the graph')
    return nodes, edges, clusters


def unescape(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s):
            out.append({'n': '\n'}.get(s[i + 1], s[i + 1]))
            i += 2
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def tree_of_dot(s):
    """The forest a graph dump describes, as parse_text gives it without null properties."""
    nodes, edges, clusters = parse_dot(s)
    out, nxt = {}, {}
    for a, b, at in edges:
        for x in (a, b):
            if x not in nodes:
                raise Bad('edge %s -> %s: %s is not declared' % (a, b, x))
        if 'lhead' in at or 'ltail' in at:
            for k, x in (('ltail', a), ('lhead', b)):
                if x not in clusters.get(at.get(k), ()):
                    raise Bad('edge %s -> %s: %s is not in its %s %s' % (a, b, x, k, at.get(k)))
            if nxt.setdefault(a, b) != b:
                raise Bad('%s has two successors' % a)
        else:
            l = at.get('label')
            if l is None:
                raise Bad('edge %s -> %s has no label' % (a, b))
            chain = at.get('style') == 'dashed'
            if out.setdefault(a, {}).setdefault(l, (b, chain)) != (b, chain):
                raise Bad('%s has two properties %s' % (a, l))
    seen = set()

    def build(n, depth=0):
        if depth > 400:
            raise Bad('the graph has a cycle')
        seen.add(n)
        props = {}
        for l, (m, chain) in out.get(n, {}).items():
            if m not in out and m == n + '_' + l:
                seen.add(m)
                props[l] = nodes[m]
            elif chain:
                props[l] = run(m, depth)
            else:
                props[l] = build(m, depth + 1)
        return (nodes[n], props)

    def run(m, depth=0):
        r = []
        while m is not None:
            if len(r) > 10000:
                raise Bad('cyclic chain')
            r.append(build(m, depth + 1))
            m = nxt.get(m)
        return r

    targets = {b for a, b, _ in edges}
    roots = [n for n in nodes if n not in targets]
    if len(roots) > 1:
        raise Bad('%d nodes are not connected to the program: %s' % (len(roots), [nodes[r] for r in roots][:5]))
    v = run(roots[0]) if roots else []
    if len(seen) != len(nodes):
        raise Bad('%d nodes are unreachable' % (len(nodes) - len(seen)))
    return v
