"""Generator of whole C programs in the subset bic supports: nested statements,
shadowing scopes, functions, recursion, pointers, statics.  All values stay small
(assignments are reduced modulo a prime), every run is bounded by tick()."""
import re
from cgen import *

PRE = '''extern int printf(const char *f, ...);
extern int puts(const char *s);
extern void exit(int c);
int steps;
void tick(void) { steps++; if (steps > 250) { puts("limit"); exit(7); } }
int next(int x) { tick(); return x + 1; }
'''

POOL = ['a', 'b', 'c', 'd', 'e']
SMALL = ['int', 'int', 'int', 'long', 'short', 'char', 'unsigned char', 'unsigned short', 'long long']


class Var:
    __slots__ = ('name', 't', 'kind', 'ro', 'n')

    def __init__(self, name, t='int', kind='int', ro=False, n=0):
        self.name, self.t, self.kind, self.ro, self.n = name, t, kind, ro, n


class Fn:
    __slots__ = ('name', 'params', 'ret', 'fuel')


class Prog:
    def __init__(self, d, nfn=3, depth=3, stmts=5, calls=True, recursion=True, statics=True, pointers=True,
                 structs=False, pool=POOL, exprs=True, size=28):
        self.d = d
        self.opt = dict(calls=calls, recursion=recursion, statics=statics, pointers=pointers, structs=structs)
        self.pool = pool
        self.scopes = [{}]
        self.fns = []
        self.k = 0
        self.loops = 0
        self.f = set()
        self.depth = depth
        self.nst = stmts
        self.left = size
        self.cur = None
        self.nfn = nfn

    # -- names ------------------------------------------------------------
    def key(self):
        self.k += 1
        return self.k

    def visible(self, kind='int', excl=()):
        seen, res = set(), []
        for s in reversed(self.scopes):
            for n, v in s.items():
                if n not in seen:
                    seen.add(n)
                    if v.kind == kind and n not in excl:
                        res.append(v)
        return res

    def lookup(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]

    # -- expressions --------------------------------------------------------
    def atom(self, excl=()):
        d = self.d
        vs = self.visible(excl=excl)
        k = d.int(0, 7)
        if vs and k <= 4:
            return d.pick(vs).name
        if k == 5:
            arr = self.visible('arr', excl)
            if arr:
                v = d.pick(arr)
                return '%s[%d]' % (v.name, d.int(0, v.n - 1))
            ps = self.visible('ptr', excl)
            if ps:
                return '*%s' % d.pick(ps).name
        if k == 6:
            st = self.visible('st', excl)
            if st:
                v = d.pick(st)
                return '%s.%s' % (v.name, d.pick(['m', 'n']))
        return str(d.int(0, 9))

    def expr(self, depth=2, excl=(), calls=True):
        """A small-valued expression without side effects other than calls."""
        d = self.d
        if depth <= 0:
            return self.atom(excl)
        k = d.int(0, 9)
        if k <= 2:
            return self.atom(excl)
        if k <= 6:
            op = d.pick(['+', '-', '*', '<', '>', '==', '!=', '<=', '>=', '&&', '||'])
            a = self.expr(depth - 1, excl, calls)
            if has_call(a) and op not in ('&&', '||'):
                # the order of operands is unspecified
                b = str(d.int(0, 9))
                if d.bool():
                    a, b = b, a
            else:
                b = self.expr(depth - 1, excl, calls and op in ('&&', '||'))
            return '(%s %s %s)' % (a, op, b)
        if k == 7:
            return '(%s %s %d)' % (self.expr(depth - 1, excl, calls), d.pick(['%', '/']), d.int(2, 9))
        if k == 8 and calls and self.opt['calls']:
            c = self.call(excl)
            if c:
                return c
        if k == 9:
            return d.pick(['(!%s)', '(-%s)', '(~%s & 7)']) % self.atom(excl)
        return '(%s ? %s : %s)' % (self.expr(depth - 1, excl, calls), self.atom(excl), self.atom(excl))

    def small(self, depth=2, excl=(), calls=True):
        """... reduced, so that it fits every type."""
        e = self.expr(depth, excl, calls)
        return '(%s) %% %d' % (e, self.d.pick([97, 53, 31]))

    def call(self, excl=(), stmt=False):
        d = self.d
        cands = [f for f in self.fns if (stmt or f.ret != 'void') and (not f.fuel or self.opt['recursion'])]
        if self.cur and not self.cur.fuel:
            cands = [f for f in cands if f is not self.cur]
        if not cands:
            return None
        f = d.pick(cands)
        args = []
        for i, (t, kind) in enumerate(f.params):
            if i == 0 and f.fuel:
                args.append('n - 1' if self.cur and self.cur.fuel else str(d.int(0, 3)))
            elif kind == 'ptr':
                vs = [v for v in self.visible('int', excl) if v.t == 'int' and not v.ro]
                ps = self.visible('ptr', excl)
                if vs and (not ps or d.bool()):
                    args.append('&%s' % d.pick(vs).name)
                elif ps:
                    args.append(d.pick(ps).name)
                else:
                    return None
            else:
                args.append(self.expr(1, excl, d.chance(1, 4)))
        nested = [i for i, a in enumerate(args) if has_call(a)]
        if nested:
            self.f.add('nestedcall')
            for i, a in enumerate(args):
                if i != nested[0] and not a.startswith('&') and not (i == 0 and f.fuel):
                    args[i] = str(d.int(0, 9)) if f.params[i][1] != 'ptr' else a
        self.f.add('call')
        if self.cur and f.fuel and self.cur.fuel:
            self.f.add('recursion')
        return '%s(%s)' % (f.name, ', '.join(args))

    # -- statements -----------------------------------------------------------
    def show(self):
        d = self.d
        vs = self.visible()
        n = min(len(vs), d.int(1, 4))
        pick = [d.pick(vs) for _ in range(n)] if vs else []
        fmt = ''.join(' %ld' if v.t in ('long', 'long long') else ' %u' if v.t == 'unsigned int' else ' %d'
                      for v in pick)
        return 'printf("%d:%s\\n"%s);' % (self.key(), fmt, ''.join(', ' + v.name for v in pick))

    def decl(self, top=False):
        d = self.d
        sc = self.scopes[-1]
        free = [n for n in self.pool if n not in sc]
        if not free:
            return self.show()
        n = d.pick(free)
        if self.lookup(n):
            self.f.add('shadow')
        k = d.int(0, 9)
        if k == 0 and self.opt['pointers']:
            vs = [v for v in self.visible(excl=(n,)) if v.t == 'int' and not v.ro]
            if vs:
                t = d.pick(vs).name
                sc[n] = Var(n, 'int', 'ptr')
                self.f.add('ptr')
                if d.bool():
                    return 'int *%s = &%s;' % (n, t)
                return 'int *%s; %s = &%s;' % (n, n, t)
        if k == 1 and self.opt['pointers']:
            ln = d.int(1, 4)
            init = ' '.join('%s[%d] = %s;' % (n, i, self.small(1, (n,), False)) for i in range(ln))
            sc[n] = Var(n, 'int', 'arr', n=ln)
            self.f.add('arr')
            return 'int %s[%d]; %s' % (n, ln, init)
        if k == 2 and self.opt['structs']:
            i1, i2 = self.small(1, (n,), False), self.small(1, (n,), False)
            sc[n] = Var(n, 'struct s', 'st')
            self.f.add('struct')
            return 'struct s %s; %s.m = %s; %s.n = %s;' % (n, n, i1, n, i2)
        t = d.pick(SMALL)
        if k == 3 and self.opt['statics'] and self.cur:
            self.f.add('static')
            v = str(d.int(0, 50))
            sc[n] = Var(n, t)
            return 'static %s %s = %s;' % (t, n, v) if d.chance(3, 4) else 'static %s %s;' % (t, n)
        e = self.small(d.int(0, 2), (n,))
        if t.startswith('unsigned'):
            e = '((%s) + 100)' % e
        sc[n] = Var(n, t)
        if d.chance(1, 6) and len(free) > 1:
            m = d.pick([x for x in free if x != n])
            if m not in e.replace('(', ' ').replace(')', ' ').split():
                sc[m] = Var(m, t)
                return '%s %s = %s, %s = %d;' % (t, n, e, m, d.int(0, 9))
        if d.bool():
            return '%s %s = %s;' % (t, n, e)
        return '%s %s; %s = %s;' % (t, n, n, e)

    def lvalue(self):
        d = self.d
        k = d.int(0, 5)
        if k == 0:
            ps = self.visible('ptr')
            if ps:
                return '*' + d.pick(ps).name, 'int'
        if k == 1:
            arr = self.visible('arr')
            if arr:
                v = d.pick(arr)
                return '%s[%d]' % (v.name, d.int(0, v.n - 1)), 'int'
        if k == 2:
            st = self.visible('st')
            if st:
                return '%s.%s' % (d.pick(st).name, d.pick(['m', 'n'])), 'int'
        vs = [v for v in self.visible() if not v.ro]
        if not vs:
            return None, None
        v = d.pick(vs)
        return v.name, v.t

    def assign(self):
        d = self.d
        lv, t = self.lvalue()
        if not lv:
            return self.show()
        k = d.int(0, 4)
        uns = t.startswith('unsigned')
        if k == 0 and t == 'int' and not lv.startswith('*'):
            return '%s %s= %d; %s = %s %% 97;' % (lv, d.pick(['+', '-', '^']), d.int(0, 9), lv, lv)
        if k == 1 and not uns and t not in ('char',):
            s = ('%s++;' if d.bool() else '--%s;') % (lv if lv[0] != '*' else '(%s)' % lv)
            return s + ' %s = %s %% 97;' % (lv, lv)
        e = self.small(2)
        if uns:
            e = '((%s) + 100)' % e
        return '%s = %s;' % (lv, e)

    def block(self, depth, n=None, scope=None):
        self.scopes.append(scope or {})
        s = '{ ' + ' '.join(self.stmt(depth) for _ in range(self.d.int(1, 3) if n is None else n)) + ' }'
        self.scopes.pop()
        return s

    def sub(self, depth):
        """The body of a compound statement: a block, or a single statement."""
        d = self.d
        if d.chance(2, 3):
            return self.block(depth)
        self.f.add('unbraced')
        s = self.simple(depth) if depth <= 0 or d.bool() else self.compound(depth)
        return s

    def simple(self, depth):
        d = self.d
        k = d.int(0, 9)
        if k == 0 and self.loops:
            self.f.add('break')
            return 'break;'
        if k == 1 and self.cur:
            self.f.add('return')
            return self.ret()
        if k == 2:
            lv, t = self.lvalue()
            if lv and not t.startswith('unsigned') and t != 'char':
                return '%s = %s;' % (lv, self.small(1))
        if k == 3 and self.opt['calls']:
            c = self.call(stmt=True)
            if c:
                return c + ';'
        if k == 4:
            return ';' if d.chance(1, 3) else self.show()
        return self.show()

    def ret(self):
        if self.cur.ret == 'void':
            return 'return;'
        return 'return %s;' % (self.small(2) if self.d.bool() else self.atom())

    def loop(self, depth):
        d = self.d
        self.f.add('loop')
        k = d.int(0, 8)
        n = d.int(0, 3)
        i = 'i%d' % self.key()
        old = self.loops
        self.loops = 1
        if k <= 1:
            self.scopes.append({i: Var(i, 'int', ro=True)})
            body = self.block(depth - 1) if k else '{ tick(); %s }' % self.sub(depth - 1)
            s = '{ int %s = 0; while (%s) %s }' % (i, '%s++ < %d' % (i, n) if d.bool() else
                                                   '%s++ < %d && %s' % (i, n, self.cond()), body)
            self.scopes.pop()
        elif k <= 5:
            s = self.forloop(depth, i, n)
        elif k == 6:
            self.f.add('forever')
            self.scopes.append({i: Var(i, 'int', ro=True)})
            self.scopes.append({})
            a = ' '.join(self.stmt(depth - 1) for _ in range(d.int(0, 2)))
            b = ' '.join(self.stmt(depth - 1) for _ in range(d.int(0, 1)))
            self.scopes.pop()
            s = '{ int %s = 0; %s { %s if (++%s > %d) { break; } %s } }' % (
                i, d.pick(['for (;;)', 'while (1)']), a, i, n, b)
            self.scopes.pop()
        else:
            # a loop that is left by a condition on the state
            self.scopes.append({i: Var(i, 'int', ro=True)})
            c = self.cond()
            body = self.block(depth - 1)
            s = '{ int %s = %d; while (%s > 0) { tick(); %s--; if (%s) break; %s } }' % (i, n + 1, i, i, c, body)
            self.scopes.pop()
        self.loops = old
        return s

    def forloop(self, depth, i, n):
        """for (INIT; COND; STEP) BODY, any of the parts can be missing."""
        d = self.d
        pre, t = '', d.pick(['int', 'int', 'int', 'long', 'unsigned char'])
        v0 = d.int(0, 1)
        init = d.int(0, 4)
        sc = {}
        if init <= 1:
            self.f.add('fordecl')
            # a loop variable that shadows
            v = d.pick(self.pool) if d.chance(2, 3) else i
            if v != i and len(self.scopes) > 2:
                self.f.add('shadow')
            more = ''
            if init == 1:
                self.f.add('fordecl2')
                w = d.pick([x for x in self.pool + ['w' + i] if x != v])
                more = ', %s = %s' % (w, d.pick([str(d.int(0, 9)), v]))
                sc[w] = Var(w, t)
            istr = '%s %s = %d%s;' % (t, v, v0, more)
        else:
            v = i
            if init == 2:
                pre, istr = '%s %s; ' % (t, v), d.pick(['%s = %d;', '%s = %d, next(1);']) % (v, v0)
            elif init == 3:
                self.f.add('noinit')
                pre, istr = '%s %s = %d; ' % (t, v, v0), ';'
            else:
                pre, istr = '%s %s = 5; ' % (t, v), 'if%s = %s = %d;' % (i, v, v0)
                pre = '%s if%s; ' % (t, i) + pre
        step = d.int(0, 5)
        cond = d.int(0, 4)
        sc[v] = Var(v, t, ro=step < 4 or d.chance(4, 5))
        if step <= 1 and cond <= 1:
            # the condition counts
            self.f.add('nostep')
            cstr, sstr, head = d.pick(['%s++ < %d', '++%s < %d']) % (v, n), '', ''
            sc[v].ro = True
        elif step <= 1:
            self.f.add('nostep')
            cstr, sstr, head = '%s < %d' % (v, n), '', d.pick(['%s++;', '++%s;', '%s = %s + 1;' % (v, v) + '%.0s']) % v
            sc[v].ro = True
        else:
            cstr, head = '%s < %d' % (v, n), ''
            sstr = d.pick(['%s++', '++%s', '%s += 2', '%s = next(%s)' % (v, v) + '%.0s', '%s += next(0)', '%s++, next(1)', 'next(1), %s++']) % v
        if cond == 4 and not (step <= 1 and cond <= 1):
            # the condition is missing
            self.f.add('nocond')
            head = 'if (%s >= %d) break; ' % (v, n) + head
            cstr = ''
            sc[v].ro = True
        elif cond == 3:
            self.scopes.append(sc)
            cstr += ' && ' + d.pick(['next(%s) != %d' % (v, d.int(1, 4)), '(%s)' % self.cond()])
            self.scopes.pop()
        self.scopes.append(sc)
        body = '{ tick(); %s%s }' % (head, self.sub(depth - 1))
        self.scopes.pop()
        s = '%sfor (%s %s; %s) %s' % (pre, istr, cstr, sstr, body)
        return '{ %s }' % s if pre else s

    def cond(self):
        d = self.d
        k = d.int(0, 3)
        if k == 0:
            return '(%s) %% %d == %d' % (self.expr(1), d.int(2, 3), d.int(0, 1))
        return self.expr(d.int(0, 2))

    def compound(self, depth):
        d = self.d
        k = d.int(0, 6)
        if k <= 2:
            self.f.add('if')
            c = self.cond()
            a = self.sub(depth - 1)
            if d.bool():
                return 'if (%s) %s' % (c, a)
            self.f.add('else')
            # an unbraced if in the first branch would capture the else
            if a.startswith('if') or (a.startswith(('for', 'while')) and 'if' in a) and d.chance(1, 2):
                a = '{ %s }' % a if d.bool() else a + ' else ' + self.sub(depth - 1) if _complete(a) else '{ %s }' % a
            b = self.sub(depth - 1)
            return 'if (%s) %s else %s' % (c, a, b)
        if k == 3:
            self.f.add('block')
            return self.block(depth - 1)
        return self.loop(depth)

    def stmt(self, depth):
        d = self.d
        self.left -= 1
        if self.left < 0:
            return ';' if self.left < -3 else self.show()
        k = d.int(0, 11)
        if depth > 0 and k <= 4:
            return self.compound(depth)
        if k <= 6:
            return self.decl()
        if k <= 8:
            return self.assign()
        if k == 9 and self.opt['calls']:
            c = self.call(stmt=True)
            if c:
                return c + ';'
        if k == 10:
            return self.simple(depth)
        return self.show()

    # -- functions ------------------------------------------------------------
    def make_fn(self, i):
        d = self.d
        f = Fn()
        f.name = 'f%d' % i
        f.fuel = self.opt['recursion'] and d.bool()
        f.ret = d.pick(['int', 'int', 'void', 'long', 'short', 'char', 'unsigned char'])
        ps = []
        if f.fuel:
            ps.append(('int', 'int'))
        for _ in range(d.int(0, 3)):
            if self.opt['pointers'] and d.chance(1, 4):
                ps.append(('int', 'ptr'))
            else:
                ps.append((d.pick(['int', 'int', 'long', 'short', 'char', 'long long']), 'int'))
        f.params = ps
        return f

    def fn_sig(self, f, names):
        if not f.params:
            return '%s %s(%s)' % (f.ret, f.name, 'void' if len(f.name) % 2 else '')
        return '%s %s(%s)' % (f.ret, f.name, ', '.join(
            '%s %s%s' % (t, '*' if k == 'ptr' else '', n) for (t, k), n in zip(f.params, names)))

    def fn_def(self, f):
        d = self.d
        names = []
        pool = list(self.pool)
        for i, _ in enumerate(f.params):
            if i == 0 and f.fuel:
                names.append('n')
            else:
                n = d.pick(pool) if pool else 'q%d' % i
                if pool:
                    pool.remove(n)
                names.append(n)
        self.scopes.append({n: Var(n, t, k, ro=(n == 'n')) for (t, k), n in zip(f.params, names)})
        self.cur = f
        self.loops = 0
        body = ['tick();']
        if f.fuel:
            body.append('if (n <= 0) return %s;' % ('' if f.ret == 'void' else self.atom()))
        for _ in range(d.int(1, self.nst)):
            body.append(self.stmt(self.depth))
        if f.ret != 'void':
            body.append(self.ret())
        self.cur = None
        self.scopes.pop()
        return '%s {\n  %s\n}' % (self.fn_sig(f, names), '\n  '.join(body))

    def globals(self):
        d = self.d
        out = []
        for n in self.pool:
            k = d.int(0, 4)
            if k <= 1:
                t = d.pick(SMALL)
                self.scopes[0][n] = Var(n, t)
                out.append('%s %s = %d;' % (t, n, d.int(0, 60)) if d.chance(3, 4) else '%s %s;' % (t, n))
            elif k == 2 and self.opt['pointers']:
                ln = d.int(2, 4)
                self.scopes[0][n] = Var(n, 'int', 'arr', n=ln)
                out.append('int %s[%d];' % (n, ln))
            elif k == 3 and self.opt['structs']:
                self.scopes[0][n] = Var(n, 'struct s', 'st')
                out.append('struct s %s;' % n)
        return out

    def program(self):
        d = self.d
        out = []
        if self.opt['structs']:
            out.append('struct s { char x; int m; short y; int n; };')
        out += self.globals()
        sigs, bodies = [], []
        fns = [self.make_fn(i) for i in range(d.int(0, self.nfn) if self.opt['calls'] else 0)]
        forward = self.opt['recursion'] and d.bool()
        if forward:
            # all functions can call each other (with fuel)
            self.fns = [f for f in fns if f.fuel]
            for f in self.fns:
                sigs.append(self.fn_sig(f, ['n'] + ['p%d' % i for i in range(9)]) + ';')
            self.f.add('forward')
            for f in fns:
                if f not in self.fns:
                    bodies.append(self.fn_def(f))
            for f in self.fns:
                bodies.append(self.fn_def(f))
            self.fns = fns
        else:
            for f in fns:
                if f.fuel:
                    self.fns.append(f)
                bodies.append(self.fn_def(f))
                if not f.fuel:
                    self.fns.append(f)
        main = Fn()
        main.name, main.params, main.ret, main.fuel = 'main', [], 'int', False
        self.cur = main
        self.left = max(self.left, 10)
        self.scopes.append({})
        body = []
        for _ in range(d.int(1, self.nst + 1)):
            body.append(self.stmt(self.depth))
        for f in self.fns:
            c = self.call(stmt=True)
            if c:
                body.append(c + ';')
            body.append(self.show())
        self.scopes.pop()
        glob = self.visible()
        body = ['  ' + b for b in body]
        body.append('  printf("end%s\\n"%s);' % (
            ''.join(' %ld' if v.t in ('long', 'long long') else ' %d' for v in glob if False), '') )
        body.append('  return %d;' % d.int(0, 3))
        return PRE + '\n'.join(out + sigs + bodies) + '\nint main() {\n' + '\n'.join(body) + '\n}\n'


def has_call(e):
    return re.search(r'f[0-9]+[(]', e) is not None


def _complete(a):
    return False
