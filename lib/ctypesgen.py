"""Random C object types (scalars, pointers, arrays, structs, unions, typedefs)."""
from cgen import *

SCAL = ['char', 'short', 'int', 'long', 'unsigned char', 'float', 'double', 'long long', 'unsigned short',
        'unsigned int', 'signed char', 'unsigned long']
FMTS = {'char': '%d', 'signed char': '%d', 'unsigned char': '%d', 'short': '%d', 'unsigned short': '%d', 'int': '%d',
        'unsigned int': '%u', 'long': '%ld', 'unsigned long': '%lu', 'long long': '%lld', 'unsigned long long': '%llu',
        'float': '%.9g', 'double': '%.17g', 'long double': '%.20Lg', 'enum en': '%u'}


class Ty:
    """kind: sc (scalar), ptr, fp, arr, st, un"""

    def __init__(self, kind, text=None, of=None, n=0, mem=None, decl=None):
        self.kind, self.text, self.of, self.n, self.mem, self.decl = kind, text, of, n, mem, decl

    def declare(self, name):
        if self.kind == 'sc':
            return '%s %s' % (self.text, name)
        if self.kind == 'ptr':
            return '%s *%s' % (self.of.text, name)
        if self.kind == 'pp':
            return '%s **%s' % (self.text, name)
        if self.kind == 'fp':
            return 'int (*%s)(int, char)' % name
        if self.kind == 'arr':
            return self.of.declare('%s[%d]' % (name, self.n))
        return '%s %s' % (self.text, name)


class TGen:
    def __init__(self, d, big=False):
        self.d, self.big = d, big
        self.out = ['enum en { EA, EB };']
        self.n = 0
        self.named = []
        self.f = set()

    def uid(self):
        self.n += 1
        return self.n

    def scalar(self):
        return Ty('sc', self.d.pick(SCAL + ['long double', 'enum en', 'unsigned long long']))

    def length(self):
        if self.big and self.d.chance(1, 12):
            self.f.add('large')
            return self.d.pick([8, 17, 100, 255, 300, 4097, 33000, 66000, 70001])
        return self.d.pick([1, 2, 3, 4, 5, 5, 4, 8])

    def member_type(self, depth):
        d = self.d
        k = d.int(0, 13)
        if k <= 5 or depth <= 0 and k >= 10:
            return self.scalar()
        if k == 6:
            self.f.add('ptr')
            b = d.pick(self.named) if self.named and d.bool() else self.scalar()
            if b.kind not in ('st', 'un', 'sc'):
                b = self.scalar()
            return Ty('ptr', of=b)
        if k == 7:
            if d.bool():
                self.f.add('fnptr')
                return Ty('fp')
            return Ty('pp', text=self.scalar().text)
        if k <= 9:
            self.f.add('array')
            b = self.scalar()
            if self.named and d.chance(1, 3):
                self.f.add('array of struct')
                b = d.pick(self.named)
            elif d.chance(1, 6):
                b = Ty('ptr', of=self.scalar())
            return Ty('arr', of=b, n=self.length())
        if k <= 11 and self.named:
            self.f.add('nested')
            return d.pick(self.named)
        self.f.add('inline')
        return self.compound(depth - 1, inline=True)

    def compound(self, depth, inline=False):
        """Defines a struct or union; returns its type."""
        d = self.d
        i = self.uid()
        un = d.chance(1, 4)
        kw = 'union' if un else 'struct'
        self.f.add(kw)
        tag = 'S%d' % i
        mode = d.int(0, 5)
        lines = []
        mem = []
        if not inline and mode == 5:
            self.out.append('%s %s;' % (kw, tag))
            self.f.add('forward')
        for j in range(d.int(1, 5)):
            name = 'm%d' % j
            if not inline and d.chance(1, 10):
                self.f.add('self')
                t = Ty('ptr', of=Ty('un' if un else 'st', '%s %s' % (kw, tag)))
                mem.append((name, t))
                lines.append('%s %s *%s;' % (kw, tag, name))
                continue
            t = self.member_type(depth)
            if t.kind in ('st', 'un') and t.decl is not None:
                lines.append('%s %s;' % (t.decl, name))
                t = Ty(t.kind, t.text, mem=t.mem)
            else:
                if mem and t.kind == 'sc' and d.chance(1, 6):
                    mem.append((name, t))
                    lines.append('%s, n%d;' % (t.declare(name), j))
                    name = 'n%d' % j
                else:
                    lines.append(t.declare(name) + ';')
            mem.append((name, t))
        body = '{ %s }' % ' '.join(lines)
        kind = 'un' if un else 'st'
        if inline:
            if mode <= 2:
                return Ty(kind, None, mem=mem, decl='%s %s' % (kw, body))
            self.f.add('inline tagged')
            return Ty(kind, '%s %s' % (kw, tag), mem=mem, decl='%s %s %s' % (kw, tag, body))
        if mode == 0:
            self.out.append('typedef %s %s T%d;' % (kw, body, i))
            self.f.add('typedef')
            if 'self' in self.f and '%s %s *' % (kw, tag) in body:
                # an untagged compound can't refer to itself
                self.out[-1] = 'typedef %s %s %s T%d;' % (kw, tag, body, i)
            t = Ty(kind, 'T%d' % i, mem=mem)
        elif mode == 1:
            self.out.append('typedef %s %s %s T%d;' % (kw, tag, body, i))
            self.f.add('typedef')
            t = Ty(kind, d.pick(['T%d' % i, '%s %s' % (kw, tag)]), mem=mem)
        else:
            self.out.append('%s %s %s;' % (kw, tag, body))
            t = Ty(kind, '%s %s' % (kw, tag), mem=mem)
            if mode == 2:
                self.out.append('typedef %s T%d;' % (t.text, i))
                t = Ty(kind, 'T%d' % i, mem=mem)
                self.f.add('typedef')
        self.named.append(t)
        return t


def paths(t, prefix, limit=40):
    """All member paths (text, type) below an object."""
    res = []
    if t.kind in ('st', 'un'):
        for n, m in t.mem:
            p = '%s.%s' % (prefix, n)
            res.append((p, m))
            res += paths(m, p)
    elif t.kind == 'arr':
        for i in {0, t.n - 1}:
            p = '%s[%d]' % (prefix, i)
            res.append((p, t.of))
            res += paths(t.of, p)
    return res
