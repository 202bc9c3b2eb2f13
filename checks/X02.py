"""X02: diagnostics name the file and line of the offending code.  Oracle: the generator lays
the program out, so it knows the line on which it put the fault."""
import os, re
from cgen import case_strategy
from engine import Violation, show
from progs import PRE
from faults import *

PROP = 'X02'
COUNTS = {'quick': 5000, 'thorough': 90000}
RULE = ('each case is a program with one fault that is certain to be reached (semantic, or an ill-formed statement) in a '
        'known place: the main file, a header (also nested), ~/.bic or a header included at the prompt; laid out with blank '
        'lines, comments, object- and function-like macros, conditional sections, line splices, includes, statements and '
        'macro calls over several lines, in nested blocks and functions; the message has to name that file and line (the '
        'lines of the statement, when it has several; the line of the token, for a syntax error); non-trivial: at least 2 '
        'kinds of layout noise and 5 lines before the fault; distinct by text')
ASSUMPTIONS = ['a fault in the expansion of a macro stands on the line of its use',
               'an ill-formed statement is detected at the first token that cannot continue it']


class File:
    def __init__(self, g, name):
        self.g, self.d, self.name, self.lines = g, g.d, name, []
        self.eol = g.eol

    def raw(self, text):
        for l in text.split('\n'):
            self.lines.append(l)

    def add(self, text):
        """One or more lines of code with noise around it; (first, last) line."""
        d = self.d
        for _ in range(d.pick(self.g.noisiness)):
            self.noise()
        a = len(self.lines) + 1
        n = d.int(0, 9) if self.g.quiet is False else 9
        if n == 0:
            text += ' // trailing { "'
        elif n == 1:
            text += ' /* trailing */'
        elif n == 2:
            text = '/* leading */ ' + text
        self.raw(d.pick(['', '', ' ', '\t', '      ']) + text if not text.startswith('#') else text)
        b = len(self.lines)
        return a, b

    def noise(self):
        d, g = self.d, self.g
        if g.big:
            g.big = False
            self.large()
            return
        k = d.int(0, 13)
        n = g.num()
        if k <= 1:
            g.f.add('blank')
            self.raw('\n' * d.pick([0, 0, 1, 2, 5, 7, 8, 9, 10, 30]))
        elif k == 2:
            g.f.add('line comment')
            self.raw(d.pick(['// it ; { x', '//', '  // a "b" \'c', '// ends with a backslash \\\n still the comment']))
        elif k == 3:
            g.f.add('block comment')
            self.raw('/*' + d.pick(['', ' x ', '\n', '\n\n int a;\n', '\n' * 12, ' * \n * // \n']) + '*/')
        elif k == 4:
            g.f.add('macro')
            self.raw('#define M%d %s' % (n, d.pick(['1', '(2)', '"s"', '\\\n 3', '{ int \\\n x; \\\n }', ''])))
        elif k == 5:
            g.f.add('function-like macro')
            self.raw('#define F%d(x, y) %s' % (n, d.pick(['x', '(x) + (y)', '\\\n x \\\n y'])))
        elif k == 6:
            g.f.add('#if 0')
            self.raw('#if %s' % d.pick(['0', 'defined(NOPE)', '1 > 2', '0 \\\n || 0']))
            self.raw(d.pick(['int x y z;', 'zz = 1;', '\n\n', '#if 1\n x \n#else\n y\n#endif', '\n' * 12]))
            self.raw('#endif')
        elif k == 7:
            g.f.add('#ifdef')
            self.raw(d.pick(['#ifndef NOPE%d\n#define NOPE%d\n#endif', '#ifdef NOPE\n bad\n#elif 1\n#else\n bad bad\n#endif%.0s%.0s',
                             '#if 1\n\n#endif /* %d %d */']) % (n, n))
        elif k == 8 and g.headers_ok and g.depth < 3:
            g.include(self)
        elif k == 9:
            g.f.add('empty directive')
            self.raw(d.pick(['#', '#undef NOPE', '#pragma x', ' # define ZZZ%d' % n]))
        elif k == 10 and g.headers_ok:
            g.f.add('system header')
            self.raw(d.pick(['#include <stddef.h>', '#include <limits.h>']))
        elif k == 11 and g.inside:
            g.f.add('splice')
            self.raw(d.pick(['zi = \\\n 1;', 'zi \\\n\\\n= 2;', 'puts("a\\\nb");']))
        elif k == 12 and g.inside:
            g.f.add('long statement')
            self.raw(d.pick(['zi\n=\n1\n;', 'ztwo(1,\n 2);', 'if (zi\n== 5)\n{\n}\nelse\n{\n}', 'puts(\n"a"\n);',
                             'for (zi = 0;\n zi < 2;\n zi++)\n ;', 'zi = zi ?\n1 :\n2;', '{\n\n}', ';\n\n;']))
        elif k == 13 and g.inside:
            g.f.add('macro call')
            self.raw('#define G%d(x, y) ztwo(x, y)' % n)
            self.raw(d.pick(['G%d(1, 2);', 'G%d(1,\n 2);', 'G%d\n(\n1,\n 2\n)\n;', 'zi = G%d(zi /* c */,\n // d\n 2);']) % n)
        else:
            self.raw('')


    def large(self):
        """A long way down."""
        d, g = self.d, self.g
        g.f.add('large')
        n = d.pick([99, 255, 256, 257, 1000, 1023, 4095, 4096, 9999, 32767, 32768, 65535, 65536, 65537, 70000, 100000])
        k = d.int(0, 6)
        if k == 0:
            self.raw('\n' * n)
        elif k == 1:
            self.raw('/*' + ' x\n' * n + '*/')
        elif k == 2:
            self.raw('// a comment\n' * n)
        elif k == 3:
            self.raw('#if 0\n' + 'not C\n' * n + '#endif')
        elif k == 4:
            self.raw('\n'.join('#define L%d %d' % (i, i) for i in range(min(n, 2000))))
        elif k == 5 and g.inside:
            self.raw('zi = zi +\n 1;\n' * min(n, 3000))
        elif k == 6 and not g.inside and g.headers_ok:
            self.raw('\n'.join('extern int zx%d;' % i for i in range(min(n, 3000))))
        else:
            self.raw('\n' * n)


class Gen:
    def __init__(self, d):
        self.d = d
        self.big = d.chance(1, 16)
        self.f = set()
        self.k = 0
        self.depth = 0
        self.files = {}
        self.headers_ok = True
        self.inside = False
        self.quiet = d.chance(1, 4)
        self.noisiness = d.pick([[0], [0, 0, 0, 1], [0, 1], [0, 1, 2, 3]])
        self.eol = '\n'
        self.where = None

    def num(self):
        self.k += 1
        return self.k

    def header(self, fault=None):
        """A new header; fault: the kind of fault that it contains."""
        n = 'h%d.h' % self.num()
        f = File(self, n)
        self.depth += 1
        old = self.inside
        self.inside = False
        guard = self.d.bool()
        if guard:
            f.raw('#ifndef H%d\n#define H%d' % (self.k, self.k))
        at = self.d.int(0, 2)
        for i in range(3):
            if fault and i == at:
                self.place_top(f, fault)
            self.top_item(f)
        if guard:
            f.raw('#endif')
        self.inside = old
        self.depth -= 1
        end = self.d.pick(['\n', '\n', '\n\n\n'])
        self.files[n] = '\n'.join(f.lines) + end
        return n

    def include(self, f):
        self.f.add('#include')
        n = self.header()
        f.raw('#include "%s"' % n)

    def top_item(self, f):
        d, n = self.d, self.num()
        k = d.int(0, 4)
        if k <= 1:
            f.add('int v%d;' % n)
        elif k == 2:
            f.add('struct s%d {' % n)
            old = self.inside, self.headers_ok
            self.inside = self.headers_ok = False
            f.add('int a;')
            f.add('char b;')
            f.add('};')
            self.inside, self.headers_ok = old
        elif k == 3:
            f.add('extern int puts(const char *s);')
        else:
            self.function(f, 'fn%d' % n, None)

    def function(self, f, name, fault):
        d = self.d
        f.add('int %s(%s)%s' % (name, d.pick(['int a', 'int a,\n  int b'])[:5], d.pick([' {', '\n{', '\n\n{'])))
        old, self.inside = self.inside, True
        ho, self.headers_ok = self.headers_ok, False
        self.body(f, d.int(0, 2), fault)
        if fault != 'none':
            f.add('return a;')
        f.add('}')
        self.headers_ok = ho
        self.inside = old

    def body(self, f, depth, fault):
        d = self.d
        n = d.int(1, 3)
        at = d.int(0, n - 1) if fault else None
        for i in range(n):
            if i == at:
                if depth > 0 and d.chance(2, 3):
                    self.f.add('nested')
                    a, b = d.pick([('if (1) {', '}'), ('{', '}'), ('for (int i%d = 0; i%d < 2; i%d++) {', '}'),
                                   ('while (1) {', 'break; }'), ('if (0) { puts("x"); } else {', '}'),
                                   ('if (1)\n{', '}'), ('for (;;)\n{', 'break;\n}'), ('if (0) ;\nelse if (1)\n{', '}')])
                    f.add(a.replace('%d', str(self.num())))
                    self.body(f, depth - 1, fault)
                    f.add(b)
                else:
                    self.place(f, fault)
            else:
                k = d.int(0, 5)
                if k == 0 and depth > 0:
                    f.add('if (zi) {')
                    self.body(f, depth - 1, None)
                    f.add('}')
                else:
                    f.add(d.pick(['zi = zi + 1;', 'puts("t");', 'za[1] = 2;', 'int l%d = 1;' % self.num(), 'ztwo(1, 2);',
                                  ';', 'zs.m = 3;']))

    def breaks(self, text):
        """The text with line breaks at some of its spaces and around operators."""
        d = self.d
        t = tokens(text)
        n = 0
        for i in range(len(t)):
            if '\n' not in t[i] and t[i] != '\\' and d.chance(1, 4):
                t[i] = t[i] + d.pick(['\n', '\n', '\n\n', ' /* x\n */ ', ' // y\n'])
                n += 1
        return ''.join(t)

    def place(self, f, fault):
        d = self.d
        if fault == 'syn':
            a, b, c = d.pick(BAD_STATEMENTS)
            self.f.add('syntax')
            self.put_syntax(f, a, b, c)
            return
        self.f.add('semantic')
        k = d.int(0, 9)
        fl = Faults(d)
        kind, x = fl.expr()
        self.f.add(kind)
        if k == 0:
            # in the header of a statement with several lines
            a, b = d.pick([('if (X) {', 'zi = 1;\n}'), ('while (X) {', 'zi = 1;\n}'), ('for (; (X);) {', 'zi = 1;\n}'),
                           ('for ((X); ; ) {', 'break;\n}'), ('if (X)', 'zi = 1;\nelse\n zi = 2;'),
                           ('for (zi = 0; zi < 2; (X)) {', 'zi++;\n\n}')])
            self.f.add('header of a statement')
            p = f.add(a.replace('X', x))
            f.raw(b)
        elif k == 1:
            # the fault is in a macro
            n = self.num()
            f.raw('#define BAD%d(q) %s' % (n, d.pick(['', '\\\n', '\\\n\\\n']) + '(%s)' % x))
            for _ in range(d.int(0, 2)):
                f.noise()
            self.f.add('macro expansion')
            p = f.add(d.pick(['BAD%d(1);', 'zi = BAD%d(2);', 'if (BAD%d(3)) ;']) % n)
        elif k == 2:
            # the second of two declarations
            n = 'zq%d' % self.num()
            f.add('int %s;' % n)
            for _ in range(d.int(0, 2)):
                f.add('zi = 2;')
            self.f.add('redeclared')
            p = f.add(d.pick(['int N;', 'char N = 1;', 'int *N;', 'int N[2];', 'struct zst N;', 'static int N;',
                              'enum { N };', 'int zq0, N;']).replace('N', n))
        elif k == 3:
            kind, s = d.pick([('incomplete', fl.incomplete), ('unresolved', fl.unresolved)]), None
            self.f.add(kind[0])
            p = f.add(kind[1]())
        elif k <= 6:
            s = x + ';'
            p = f.add(self.breaks(s))
            if p[0] != p[1]:
                self.f.add('fault over several lines')
        else:
            for _ in range(d.int(0, 2)):
                x = fl.context(x)
            t = fl.stmt_of(x)
            if d.bool():
                # after other statements of the same line
                for _ in range(d.int(1, 3)):
                    n = 'zl%d' % self.num()
                    t = d.pick(['struct zst N;', 'int N = 1;', 'enum { N = 2 };', 'struct { int a; } N;', 'union uN { int a; char b; };', 'zi = 3;',
                                'typedef int N; N xN;', 'struct sN; struct sN *N;', 'enum eN { N } xN;', 'char N[4];',
                                'int *N = &zi;', 'zi++;', '{ int N; } ;', 'if (zi) { ; } else ;']).replace('N', n) + ' ' + t
                self.f.add('same line')
                if d.chance(1, 4):
                    self.f.add('far right')
                    t = d.pick(['zi = 3;', 'zi;', 'ztwo(1, 2);', ';', 'puts("x");']) * d.pick([20, 40, 64, 100, 300, 1500]) + ' ' + t
            p = f.add(t)
        self.where = (f.name, p[0], p[1])

    def put_syntax(self, f, a, b, c):
        d = self.d
        if a:
            f.add(self.breaks(a) if '#' not in a + b and d.bool() else a)
        # the offending token: on the same line, or later
        if a and d.bool() and f.lines[-1].strip() and '//' not in f.lines[-1]:
            f.lines[-1] += ' ' + b
        else:
            if b == '#':
                f.lines.append('1 ' + b if not a else '')
                f.lines[-1:] = []
                if f.lines and a:
                    f.lines.append('/**/ zi ' + b) if a == 'zi' else f.lines.append(b)
            else:
                for _ in range(d.int(0, 2)):
                    f.noise() if not self.inside_unsafe else f.raw('')
                f.lines.append(b)
        n = len(f.lines)
        self.where = (f.name, n, n)
        if c:
            if d.bool():
                f.lines[-1] += ' ' + c
            else:
                f.lines.append(c)

    inside_unsafe = True

    def place_top(self, f, fault):
        """A fault at the top level of a file."""
        d = self.d
        if fault == 'syn':
            self.f.add('syntax')
            a, b, c = d.pick([x for x in BAD_STATEMENTS if x[0].startswith(('int', 'struct', 'enum', 'zx')) or x[1] in '@`'
                              and x[0] != 'zi'])
            self.put_syntax(f, a, b, c)
            return
        self.f.add('semantic')
        n = self.num()
        p = f.add(d.pick(['int v%d = nope;', 'int v%d[nope];', 'struct nope v%d;', 'int v%d = znone(1);', 'int steps, v%d;',
                          'int v%d, v%d = 1, v%d;', 'long v%d = 5 .m;', 'char *v%d = *zs;', 'enum { zi, E%d };',
                          'struct zst { int v%d; };', 'int v%d = nope(\n1);', 'int v%d =\n nope;']).replace('%d', str(n)))
        self.where = (f.name, p[0], p[1])


def gen(d):
    g = Gen(d)
    mode = d.pick(['main', 'main', 'main', 'top', 'fn', 'fn', 'header', 'header', 'headerfn', 'global', 'prompt', 'bicrc'])
    fault = d.pick(['syn', 'sem'])
    g.f.add(mode)
    name = d.pick(['t.c', 't.c', 't.c', './t.c', 'dir/x.c', 'a b.c', "it's.c", '%s%d.c'])
    main = File(g, name)
    if mode == 'prompt':
        return gen_prompt(d, g, fault)
    if mode == 'bicrc':
        main.name = name = 'home/.bic'
    pre = PRE + 'extern int nsfn(void);\nextern int nsvar;\n' + ZPRE
    if mode == 'bicrc':
        main.headers_ok = False
        g.headers_ok = False
    for l in pre.rstrip('\n').split('\n'):
        main.add(l)
    for _ in range(d.int(0, 2)):
        g.top_item(main)
    if mode in ('header', 'headerfn'):
        if mode == 'header':
            h = g.header(fault)
        else:
            hf = File(g, 'hf.h')
            g.depth += 1
            g.top_item(hf)
            g.function(hf, 'bad', fault)
            for _ in range(d.int(0, 3)):
                hf.noise()
            g.files['hf.h'] = '\n'.join(hf.lines) + '\n'
            g.depth -= 1
            h = 'hf.h'
        if d.chance(1, 3):
            g.f.add('header in a header')
            o = File(g, 'outer.h')
            g.depth += 2
            g.top_item(o)
            o.raw('#include "%s"' % h)
            g.top_item(o)
            g.depth -= 2
            g.files['outer.h'] = '\n'.join(o.lines) + '\n'
            h = 'outer.h'
        main.add('#include "%s"' % h)
    if mode == 'fn':
        g.function(main, 'bad', fault)
    if mode in ('global', 'bicrc'):
        g.place_top(main, fault)
    ret = mode != 'top'
    if mode == 'bicrc':
        g.top_item(main)
    elif mode == 'top':
        g.inside, g.headers_ok = True, False
        main.add('zinit();')
        g.body(main, d.int(0, 3), fault)
    else:
        main.add(d.pick(['int main() {', 'int main(void)\n{', 'int main()\n\n{']))
        g.inside, g.headers_ok = True, False
        main.add('zinit();')
        if mode in ('fn', 'headerfn'):
            g.body(main, 1, None)
            main.add(d.pick(['bad(1);', 'zi = bad(1);', 'zi = 1 + bad(2);', 'if (bad(3)) ;', 'for (bad(4); ; ) break;']))
            g.body(main, 1, None)
        else:
            g.body(main, d.int(0, 3), fault if mode == 'main' else None)
        main.add('return 0;')
        main.add('}')
    src = '\n'.join(main.lines) + d.pick(['\n', '\n\n', '\n'])
    return {'files': dict(g.files, **{name: src}), 'script': name, 'mode': mode, 'where': g.where, 'fault': fault,
            'f': sorted(g.f)}


def gen_prompt(d, g, fault):
    g.headers_ok = False
    f = File(g, 'h.h')
    for l in (PRE + 'extern int nsfn(void);\nextern int nsvar;\n' + ZPRE).rstrip('\n').split('\n'):
        f.add(l)
    call = d.bool()
    if call:
        g.function(f, 'bad', fault)
    else:
        g.place_top(f, fault)
    g.top_item(f)
    pre = [d.pick(['int q%d;' % i, '1 + 1;', '#include <e%d.h>' % i]) for i in range(d.int(0, 3))]
    lines = pre + ['#include <h.h>', 'zinit();', 'bad(1);']
    files = {'h.h': '\n'.join(f.lines) + '\n'}
    for i in range(3):
        files['e%d.h' % i] = 'int e%d;\n\n' % i
    return {'files': files, 'mode': 'prompt', 'lines': lines, 'where': g.where, 'fault': fault, 'f': sorted(g.f)}


def cases():
    return case_strategy(gen)


FMT = re.compile(r'^(?:Parser Error: (?P<f1>.*?):(?P<l1>\d+) |(?P<f2>.*?):(?P<l2>\d+):\d+: error: )')


COL = re.compile(r':(\d+):(\d+): error: Could not resolve identifier (\w+)\.')


def column(case, r, no):
    """The column of an identifier, where nothing before it is changed by the preprocessor."""
    m = COL.search(r[2].decode('latin-1'))
    name, a, b = case['where']
    if not m or int(m.group(1)) != no or a != b:
        return
    lines = case['files'][name].split('\n')
    line = lines[no - 1]
    if no > 1 and (lines[no - 2].endswith('\\') or re.search(r'[(,]\s*$', lines[no - 2])):
        return
    at = [x.start() for x in re.finditer(r'\b%s\b' % m.group(3), line)]
    if not at or re.search(r'[\t"\\/#\'A-Z]|\S  ', line[:at[-1]]):
        return
    case['f'] = sorted(set(case['f']) | {'column'})
    if int(m.group(2)) not in [x + 1 for x in at]:
        raise Violation('the message names column %s, %s stands in column %s\n%s' % (m.group(2), m.group(3), [x + 1 for x in at], show(r)))


def check(env, case):
    import shutil
    for x in os.listdir(env.scratch):
        p = os.path.join(env.scratch, x)
        if x.endswith('.h'):
            os.unlink(p)
    base = os.path.dirname(case.get('script') or '')
    for n, t in case['files'].items():
        env.write(n if n == case.get('script') else os.path.join(base, n), t)
    if case['mode'] == 'prompt':
        r = env.repl(case['lines'], opts=('-I', '.'))
    elif case['mode'] == 'bicrc':
        r = env.repl(['1;'], env={'HOME': os.path.join(env.scratch, 'home')})
    else:
        r = env.bic(name=case['script'])
    if r[0] is None or r[0] <= 0:
        raise Violation('not rejected: ' + show(r))
    name, a, b = case['where']
    if name != case.get('script'):
        name = os.path.join(base, name)
    found = None
    for l in r[2].decode('latin-1').split('\n'):
        m = FMT.match(l)
        if m:
            found = (m.group('f1') or m.group('f2'), int(m.group('l1') or m.group('l2')))
            break
    if found is None:
        raise Violation('no location in the message: ' + show(r))
    want = os.path.normpath(name)
    got = os.path.relpath(found[0], env.scratch) if os.path.isabs(found[0]) else os.path.normpath(found[0])
    if got != want:
        raise Violation('the message names the file %s, not %s\n%s' % (got, want, show(r)))
    if not a <= found[1] <= b:
        raise Violation('the message names line %d, the fault is on line %d%s\n%s'
                        % (found[1], a, '' if a == b else ' to %d' % b, show(r)))
    column(case, r, found[1])
    noise = set(case['f']) & {'blank', 'line comment', 'block comment', 'macro', 'function-like macro', '#if 0', '#ifdef',
                              '#include', 'empty directive', 'system header', 'splice', 'long statement', 'macro call'}
    return case['f'] if len(noise) >= 2 and a >= 5 else []


def render(case):
    s = ''
    for n, t in case['files'].items():
        s += '==== %s\n' % n
        s += '\n'.join('%3d %s' % (i + 1, l) for i, l in enumerate(t.split('\n'))) + '\n'
    return s + '\nfault: %s' % (case['where'],)
