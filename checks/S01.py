"""S01: arguments reach the script byte for byte, and its exit status and output reach the caller.

Argument vectors, script names, exit paths and exit values are generated; the expected output and status are
computed by a model."""
import os
from cgen import *
from engine import Violation, show

PROP = 'S01'
COUNTS = {'quick': 3000, 'thorough': 30000}
RULE = ('each case is a vector of 0 to 40 arguments (empty, with arbitrary bytes, looking like options of bic, up to 5000 '
        'bytes), a script name (with directories, spaces and shell metacharacters, absolute, attached to -s), interpreter '
        'options before -s, a script of one of the forms top level, main with 0, 1 or 2 parameters (also declared '
        'beforehand), reading the vector by index or by walking it, and a way to end (falling off the end, return from '
        'nested blocks and loops, exit from nested calls, loops and callbacks) with any int value; non-trivial: 1 argument or more '
        'and an explicit status; distinct by text and vector')
ASSUMPTIONS = ['script names do not start with - (the system preprocessor takes those for options)']

OPTS = [b'-T', b'-D', b'-v', b'-s', b'-l', b'-I', b'--', b'-', b'-s', b'other.c', b'-lm', b'-x', b'--help', b'--version', b'-TD',
        b'-E', b'-I.', b'-sother.c']
NAMES = ['t.c', 't.c', './t.c', 'd/t.c', 'a b.c', 'noext', "q'q.c", 'd"d.c', 'x$HOME.c', 'b`ls`.c', 'e!;&|.c', 'b\\s.c', 'p(1)[2].c', 't.txt',
         '~t.c', 'd/../t.c', 'utf\xc3\xa9.c', 't.h', 't.s', '%d%s.c', 'sp  two.c']


def arg(d):
    k = d.int(0, 6)
    if k <= 1:
        return d.pick(OPTS)
    if k == 2:
        return d.pick([b'', b' ', b'a b', b'"', b"'", b'$HOME', b'*', b'%s%n', b'\\n', b'\n', b'a\tb', b'\\', b'0', b'-1', b'#',
                       b'/* x */', b'main', b'argc', b';', b'|cat', b'>f'])
    if k == 3:
        return bytes(d.int(1, 255) for _ in range(d.int(1, 12)))
    if k == 4:
        return b'z' * d.pick([100, 1000, 5000])
    return bytes(d.pick(list(b'abcxyz019_=.,/-')) for _ in range(d.int(1, 9)))


def status(d):
    """C text of an int expression and its value."""
    v = d.pick([0, 1, 2, 3, 127, 128, 129, 255, 256, 257, 511, -1, -2, -128, -255, -256, -257, 65536, 1000000, 2147483647, -2147483647])
    if d.bool():
        v = d.int(-3000, 3000)
    return v


def gen(d):
    args = [arg(d) for _ in range(d.pick([0, 1, 1, 2, 2, 3, 4, 6, 9, 40]))]
    form = d.pick(['top', 'main0', 'main1', 'main2', 'main2'])
    v = status(d)
    pre, glob, body = [], ['extern int printf(const char *f, ...);', 'extern int puts(const char *s);', 'extern void exit(int c);',
                           'extern int putchar(int c);'], []
    hasargs = form in ('top', 'main2')
    walk = d.int(0, 3)
    if hasargs:
        body.append('printf("%d\\n", argc);')
        if walk == 0:
            body.append('for (int i = 0; i < argc; i++) printf("[%s]", argv[i]);')
        elif walk == 1:
            body.append('int i = 0; while (argv[i]) { printf("[%s]", argv[i]); i++; }')
        elif walk == 2:
            body.append('char **p; p = argv; while (*p) { printf("[%s]", *p); p++; }' if form == 'main2' else
                        'int i; for (i = 0; argv[i] != 0; i++) { char *a = argv[i]; printf("[%s]", a); }')
        else:
            body.append('int i; int j; for (i = argc - 1; i >= 0; i--) { for (j = 0; argv[i][j]; j++) putchar(argv[i][j]); putchar(10); }')
    elif form == 'main1':
        body.append('printf("%d\\n", argc);')
    tail = d.pick(['tail', 'tail\\n', ''])
    if tail:
        body.append('printf("%s");' % tail)
    # the way to end
    ways = ['none', 'return', 'return', 'nested return', 'loop return', 'exit', 'exit call', 'exit callback', 'return var', 'return call', 'exit loop']
    if form != 'top':
        ways += ['return main']
    way = d.pick(ways)
    t = '(%d)' % v if d.bool() else ('%d + %d' % (v - 7, 7) if v > -2147483000 else str(v))
    if way == 'none':
        v = 0
    elif way == 'return':
        body.append('return %s;' % t)
    elif way == 'nested return':
        body.append('{ int k = 1; if (k) { { int k = 2; if (k == 2) { return %s; } } } } puts("not reached");' % t)
    elif way == 'loop return':
        body.append('for (int k = 0; k < 5; k++) { int w = 0; while (1) { w++; if (w > k + 2) break; if (k == 2) return %s; } } puts("not reached");' % t)
    elif way == 'exit':
        body.append('exit(%s); puts("not reached");' % t)
    elif way == 'exit call':
        glob.append('int down(int n) { int l = n; if (n == 0) { exit(%s); } return down(n - 1) + l; }' % t)
        body.append('if (down(%d) > 0) puts("not reached"); puts("not reached");' % d.int(0, 5))
    elif way == 'exit callback':
        glob.append('extern void qsort(void *b, unsigned long n, unsigned long s, int (*c)(const void *, const void *));')
        glob.append('int cmp(const void *a, const void *b) { exit(%s); return 0; }' % t)
        body.append('int arr[3]; arr[0] = 3; arr[1] = 2; arr[2] = 1; qsort(arr, 3, sizeof(int), &cmp); puts("not reached");')
    elif way == 'return var':
        ty = d.pick(['int', 'long', 'long long'] + (['short'] if -32768 <= v < 32768 else []) + (['signed char'] if -128 <= v < 128 else []) +
                    (['unsigned char'] if 0 <= v < 256 else []))
        body.append('%s res; res = %s; return res;' % (ty, t))
    elif way == 'return call':
        glob.append('int val(int a) { return a; }')
        body.append('return val(%s);' % t)
    elif way == 'exit loop':
        body.append('int z = 0; while (1) { if (z++ == 3) { exit(%s); } } puts("not reached");' % t)
    else:
        # main calls itself once more before it returns
        glob.append('int again = 1;')
        call = {'main0': 'main()', 'main1': 'main(argc)', 'main2': 'main(argc, argv)'}[form]
        body.append('if (again) { again = 0; return %s; } return %s;' % (call, t))
    sig = {'main0': d.pick(['int main()', 'int main(void)', 'static int main(void)']),
           'main1': 'int main(int argc)', 'main2': d.pick(['int main(int argc, char **argv)', 'int main(int argc, char *argv[])',
                                                           'int main(const int argc, char *argv[])'])}
    if form == 'top':
        src = '\n'.join(glob) + '\n' + '\n'.join(body) + '\n'
    else:
        s = sig[form]
        if d.chance(1, 4):
            glob.insert(d.int(0, len(glob)), s + ';')
        src = '\n'.join(glob) + '\n' + s + ' {\n' + '\n'.join(body) + '\n}\n'
    opts = d.pick([[], [], [], ['-l', 'm'], ['-lm'], ['-I', '.'], ['-I.', '-l', 'm'], ['-D']])
    return {'src': src, 'name': d.pick(NAMES), 'abs': d.chance(1, 10), 'attached': d.chance(1, 8), 'opts': opts, 'form': form, 'walk': walk, 'way': way,
            'args': [a.decode('latin-1') for a in args], 'tail': tail.replace('\\n', '\n'), 'v': v}


def cases():
    return case_strategy(gen)


def render(case):
    return '%s\n/* name: %r options: %r arguments: %r attached: %s */' % (case['src'], case['name'], case['opts'], case['args'], case['attached'])


def check(env, case):
    os.makedirs(os.path.join(env.scratch, 'd'), exist_ok=True)
    name = case['name'].encode('latin-1')
    path = env.scratch.encode() + b'/' + name
    with open(path, 'wb') as f:
        f.write(case['src'].encode('latin-1'))
    if case['abs']:
        name = path
    args = [a.encode('latin-1') for a in case['args']]
    cmd = [env.bins['plain']] + case['opts'] + ([b'-s' + name] if case['attached'] else [b'-s', name]) + args
    got = env.run(cmd)
    os.unlink(path)
    vec = [name] + args
    exp = b''
    if case['form'] in ('top', 'main2'):
        exp = b'%d\n' % len(vec)
        if case['walk'] == 3:
            exp += b''.join(a + b'\n' for a in reversed(vec))
        else:
            exp += b''.join(b'[' + a + b']' for a in vec)
    elif case['form'] == 'main1':
        exp = b'%d\n' % len(vec)
    exp += case['tail'].encode()
    if case['way'] == 'return main':
        exp += exp
    if got[0] != case['v'] % 256 or got[1] != exp:
        raise Violation('expected exit=%d stdout=%r\n got %s' % (case['v'] % 256, exp[:1500], show(got)))
    return [case['form'], case['way']] + (['odd name'] if case['name'] not in ('t.c', './t.c') else []) if args and case['way'] != 'none' else []
