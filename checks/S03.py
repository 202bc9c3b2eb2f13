"""S03: libraries named with -l are opened and resolved as the linker would.

Generated sets of shared libraries with colliding symbols; a model of the resolution says which library's
function and object each name denotes."""
import os
from cgen import *
from engine import Violation, Invalid, show
from session import transcript

PROP = 'S03'
COUNTS = {'quick': 1800, 'thorough': 12000}
RULE = ('each case is a set of up to 4 generated libraries that define overlapping subsets of a pool of functions and objects '
        '(among them names that bic\'s own libraries or the C library define too), named with -l in any order, repeatedly (also hundreds of times), by path (relative, absolute, in a '
        'directory), bare name on the library search path, file name on it, attached to -l or not, together with m; one in five '
        'cases contains a library that cannot be opened (missing, not a library, with undefined symbols); a script or a '
        'prompt session calls every function and reads and writes every object, through the name and through accessors '
        'of the libraries; non-trivial: a symbol is defined by 2 libraries that are loaded, or a library cannot be opened; '
        'distinct by text')
ASSUMPTIONS = ['libraries are self contained or depend on libraries named earlier']
FNS = ['fn0', 'fn1', 'fn2', 'fn3', 'add_history', 'mpz_add', 'rl_insert', 'abs', 'toupper', 'sin', 'evaluate', 'yyparse', 'ffi_call', 'labs', 'tgetent']
VARS = ['var0', 'var1', 'var2', 'PC', 'rl_point', 'history_length', 'optind', 'cur_ctx']


def gen(d):
    nl = d.int(1, 4)
    libs = []
    fp, vp = FNS[:4] + [d.pick(FNS[4:]) for _ in range(2)], VARS[:3] + [d.pick(VARS[3:]) for _ in range(2)]
    fp, vp = list(dict.fromkeys(fp)), list(dict.fromkeys(vp))
    how = d.pick(['script', 'script', 'main', 'prompt'])
    for k in range(nl):
        fs = [f for f in fp if d.bool()]
        vs = [v for v in vp if d.bool()]
        ctor = d.chance(1, 4)
        src = ['extern int puts(const char *s);'] if ctor else []
        for f in fs:
            i = fp.index(f)
            st = d.bool()
            src.append('%sint %s(int a) { %sreturn a + %d; }' % ('static int n_%s;\n' % f if st else '', f, 'n_%s++; ' % f if st else '', 100 * k + 10 * i))
        for v in vs:
            src.append('int %s = %d;' % (v, 1000 * k + vp.index(v)))
            src.append('int get%d_%s(void) { return %s; }' % (k, v, v))
        src.append('int id%d(void) { return %d; }' % (k, k))
        if ctor:
            src.append('static void __attribute__((constructor)) init(void) { puts("init%d"); }' % k)
        place = d.pick(['./%s.so', 'sub/%s.so', 'abs/%s.so', 'bare', 'bare', 'file', './lib %s.so', './%s', 'sub/../%s.so'])
        libs.append({'k': k, 'fs': fs, 'vs': vs, 'ctor': ctor, 'src': src, 'place': place, 'att': d.chance(1, 4), 'dep': None})
    order = d.shuffle(list(range(nl)))[:d.int(1, nl)]
    if d.chance(1, 5):
        order.insert(d.int(0, len(order)), d.pick(order))      # named twice
    many = d.pick([100, 254, 255, 256, 257, 300, 520]) if d.chance(1, 15) else 0      # the last one named that often
    # dependencies on functions of libraries loaded earlier
    def first(kind, name, among):
        for k in among:
            if name in libs[k][kind]:
                return k
        return None
    seen = []
    for k in order:
        if k not in seen and seen and d.chance(1, 2):
            cand = [f for f in FNS[:4] if f not in libs[k]['fs'] and first('fs', f, seen) is not None]
            if cand:
                f = d.pick(cand)
                libs[k]['dep'] = (f, first('fs', f, seen))
                libs[k]['src'] += ['extern int %s(int a);' % f, 'int dep%d(int a) { return %s(a) + 5; }' % (k, f)]
        if k not in seen:
            seen.append(k)
    order += order[-1:] * many
    bad = None
    if d.chance(1, 5):
        bad = {'at': d.int(0, len(order) - many), 'kind': d.pick(['missing', 'text', 'dir', 'undef', 'missing bare', 'empty file', 'header'])}
    m = d.pick([None, None, None, 0 if 'sin' not in fp else None, len(order)])
    # use
    decl, use, exp = [], [], []
    fdef = [f for f in fp if first('fs', f, seen) is not None]
    vdef = [v for v in vp if first('vs', v, seen) is not None]
    val = {v: 1000 * first('vs', v, seen) + vp.index(v) for v in vdef}
    own = {(k, v): 1000 * k + vp.index(v) for k in seen for v in libs[k]['vs']}
    for f in fdef:
        decl.append('extern int %s(int a);' % f)
    for v in vdef:
        decl.append('extern int %s;' % v)
    for k in seen:
        decl.append('extern int id%d(void);' % k)
        for v in libs[k]['vs']:
            decl.append('extern int get%d_%s(void);' % (k, v))
        if libs[k]['dep']:
            decl.append('extern int dep%d(int a);' % k)
    decl = d.shuffle(decl)
    for _ in range(d.int(2, 12)):
        c = d.int(0, 5)
        if c == 0:
            k = d.pick(seen)
            use.append('id%d()' % k)
            exp.append(k)
        elif c <= 2 and fdef:
            f = d.pick(fdef)
            a = d.int(0, 9)
            use.append('%s(%d)' % (f, a))
            exp.append(a + 100 * first('fs', f, seen) + 10 * fp.index(f))
        elif c == 3 and vdef:
            v = d.pick(vdef)
            k = first('vs', v, seen)
            if d.bool():
                n = d.int(0, 5000)
                use.append('%s = %d' % (v, n))
                exp.append(n)
                val[v] = own[(k, v)] = n
            else:
                use.append(v)
                exp.append(val[v])
        elif c == 4 and own:
            k, v = d.pick(sorted(own))
            use.append('get%d_%s()' % (k, v))
            exp.append(own[(k, v)])
        else:
            ds = [k for k in seen if libs[k]['dep']]
            if ds:
                k = d.pick(ds)
                f, j = libs[k]['dep']
                use.append('dep%d(2)' % k)
                exp.append(7 + 100 * j + 10 * fp.index(f))
    if m is not None:
        decl.append('extern double fabs(double x);')
        use.append('(int)fabs(-3.5)')
        exp.append(3)
    coll = any(sum(n in libs[k][w] for k in seen) > 1 for w, p in (('fs', fp), ('vs', vp)) for n in p)
    return {'libs': libs, 'order': order, 'm': m, 'bad': bad, 'how': how, 'decl': decl, 'use': use, 'exp': exp, 'coll': coll,
            'odd': any(n not in FNS[:4] + VARS[:3] for n in fdef + vdef)}


def cases():
    return case_strategy(gen)


def text(case):
    P = 'extern int printf(const char *f, ...);\n'
    body = ['printf("<%%d>", %s);' % u for u in case['use']]
    if case['how'] == 'script':
        return P + '\n'.join(case['decl'] + body) + '\n'
    return P + '\n'.join(case['decl']) + '\nint main() {\n' + '\n'.join(body) + '\nreturn 0;\n}\n'


def files(case, scratch):
    """The -l arguments and the path of every library's file."""
    path, name = {}, {}
    for l in case['libs']:
        k, p = l['k'], l['place']
        if p == 'bare':
            path[k], name[k] = 'lp/libb%d.so' % k, 'b%d' % k
        elif p == 'file':
            path[k], name[k] = 'lp/libf%d.so' % k, 'libf%d.so' % k
        elif p.startswith('abs/'):
            path[k] = 'sub/a%d.so' % k
            name[k] = scratch + '/' + path[k]
        else:
            path[k] = name[k] = p % ('l%d' % k)
    return path, name


def render(case):
    path, name = files(case, '$PWD')
    return '\n'.join('/* %s */\n%s' % (path[l['k']], '\n'.join(l['src'])) for l in case['libs']) + \
        '\n/* -l %s; bad: %s */\n' % (' -l '.join(name[k] for k in case['order']), case['bad']) + text(case)


def check(env, case):
    import shutil
    for n in ('sub', 'lp'):
        shutil.rmtree(os.path.join(env.scratch, n), ignore_errors=True)
        os.makedirs(os.path.join(env.scratch, n))
    path, name = files(case, env.scratch)
    for l in case['libs']:
        if l['k'] in case['order']:
            env.write('o.c', '\n'.join(l['src']) + '\n')
            cmd = ('%s -quiet -w -O0 -fPIC o.c -o o.s && as -o o.o o.s && ld -shared -Bsymbolic -o "%s" o.o' % (env.cc1, path[l['k']]))
            rc, out, err = env.run(['/bin/sh', '-c', cmd], timeout=120)
            if rc != 0:
                raise Invalid('gcc: ' + err.decode('latin-1')[:400])
    opts = [['-l', name[k]] if not case['libs'][k]['att'] else ['-l' + name[k]] for k in case['order']]
    bad = case['bad']
    if bad:
        kind = bad['kind']
        if kind == 'undef':
            env.write('o.c', 'extern int really_nowhere(void); int u(void) { return really_nowhere(); }\n')
            rc, out, err = env.run(['/bin/sh', '-c', '%s -quiet -w -O0 -fPIC o.c -o o.s && as -o o.o o.s && ld -shared -o sub/bad.so o.o' % env.cc1])
            if rc:
                raise Invalid('gcc')
        elif kind == 'dir':
            os.makedirs(os.path.join(env.scratch, 'sub/bad.so'))
        elif kind == 'text':
            env.write('sub/bad.so', 'int f;\n')
        elif kind == 'empty file':
            env.write('sub/bad.so', '')
        elif kind == 'header':
            env.write('sub/bad.so', b'\x7fELF\x02\x01\x01' + b'\0' * 90)
        opts.insert(bad['at'], ['-l', {'missing': './none.so', 'missing bare': 'nonesuch'}.get(kind, './sub/bad.so')])
    if case['m'] is not None:
        opts.insert(case['m'], ['-l', 'm'])
    opts = [o for x in opts for o in x]
    e = {'LD_LIBRARY_PATH': os.path.join(env.scratch, 'lp')}
    init = []
    for i, k in enumerate(case['order']):
        if bad and i >= bad['at']:
            break
        if case['libs'][k]['ctor'] and 'init%d' % k not in init:
            init.append('init%d' % k)
    pre = ''.join(x + '\n' for x in init)
    if case['how'] == 'prompt' and not bad:
        lines = case['decl'] + [u + ';' for u in case['use']]
        got = env.repl(lines, opts=opts, env=e)
        head, res = transcript(got[1])
        want = [str(v) for v in case['exp']]
        echo = [r[1].strip() for r in res[len(case['decl']):][:len(want)]]
        if got[0] != 0 or echo != want or got[2] or not got[1].decode('latin-1').startswith(pre):
            raise Violation('expected %r\n got %r\n%s' % (want, echo, show(got)))
    else:
        got = env.bic(text(case), opts=opts, env=e)
        if bad:
            if got[0] in (0, None) or got[0] < 0 or got[1].decode('latin-1') != pre or not got[2]:
                raise Violation('a library that cannot be opened must end the program: ' + show(got))
            return ['bad: ' + bad['kind']]
        want = pre + ''.join('<%d>' % v for v in case['exp'])
        if got[0] != 0 or got[1].decode('latin-1') != want:
            raise Violation('expected %r\n got %s' % (want, show(got)))
    return [case['how']] + (['library of bic'] if case['odd'] else []) + (['named twice'] if len(set(case['order'])) < len(case['order']) else []) \
        if case['coll'] else []
