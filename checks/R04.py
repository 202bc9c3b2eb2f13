"""R04: completion offers exactly the matching names."""
import os, re
from session import *
from engine import Violation, show
from ptys import Pty, Ended

PROP = 'R04'
COUNTS = {'quick': 320, 'thorough': 5000}
RULE = ('each case is a session on a pseudo terminal, at the prompt itself or at a prompt opened in nested scopes of a script '
        'function (parameters, locals, shadowed names, globals, other functions with locals of their own), partly with headers included: declarations of all '
        'kinds, then up to 25 lines in each of which TAB is pressed after a prefix of a name, after an expression denoting a '
        'compound (members of members, elements, through pointers) with . or -> and a prefix of a member, or after other text '
        'that matches nothing (expressions with side effects, non-compounds, garbage); the names listed and the text inserted '
        'must be those of the model, and the completed line must evaluate to the value of the completed object; the session '
        'ends with the echo of every object; non-trivial: at least 3 completions with a match; distinct by session')
ASSUMPTIONS = ['the terminal is a dumb one; readline lists the matches at the first TAB (show-all-if-ambiguous)',
               'the directory holds no files, so that the fall back of readline to file names offers nothing',
               'the tag of an enum may or may not be offered']

GARBAGE = ['zq', '"abc', '(', ')', ';', '1+', '1.', '1.5', '.', '->', 'nope.', 'nope->a', '*', '&', '=', '{', '[', 'a[', '((', '1->x',
           'zq()', 'zq().', 'zq(1,', '#include', '#', '?', "'a", '@', '/*', '//', '/*.', '//.', '"a.', '"."', "'.", '3.a', '-', '...',
           'sizeof(int).', '(int)1.', '!.', '5/0', '1?2:3.', 'int.', 'struct.', 'if.', 'while->', 'zq.a.b.c->d', ');exit(1);(1.', ';;.',
           '{}.', '1;2.', '1;2;3->', '-1.', '~->', 'sizeof.', '$.', '\\.', '%d.', '&&.', '<REPL>.', '#include<stdio.h>.', '?x.', '()', '().']


def members(st):
    return [n for n, k, a in st.members]


def step(d, s, visible, maybe, shadowed):
    """One line with a TAB: {'keys', 'list', 'full', 'exp'}: list: the names offered; full: the line after completion; exp: its echo."""
    k = d.int(0, 9)
    pre = d.pick(['', '', '', '1 + ', 'x = ', '( ', '& ', '"a" , '])
    if k <= 3 and (visible or maybe):
        names = sorted(set(visible) | set(maybe))
        n = d.pick(shadowed if shadowed and d.bool() else names)
        p = n[:d.int(1, len(n))] if d.int(0, 4) else d.pick(['v', 'c', 'x', '_n', 'A', 'value', 'count', 't', 'm', 'pr', 'g'])
        if p == '_':
            # the builtin functions start with it
            p = '_n'
        match = sorted(x for x in set(visible) if x.startswith(p))
        opt = sorted(x for x in set(maybe) if x.startswith(p))
        if opt:
            # the enum tags might be offered as well
            return {'keys': pre + p + '\t\x15', 'list': match, 'opt': opt, 'full': None, 'exp': '', 'kind': 'names'}
        if len(match) == 1:
            o = s.vars.get(match[0])
            sv = show_value(o) if o is not None else ('%d' % s.consts[match[0]] if match[0] in s.consts else None)
            if sv is None or pre:
                return {'keys': pre + p + '\t|\x15', 'list': [], 'ins': pre + match[0] + ' |', 'exp': '', 'kind': 'name'}
            return {'keys': p + '\t;', 'list': [], 'ins': match[0] + ' ;', 'exp': sv, 'kind': 'name'}
        if not match:
            return {'keys': pre + p + '\t|\x15', 'list': [], 'ins': pre + p + '|', 'exp': '', 'kind': 'none'}
        n = d.pick(match)
        o = s.vars.get(n)
        sv = show_value(o) if o is not None else None
        if sv is None or pre:
            return {'keys': pre + p + '\t' + '|\x15', 'list': match, 'ins': pre + p + '|', 'exp': '', 'kind': 'names'}
        return {'keys': p + '\t' + n[len(p):] + ';', 'list': match, 'ins': n + ';', 'exp': sv, 'kind': 'names'}
    if k <= 7:
        objs = [(t, pr, o, '.') for t, pr, o in s.lvalues(Struct)] + \
               [(t, pr, o.target, '->') for t, pr, o in s.lvalues(SPtr) if o.target is not None] + \
               [(t, pr, o, '.') for t, pr, o in s.lvalues(Union)] * 2
        if objs:
            t, pr, o, op = d.pick(objs)
            e = ''.join(t)
            if pr < 17:
                e = '(%s)' % e
            elif d.chance(1, 8):
                e = '(%s)' % e
            if op == '.' and pr >= 15 and d.chance(1, 6):
                e, op = '(&%s)' % e, '->'
            elif op == '->' and d.chance(1, 6):
                e, op = '(*%s)' % e, '.'
            ms = members(o.st) if isinstance(o, Struct) else [x for x, _ in o.members]
            m = d.pick(ms)
            p = m[:d.int(0, len(m))] if d.int(0, 5) else d.pick(['zz', 'a', 'b', 'l', 'k', 'n', 'alpha'])
            match = sorted(x for x in ms if x.startswith(p))
            head = e + op
            if d.chance(1, 10):
                # the other operator: nothing is offered
                wrong = e + {'.': '->', '->': '.'}[op]
                return {'keys': wrong + p + '\t|\x15', 'list': [], 'ins': wrong + p + '|', 'exp': '', 'kind': 'wrong operator'}
            if not match:
                return {'keys': pre + head + p + '\t|\x15', 'list': [], 'ins': pre + head + p + '|', 'exp': '', 'kind': 'no member'}
            n = match[0] if len(match) == 1 else d.pick(match)
            sv = show_value(o.m[n]) if isinstance(o, Struct) else '%d' % o.get(dict(o.members)[n])
            lst = [] if len(match) == 1 else [head + x for x in match]
            tail = ' ' if len(match) == 1 else ''
            if sv is None or pre:
                return {'keys': pre + head + p + '\t|\x15', 'list': lst, 'ins': pre + head + (n + ' ' if not lst else p) + '|', 'exp': '',
                        'kind': 'members' if lst else 'member'}
            return {'keys': head + p + '\t' + (n[len(p):] if lst else '') + ';', 'list': lst, 'ins': head + n + tail + ';', 'exp': sv,
                    'kind': 'members' if lst else 'member'}
    # text that doesn't match
    cells = s.lvalues(Cell)
    if cells and d.bool():
        t, pr, c = d.pick(cells)
        e = ''.join(t)
        if pr < 17:
            e = '(%s)' % e
        g = d.pick(['%s.', '%s++.', '%s->x', '(%s=5).', '(%s=1)->a', '--%s.', '%s[0].', '%s().', '*%s.', '1+%s.', '(%s+=2).', 'x,%s.a',
                    '(%s,nope).', '%s;%s.', '&%s->', '%s/0.', '(%s=7,%s)->q']).replace('%s', e)
    else:
        g = d.pick(GARBAGE)
        if d.bool():
            g = ''.join(d.pick(['(', ')', '.', '->', 'a', '1', '"', '+', '*', ';', '[', ']', 'zq', '=', '{', ',', "'", '?', '-', '&'])
                        for _ in range(d.int(1, 8)))
            if any(x.startswith(g) for x in set(visible) | set(maybe)):
                g = 'zq'
    if g[0] in './~':
        # these could denote files
        g = 'z' + g
    return {'keys': g + '\t|\x15', 'list': [], 'ins': g + '|', 'exp': '', 'kind': 'nothing'}


def include(s, files, h, steps, extra):
    steps.append({'keys': '#include <%s>' % h[4:], 'list': [], 'ins': None, 'exp': '', 'kind': 'line'})
    t = files[h]
    m = re.search(r'enum (\w+) { (\w+) = (\d+), (\w+)', t)
    for n in re.findall(r'int (\w+)\(', t) + [re.search(r'typedef int (\w+)', t).group(1)] + [m.group(1)]:
        if n not in extra:
            extra.append(n)
    s.consts[m.group(2)], s.consts[m.group(4)] = int(m.group(3)), int(m.group(3)) + 1


def gen(d):
    s = Session(d)
    mode = d.weighted([(3, 'prompt'), (2, 'script')])
    src, hidden, extra, shadowed = None, [], [], []
    if mode == 'script':
        L = []
        for i in range(d.int(0, 4)):
            L.append(d.pick([s.decl_int, s.decl_int, s.decl_dbl, s.decl_str, s.decl_struct, s.decl_enum, s.decl_typedef])()[0])
        shadow = [n for n, o in s.vars.items() if isinstance(o, (Cell, Dbl))]
        hl = s.name()
        L.append('int other(int %sp) { int %s = 1; return %s; }' % (hl, hl, hl))
        hidden += [hl, hl + 'p']
        ps = []
        for i in range(d.int(0, 3)):
            t = d.pick(INTS)
            n = d.pick(shadow) if shadow and d.bool() else s.name()
            if n not in [x[0] for x in ps]:
                ps.append((n, t, d.int(0, 100)))
                if n in shadow:
                    shadowed.append(n)
        L.append('int fun(%s) {' % ', '.join('%s %s' % (t.name, n) for n, t, v in ps))
        for n, t, v in ps:
            s.vars[n] = Cell(t, v)
        for i in range(d.int(0, 3)):
            L.append([s.decl_int, s.decl_str, s.decl_struct][d.int(0, 2)]()[0])
        nest = d.int(0, 2)
        for _ in range(nest):
            # the scope of a block that has ended
            n = s.name()
            hidden.append(n)
            L.append('{ int %s; %s = 2; }' % (n, n))
            L.append(d.pick(['{', 'if (1) {', 'while (1) {', 'for (;;) {']))
            if shadow and d.bool():
                n = d.pick(shadow)
                s.vars[n] = Cell(INT, 77)
                shadowed.append(n)
                L.append('int %s = 77;' % n)
            if d.bool():
                L.append([s.decl_int, s.decl_str, s.decl_struct][d.int(0, 2)]()[0])
        L.append('<REPL>;')
        L.append('return 7; ' + '}' * nest + '}')
        hm = s.name()
        hidden.append(hm)
        L.append('int main() { int %s; %s = other(1); return fun(%s); }' % (hm, hm, ', '.join(str(v) for n, t, v in ps)))
        src = '\n'.join(L) + '\n'
        extra = ['other', 'fun', 'main', 'argc', 'argv']
    steps = []
    files = {}
    for i in range(d.weighted([(2, 0), (2, 1), (1, 2)])):
        # names of a header
        p = d.pick(['v', 'x', 'count', 'h%d_' % i, 'value'])
        hn = ['%s%s%d' % (p, x, i) for x in ('fun', 'RED', 'GREEN', 'type', 'ext')]
        files['inc/h%d.h' % i] = '#ifndef H%d\n#define H%d\nextern int %s(int a);\nenum tag%d { %s = %d, %s };\ntypedef int %s;\nextern int %s(void);\n#endif\n' % (
            i, i, hn[0], i, hn[1], d.int(0, 50), hn[2], hn[3], hn[4])
    n = d.weighted([(2, d.int(3, 8)), (1, 15)])
    for i in range(n):
        l, e = s.line()
        steps.append({'keys': l, 'list': [], 'ins': None, 'exp': e, 'kind': 'line'})
        if files and d.chance(1, 4):
            h = d.pick(sorted(files))
            include(s, files, h, steps, extra)
        if not l.endswith(';') or '\t' in l:
            raise AssertionError(l)
    for i in range(d.weighted([(3, d.int(3, 10)), (1, 25)])):
        if files and d.chance(1, 6):
            include(s, files, d.pick(sorted(files)), steps, extra)
        if d.chance(1, 5):
            l, e = s.line()
            steps.append({'keys': l, 'list': [], 'ins': None, 'exp': e, 'kind': 'line'})
        visible = list(s.vars) + list(s.consts) + list(s.typedefs) + list(s.funcs) + [x for x in extra if x not in ('tag0', 'tag1')] + \
            [st.spec for st in s.stypes if not st.spec.startswith('struct ')]
        steps.append(step(d, s, visible, s.tags + [t for t in ['tag0', 'tag1'] if t in extra], shadowed))
    for l, e in s.dump():
        steps.append({'keys': l, 'list': [], 'ins': None, 'exp': e, 'kind': 'line'})
    return {'mode': mode, 'src': src, 'steps': steps, 'files': files, 'gc': d.pick(['', '', '0', '1', '7'])}


def cases():
    return case_strategy(gen)


def render(case):
    return '\n'.join([case['src'] or ''] + ['/* %s */\n%s' % x for x in case['files'].items()] + ['%r -> list %s line %r echo %r' % (st['keys'], st['list'], st.get('ins'), st['exp'])
                                            for st in case['steps']])


def displayed(text):
    """The text of an edited line as it finally appears (backspaces applied)."""
    out = []
    i = 0
    for c in text:
        if c == '\b':
            i = max(0, i - 1)
        elif c == '\a':
            pass
        else:
            if i < len(out):
                out[i] = c
            else:
                out.append(c)
            i += 1
    return ''.join(out)


def parse(text):
    """(names listed, line as edited or None, output)"""
    rows = text.replace('\r\n', '\n').split('\n')
    if rows and rows[-1].startswith('BIC> '):
        rows.pop()
    at = [i for i, r in enumerate(rows) if r.startswith('BIC> ')]
    if at:
        i = at[-1]
        return rows[1:i], rows[i][5:], '\n'.join(rows[i + 1:])
    return [], rows[0], '\n'.join(rows[1:])


def check(env, case):
    cwd = os.path.join(env.scratch, 'empty')
    os.makedirs(cwd, exist_ok=True)
    argv = [env.bins['plain']]
    for n, t in case['files'].items():
        env.write('r4/' + n, t)
    if case['files']:
        argv += ['-I', os.path.join(env.scratch, 'r4/inc')]
    if case['mode'] == 'script':
        argv += ['-s', env.write('r4/t.c', case['src'])]
    p = Pty(env, argv, cwd, e={'BIC_VERIF_GC': case['gc']} if case['gc'] else {})
    ok = False
    try:
        p.prompt()
        for i, st in enumerate(case['steps']):
            try:
                text = p.line(st['keys'])
            except Ended as e:
                if str(e) == 'no answer' and not env.replaying:
                    return []
                raise Violation('the session ended or hung (%s) at step %d: %r\n%s' % (e, i + 1, st['keys'], p.raw[-600:].decode('latin-1')))
            lst, line, out = parse(text)
            what = 'step %d: %r\n' % (i + 1, st['keys'])
            names = [x.strip() for x in lst if x.strip()]
            if 'opt' in st:
                # with the optional names a unique match may be inserted instead
                if names:
                    bad = sorted(set(names) - set(st['opt'])) != st['list'] or len(set(names)) != len(names)
                else:
                    one = displayed(line)
                    bad = len(st['list']) + len(st['opt']) > 1 and len(st['list']) > 1
                if bad:
                    raise Violation('%s expected the names %r (possibly %r)\n got %r\n%r' % (what, st['list'], st['opt'], names, text))
                continue
            if sorted(names) != st['list']:
                raise Violation('%s expected the names %r\n got %r\n%r' % (what, st['list'], names, text))
            if st.get('ins') is not None:
                l = line
                if st['keys'].endswith('\x15'):
                    # what was there before the line was discarded
                    l = l.split('|')[0] + '|'
                l = displayed(l)
                if l != st['ins']:
                    raise Violation('%s expected the line %r\n got %r\n%r' % (what, st['ins'], l, text))
            if norm(out) != norm(st['exp']):
                raise Violation('%s expected the output %r\n got %r\n%r' % (what, st['exp'], norm(out), text))
        ok = True
    except Ended as e:
        raise Violation('the prompt did not appear (%s): %r' % (e, p.raw[-600:]))
    finally:
        if not ok:
            p.close()
    status = p.end()
    if status is None:
        return []
    if status != (7 if case['mode'] == 'script' else 0):
        raise Violation('the session ended with status %s\n%s' % (status, p.raw[-600:].decode('latin-1')))
    ks = [st['kind'] for st in case['steps'] if st['kind'] != 'line']
    return ['mode ' + case['mode']] + sorted(set(ks)) if sum(k in ('name', 'names', 'member', 'members') for k in ks) >= 3 else []
