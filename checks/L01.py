"""L01: literals denote exactly the values and bytes C gives them.  Oracle: gcc."""
import re
from cgen import *
import scale
from engine import expect_same

PROP = 'L01'
COUNTS = {'quick': 4500, 'thorough': 60000}
RULE = ('each case uses 1-12 random literals (decimal/octal/hex integers up to 64 bits, floating literals of up to 25 '
        'digits, all plain and escaped characters, strings of up to 200 bytes with every byte value and all '
        'octal escapes) as printf/strlen/memcmp arguments, initialisers, operands, kept pointers, returned values and '
        'in loops, with random comments and blanks between tokens; non-trivial: a 64-bit or octal/hex integer, a '
        'float of more than 6 digits, an escape, or a byte outside ASCII; one case in 14 is extreme in one dimension (lib/scale.py); distinct by program text')
ASSUMPTIONS = ['gcc -O0 is a correct C compiler for the generated programs']

PRE = '''extern int printf(const char *f, ...);
extern int puts(const char *s);
extern unsigned long strlen(const char *s);
extern int strcmp(const char *a, const char *b);
extern char *strdup(const char *a);
extern char *strchr(const char *a, int c);
char *keep;
char *tab[4];
struct st { int n; char *s; } gs;
void hex(char *s) { int i; int n; n = strlen(s); printf("%d:", n); for (i = 0; i <= n; i++) printf("%d ", s[i]); puts(""); }
void hexn(char *s, int n) { int i; for (i = 0; i < n; i++) printf("%d ", s[i]); puts(""); }
char *same(char *s) { return s; }
'''


def integer(d):
    k = d.int(0, 4)
    v = d.pick([d.int(0, 100), (1 << d.int(0, 63)) - d.int(0, 1), d.int(0, (1 << 63) - 1), d.int(0, 1 << 32),
                d.int(0, 7)])
    if k <= 1:
        return '%d' % v, v > 0xffffffff
    if k == 2:
        z = '0' * d.int(1, 3)
        return z + ('%o' % v if v else ''), True
    h = '%x' % v
    h = ''.join(c.upper() if d.bool() else c for c in h) if d.bool() else h
    return d.pick(['0x', '0X', '0x00']) + h, True


def floating(d):
    n, m = d.int(1, 12), d.int(1, 12)
    a = ''.join(str(d.int(0, 9)) for _ in range(n)) if d.chance(2, 3) else d.pick(['0', '00', '1', '9999999999', '123'])
    b = ''.join(str(d.int(0, 9)) for _ in range(m))
    return '%s.%s' % (a, b), n + m > 6


def char(d):
    k = d.int(0, 4)
    if k == 0:
        return d.pick(["'\\n'", "'\\r'", "'\\\\'"]), True
    c = chr(d.int(32, 126))
    if c in "'\\":
        c = ' '
    return "'%s'" % c, False


def string(d):
    n = d.pick([0, 1, 2, 5, 12, 40, 200]) if d.chance(1, 3) else d.int(0, 12)
    s, nt = '', False
    for _ in range(n):
        k = d.int(0, 9)
        if k <= 4:
            c = chr(d.int(32, 126))
            s += c if c not in '"\\' else '.'
        elif k == 5:
            s += d.pick(['/*', '*/', '//', "'", '#', '%%', '{', '}', ';', '??', '  '])
        elif k <= 7:
            s += d.pick(['\\n', '\\t', '\\"', '\\\\', '\\\\n', '\\\\\\"'])
            nt = True
        elif k == 8:
            w = d.int(1, 3)
            v = d.int(1, 255) if d.chance(4, 5) else 0
            o = '%o' % v
            o = o.rjust(w, '0')[:3]
            if int(o, 8) > 255:
                o = '1'
            s += '\\' + o
            nt = True
        else:
            s += chr(d.int(128, 255))
            nt = True
    return '"%s"' % s, nt


def length(l):
    return len(re.sub(r'\\([0-7]{1,3}|.)', '.', l)) - 2


def gen(d):
    body, feats = [], set()
    glob = []
    for i in range(d.int(1, 12)):
        k = d.int(0, 19)
        nt = False
        if k <= 4:
            l, nt = integer(d)
            feats.add('integer')
            u = int(l, 0 if l[1:2] in 'xX' else 8 if l[0] == '0' else 10) if l != '0' else 0
            j = d.int(0, 4)
            if j == 0:
                body.append('printf ( "%lu\\n" , (unsigned long) ' + l + ' ) ;')
            elif j == 1:
                body.append('unsigned long u%d = %s ; printf ( "%%lu\\n" , u%d ) ;' % (i, l, i))
            elif j == 2:
                glob.append('unsigned long g%d = %s ;' % (i, l))
                body.append('printf ( "%%lu %%d\\n" , g%d , g%d == %s ) ;' % (i, i, l))
            elif j == 3:
                t = d.pick(INTS)
                body.append('%s u%d ; u%d = ( %s ) %s ; printf ( "%s\\n" , u%d ) ;' % (t.name, i, i, t.name, l, t.fmt, i))
            else:
                body.append('printf ( "%%d\\n" , %s == %d ) ;' % (l, u))
        elif k <= 8:
            l, nt = floating(d)
            feats.add('float')
            j = d.int(0, 3)
            if j == 0:
                body.append('printf ( "%%a %%f\\n" , %s , %s ) ;' % (l, l))
            elif j == 1:
                body.append('double u%d = %s ; printf ( "%%a\\n" , u%d ) ;' % (i, l, i))
            elif j == 2:
                body.append('float u%d = %s ; printf ( "%%a\\n" , u%d ) ;' % (i, l, i))
            else:
                glob.append('double g%d = %s ;' % (i, l))
                body.append('printf ( "%%a\\n" , g%d ) ;' % i)
        elif k <= 11:
            l, nt = char(d)
            feats.add('char')
            j = d.int(0, 2)
            if j == 0:
                body.append('printf ( "%%d %%d\\n" , %s , %s + 1 ) ;' % (l, l))
            elif j == 1:
                body.append('char c%d = %s ; printf ( "[%%c]\\n" , c%d ) ;' % (i, l, i))
            else:
                s, _ = string(d)
                body.append('printf ( "%%d\\n" , strchr ( %s , %s ) != 0 ) ;' % (s, l))
        else:
            l, nt = string(d)
            feats.add('string')
            j = d.int(0, 10)
            if re.search(r'\\0', l):
                feats.add('maybe NUL')
            if j == 0:
                body.append('hex ( %s ) ;' % l if d.bool() else 'hexn ( %s , %d ) ;' % (l, length(l) + 1))
            elif j == 1:
                body.append('printf ( "%%d <%%s>\\n" , ( int ) strlen ( %s ) , %s ) ;' % (l, l))
            elif j == 2:
                body.append('char * s%d = %s ; hex ( s%d ) ;' % (i, l, i))
            elif j == 3:
                body.append('keep = %s ;' % l)
                feats.add('kept')
            elif j == 4:
                body.append('tab [ %d ] = %s ;' % (d.int(0, 3), l))
                feats.add('kept')
            elif j == 5:
                body.append('gs . s = %s ; hex ( gs . s ) ;' % l)
            elif j == 6:
                m, _ = string(d)
                body.append('printf ( "%%d %%d\\n" , strcmp ( %s , %s ) == 0 , strcmp ( %s , %s ) == 0 ) ;' % (l, l, l, m))
            elif j == 7:
                body.append('{ int i ; for ( i = 0 ; i < 3 ; i ++ ) { hex ( %s ) ; keep = %s ; } }' % (l, l))
                feats.add('loop')
            elif j == 8:
                body.append('hex ( same ( %s ) ) ;' % l)
            elif j == 9:
                glob.append('char *lit%d() { return %s ; }' % (i, l))
                body.append('keep = lit%d ( ) ; hex ( lit%d ( ) ) ;' % (i, i))
            else:
                glob.append('char *gp%d = %s ;' % (i, l))
                body.append('hex ( gp%d ) ;' % i)
        if nt:
            feats.add('nt')
    body.append('if ( keep ) hex ( keep ) ;')
    body.append('{ int i ; for ( i = 0 ; i < 4 ; i ++ ) if ( tab [ i ] ) hex ( tab [ i ] ) ; }')
    # random comments and blanks between the tokens of main
    mode = d.int(0, 2)
    text = '\n'.join(glob + ['int main ( ) {'] + body + ['return 0 ; }'])
    if mode:
        base = [d.pick([' ', '  ', '\t', '\n', ' /* c " */ ', '/**/', ' // x \' y\n', '\n\n', ' /* a\n * b */ ', '\f ', ' \\\n'])
                for _ in range(5)]
        feats.add('comments')
        out, i, n = [], 0, 0
        q = None
        while i < len(text):
            c = text[i]
            if q:
                out.append(c)
                if c == '\\':
                    out.append(text[i + 1])
                    i += 1
                elif c == q:
                    q = None
            elif c in '"\'':
                q = c
                out.append(c)
            elif c == ' ':
                n += 1
                out.append(base[n % 5] if n % 3 == 0 else ' ')
            else:
                out.append(c)
            i += 1
        text = ''.join(out)
    return {'src': PRE + text + '\n', 'f': sorted(feats)}


def cases():
    return case_strategy(scale.mixed(gen, PROP))


def check(env, case):
    expect_same(env.gcc(case['src']), env.bic(case['src']))
    if case.get('scale'):
        return case['f']
    return case['f'] if 'nt' in case['f'] else []

