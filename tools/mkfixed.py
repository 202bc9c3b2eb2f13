#!/usr/bin/env python3
"""Regenerates the `fixed:` part of known_findings.txt from /repo's log (property by subject)."""
import os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [l.rstrip('\n').split('|', 2) for l in '''
return expression|C02|a return statement kept the value of its first execution
evaluate the expression of a return|C02|a return statement kept the value of its first execution
honour break and return in if|C01|break and return inside if statements or unbraced loop bodies were ignored
compound statements nested in blocks|C01|a block nested in a block was not executed
scope of for loop|C01|for loop declarations leaked, an omitted condition was not true
convert values to the destination type|E03|values out of the range of the destination type were stored wrongly
round floating point|L01|floating literals were not rounded to the nearest double
unary minus|E01|`a -1` was not parsed as a subtraction
minus sign that directly|E01|`a -1` was not parsed as a subtraction
accept a cast as the operand|E01|`!(int)x`, `&`, `*` and `~` did not accept casts as operands
sign of negative enumerators|N01|negative enumerators lost their sign
truncate integer division|E01|division of negative values rounded down
right shift of negative|E01|right shift of negative values was not arithmetic
parameter list of just void|C02|`f(void)` was given one parameter
initialised pointers to be evaluated|C02|an initialised pointer declaration failed when executed again
resolve identifiers in functions lexically|C03|functions saw the local variables of their callers
convert the returned value to the return type|C02|returned values were not converted to the return type
string literals static|G01|string literals were freed while still referenced
lvalue of a compound assignment|E02|the lvalue of a compound assignment was evaluated twice
increment and decrement pointers|E04|++ and -- on pointers moved by one byte
scale integers added|E04|pointer + integer was not scaled by the element size
truncate the value of conditions|C01|conditions were truncated to int before being tested
mark every object only once|G03|the collector recursed exponentially and without bounds on shared objects
garbage collector's table|G02|the collector wrote past its table of allocations
temporaries of loop conditions|G03|temporaries of loop conditions and steps were kept until the loop ended
returned value before leaving|G01|the returned value was read after the locals of the function were freed
expressions that don't have a value|X01|using a void value crashed
value returned by main|S01|the exit status ignored main's return value and top-level returns
alignment of nested compounds|T02|alignment of nested compounds and tail padding were wrong
scope of compound tags|T02|tags defined within compounds were not visible afterwards
compound members of enumerated|N01|compound members of enumerated types were rejected
defined after it has been declared|C02|a function could not be defined after its declaration
definition of functions that return pointers|C02|functions returning pointers could not be defined
octal and upper case|L01|octal and 0X literals had wrong values
octal escapes|L01|octal escapes consumed more than three digits
invalid characters and literals|R03|invalid characters ended the session or were ignored
line markers with|X02|line markers with blanks or quotes in the file name were misread
location of the code|X02|errors were reported at another location than that of the offending code
callbacks return|F03|callbacks did not return their value and were freed while in use
convert arguments of external|F01|arguments were not converted to the parameter types of external functions
completion of compound members|R04|member completion crashed or offered wrong names
objects are initially zero|C03|objects without initialiser held arbitrary values
negative array subscripts|T03|negative subscripts addressed wrong elements
conversion of negative integers to pointers|E03|negative integers converted to pointers wrongly
enumerated types in sizeof|N01|enumerated types were rejected in sizeof and casts
NUL characters in string|L01|string literals ended at an embedded NUL
members that point to functions|T02|members that point to functions returning pointers were rejected
dereferencing function pointers|F01|calls through a dereferenced function pointer crashed
external compounds, function|F02|external compounds, function pointers and arrays of unknown size were not the library's object
'''.strip().split('\n')]
EXTRA = os.path.join(here, 'tools', 'fixed_extra.txt')
if os.path.exists(EXTRA):
    MAP += [l.rstrip('\n').split('|', 2) for l in open(EXTRA) if l.strip()]
out = []
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '--grep=^fix:'], stdout=subprocess.PIPE).stdout.decode().splitlines():
    h, s = l.split(' ', 1)
    m = [x for x in MAP if x[0] in s]
    if not m: print('unmapped:', s); continue
    out.append('fixed: property=%s %s %s' % (m[0][1], h, m[0][2]))
p = os.path.join(here, 'known_findings.txt')
keep = [l.rstrip('\n') for l in open(p)] if os.path.exists(p) else []
keep = [l for l in keep if l and not l.startswith('fixed:')]
open(p, 'w').write('\n'.join(keep + out) + '\n')
print(len(out))
