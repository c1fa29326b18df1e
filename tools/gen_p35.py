#!/usr/bin/env python3
# Generates checks/h/P35_<part>.cpp: every query expression of a small grammar, each with a reference evaluation.
import itertools, os, sys
OUT = os.path.join(os.path.dirname(__file__), '..', 'checks', 'h')
AR = ['+', '-', '*', '/', '%']
CMP = ['==', '!=', '<', '<=', '>', '>=']
items = []   # (id, db-expression, reference-expression, kind): kind 'p' takes an int parameter
def rf(op): return {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'mod', '==': 'eq', '!=': 'ne', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '||': 'orr', '&&': 'andd'}[op]
A, B, S, S2, D = 'Col(&T::a)', 'Col(&T::b)', 'Col(&T::s)', 'Col(&T::s2)', 'Col(&T::d)'
R = {A: 'I(r.a)', B: 'I(r.b)'}
def lit(n): return (f'({n})' if n < 0 else str(n)), f'I({n})'
P = 'db::param<int32_t>'
def arith(name, e, r): items.append((name, f'({e}) == {P}', f'eq({r}, I(p))', 'p'))
# one operator, two operators, literal on either side, literals negative too
for o in AR:
    for n in (3, -2):
        l, lr = lit(n)
        arith(f'col{o}lit{n}', f'{A} {o} {l}', f'{rf(o)}(I(r.a), {lr})')
        arith(f'lit{n}{o}col', f'{l} {o} {B}', f'{rf(o)}({lr}, I(r.b))')
    items.append((f'truth:col{o}col', f'{A} {o} {B}', f'{rf(o)}(I(r.a), I(r.b))', 'n'))
    items.append((f'truth:col{o}param', f'{A} {o} {P}', f'{rf(o)}(I(r.a), I(p))', 'p'))
    for o2 in AR:
        arith(f'(col{o}2){o2}3', f'({A} {o} 2) {o2} 3', f'{rf(o2)}({rf(o)}(I(r.a), I(2)), I(3))')
        arith(f'7{o2}(col{o}2)', f'7 {o2} ({A} {o} 2)', f'{rf(o2)}(I(7), {rf(o)}(I(r.a), I(2)))')
        arith(f'(5{o}col){o2}3', f'(5 {o} {B}) {o2} 3', f'{rf(o2)}({rf(o)}(I(5), I(r.b)), I(3))')
        arith(f'9{o2}(5{o}col)', f'9 {o2} (5 {o} {B})', f'{rf(o2)}(I(9), {rf(o)}(I(5), I(r.b)))')
        items.append((f'truth:(col{o}2){o2}col', f'({A} {o} 2) {o2} {B}', f'{rf(o2)}({rf(o)}(I(r.a), I(2)), I(r.b))', 'n'))
        items.append((f'truth:col{o2}(2{o}col)', f'{A} {o2} (2 {o} {B})', f'{rf(o2)}(I(r.a), {rf(o)}(I(2), I(r.b)))', 'n'))
for o in ('==', '!='):
    items.append((f'cmp:cal{o}col', f'({A} - 1) {o} {B}', f'{rf(o)}(sub(I(r.a), I(1)), I(r.b))', 'n'))
    items.append((f'cmp:col{o}cal', f'{A} {o} ({B} * 2)', f'{rf(o)}(I(r.a), mul(I(r.b), I(2)))', 'n'))
    items.append((f'cmp:lit{o}cal', f'4 {o} ({B} * 2)', f'{rf(o)}(I(4), mul(I(r.b), I(2)))', 'n'))
for o in CMP:
    items.append((f'cmp:col{o}col', f'{A} {o} {B}', f'{rf(o)}(I(r.a), I(r.b))', 'n'))
    items.append((f'cmp:col{o}param', f'{A} {o} {P}', f'{rf(o)}(I(r.a), I(p))', 'p'))
    for n in (-1, 0, 2):
        l, lr = lit(n)
        items.append((f'cmp:col{o}{n}', f'{A} {o} {l}', f'{rf(o)}(I(r.a), {lr})', 'n'))
        items.append((f'cmp:{n}{o}col', f'{l} {o} {A}', f'{rf(o)}({lr}, I(r.a))', 'n'))
    items.append((f'cmp:double{o}', f'{D} {o} 0.5', f'B(r.d {o} 0.5)', 'n'))
    items.append((f'cmp:{o}double', f'-1.25 {o} {D}', f'B(-1.25 {o} r.d)', 'n'))
    items.append((f'cmp:long{o}', f'Col(&T::id) {o} int64_t(3)', f'B(r.id {o} 3)', 'n'))
    for k, v in enumerate(['', 'b', "it's", "''", 'x\\"y', "?'); --"]):
        items.append((f'str:col{o}{k}', f'{S} {o} "{v}"_fs', f'B(r.s {o} std::string("{v}"))', 'n'))
        items.append((f'str:{k}{o}col', f'"{v}"_fs {o} {S}', f'B(std::string("{v}") {o} r.s)', 'n'))
    items.append((f'str:col{o}col', f'{S} {o} {S2}', f'B(r.s {o} r.s2)', 'n'))
items += [('in:1', f'{A}.in<2>()', 'B(r.a == 2)', 'n'), ('in:3', f'{A}.in<2, -1, 0>()', 'B(r.a == 2 || r.a == -1 || r.a == 0)', 'n'),
          ('notin:1', f'{A}.notIn<2>()', 'B(r.a != 2)', 'n'), ('notin:2', f'{A}.notIn<2, 5>()', 'B(r.a != 2 && r.a != 5)', 'n'),
          ('in:col', f'{A}.in<7, {B}>()', 'B(r.a == 7 || r.a == r.b)', 'n'), ('in:param', f'{A}.in<{P}, {B}, 3>()', 'B(r.a == p || r.a == r.b || r.a == 3)', 'p'),
          ('in:str', f'{S}.in<"b"_fs, "it\'s"_fs>()', 'B(r.s == "b" || r.s == "it\'s")', 'n'), ('notin:str', f'{S}.notIn<"b"_fs>()', 'B(r.s != "b")', 'n'),
          ('like:p', f'{S}.like<"%b%">()', 'B(r.s.find(\'b\') != std::string::npos || r.s.find(\'B\') != std::string::npos)', 'n'),
          ('like:_', f'{S}.like<"_">()', 'B(r.s.size() == 1)', 'n'), ('like:q', f'{S}.like<"it\'%">()', 'B(r.s.rfind("it\'", 0) == 0)', 'n'),
          ('notlike', f'{S}.notLike<"%b%">()', 'B(!(r.s.find(\'b\') != std::string::npos || r.s.find(\'B\') != std::string::npos))', 'n'),
          ('not', f'!{A}', 'B(r.a == 0)', 'n')]
# grouping of conditions: three and four atoms; rows cover every truth assignment of (x, y, z, w)
at = [(f'Col(&T::x) == 1', 'B(r.x == 1)'), (f'(1 == Col(&T::y))', 'B(r.y == 1)'), (f'!Col(&T::z)', 'B(r.z == 0)'), (f'Col(&T::w).in<1, 5>()', 'B(r.w == 1)')]
for perm in itertools.permutations(range(4), 3):
    for o1, o2 in itertools.product(['||', '&&'], repeat=2):
        (p, pr), (q, qr), (s, sr) = (at[i] for i in perm)
        n = ''.join(map(str, perm))
        items.append((f'log:({n[0]}{o1}{n[1]}){o2}{n[2]}', f'(({p}) {o1} ({q})) {o2} ({s})', f'{rf(o2)}({rf(o1)}({pr}, {qr}), {sr})', 'n'))
        items.append((f'log:{n[0]}{o1}({n[1]}{o2}{n[2]})', f'({p}) {o1} (({q}) {o2} ({s}))', f'{rf(o1)}({pr}, {rf(o2)}({qr}, {sr}))', 'n'))
(p, pr), (q, qr), (s, sr), (t, tr) = at
for o1, o2, o3 in itertools.product(['||', '&&'], repeat=3):
    items.append((f'log4:(p{o1}q){o2}(s{o3}t)', f'(({p}) {o1} ({q})) {o2} (({s}) {o3} ({t}))', f'{rf(o2)}({rf(o1)}({pr}, {qr}), {rf(o3)}({sr}, {tr}))', 'n'))
    items.append((f'log4:p{o1}(q{o2}(s{o3}t))', f'({p}) {o1} (({q}) {o2} (({s}) {o3} ({t})))', f'{rf(o1)}({pr}, {rf(o2)}({qr}, {rf(o3)}({sr}, {tr})))', 'n'))
    items.append((f'log4:((p{o1}q){o2}s){o3}t', f'((({p}) {o1} ({q})) {o2} ({s})) {o3} ({t})', f'{rf(o3)}({rf(o2)}({rf(o1)}({pr}, {qr}), {sr}), {tr})', 'n'))
# arithmetic and parameters inside conditions
for o1, o2 in itertools.product(['||', '&&'], repeat=2):
    items.append((f'mix:{o1}{o2}', f'((({A} + 1) * 2 == {P}) {o1} (3 > {B})) {o2} ({A} != {P})', f'{rf(o2)}({rf(o1)}(eq(mul(add(I(r.a), I(1)), I(2)), I(p)), gt(I(3), I(r.b))), ne(I(r.a), I(q)))', 'pq'))
    items.append((f'mix2:{o1}{o2}', f'({A} > {P}) {o1} (({B} < {P}) {o2} (4 - {B} == 1))', f'{rf(o1)}(gt(I(r.a), I(p)), {rf(o2)}(lt(I(r.b), I(q)), eq(sub(I(4), I(r.b)), I(1))))', 'pq'))
NP = int(sys.argv[1]) if len(sys.argv) > 1 else 4
parts = [[] for _ in range(NP)]
for i, it in enumerate(items): parts[i % NP].append((i, it))
def cs(s): return s.replace('\\', '\\\\').replace('"', '\\"')
for k, part in enumerate(parts):
    with open(os.path.join(OUT, f'P35_{k}.cpp'), 'w') as f:
        f.write('// generated by tools/gen_p35.py: query expressions and their reference evaluation\n#include "P35_common.hpp"\nnamespace vp {\nvoid go() {\n')
        for i, (n, e, r, kind) in part:
            f.write(f'    expr_{kind}<{i}, ({e})>("{cs(n)}", [](M const& r, [[maybe_unused]] int p, [[maybe_unused]] int q) -> V {{ return {r}; }});\n')
        if k == 0: f.write('    queries();\n')
        f.write('}\n} // namespace vp\nvoid mc_main() { vp::go(); }\n')
print(len(items), 'expressions in', NP, 'parts')
