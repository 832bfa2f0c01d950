#!/usr/bin/env python3
"""Writes harness/gen_layouts.hpp: a fixed corpus of bit-field layouts."""
import random
r = random.Random(20240101)
out = ['// generated by tools/gen_layouts.py', '#pragma once', '#include "datas/bitfield.hpp"']
L = []
for w in (8, 16, 32, 64):
    for k in range(14):
        n = r.choice([2, 2, 3, 4, 5, 7, 9, 12]) if w > 8 else r.choice([2, 3, 4, 5, 8])
        n = min(n, w)
        total = w if k % 2 == 0 else r.randint(n, w)
        cuts = sorted(r.sample(range(1, total), n - 1))
        sizes = [b - a for a, b in zip([0] + cuts, cuts + [total])]
        if k == 0: sizes = [1, w - 1]
        if k == 1: sizes = [w - 1, 1]
        if k == 2: sizes = [w // 2, w // 2]
        if k == 3: sizes = [1] * w if w <= 16 else [w // 2 - 1, 2, w // 2 - 1]
        if (w, sizes) not in L: L.append((w, sizes))
for w in (8, 16, 32, 64): # a single member
    L += [(w, [w]), (w, [w * 5 // 8])]
L += [(64, [1] * 64), (64, [1] * 40 + [24]), (64, [31] + [1] * 33), (32, [1] * 32), (64, [2] * 32)] # more members than half the widest storage has bits
for i, (w, sizes) in enumerate(L):
    ms = ', '.join(f'BitMemberDecl<{j}, {z}>' for j, z in enumerate(sizes))
    out.append(f'typedef BitFieldType<uint{w}, {ms}> L{i};')
    out.append(f'template <class F> void members(L{i} *, F f) {{ ' + ' '.join(f'f.template op<BitMemberDecl<{j}, {z}>>();' for j, z in enumerate(sizes)) + ' }')
out.append('#define ALL_LAYOUTS(X) ' + ' '.join(f'X({i})' for i in range(len(L))))
out.append(f'static const size_t NUM_LAYOUTS = {len(L)};')
out.append('static const std::vector<std::vector<unsigned>> LAYOUT_SIZES = {' + ', '.join('{' + ', '.join(map(str, s)) + '}' for _, s in L) + '};')
open(__file__.replace('tools/gen_layouts.py', 'harness/gen_layouts.hpp'), 'w').write('\n'.join(out) + '\n')
