"""Deterministic generator of reflected declarations of many sizes -> harness/gen_reflcls.hpp"""
import random
R = random.Random(20261)
TYPES = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'float', 'double', 'bool',
         'En8', 'En64', 'es::Flags<Fl8, uint8>', 'es::Flags<Fl64>', 'Vector', 'Vector2', 'Vector4A16', 'IVector4', 'UCVector',
         'Leaf', 'Bf16', 'Bw64', 'std::string', 'A<int16, 3>', 'A<Leaf, 2>', 'A<Vector2, 2>', 'A<Bf8, 5>', 'std::array<uint8, 5>', 'A<bool, 9>', 'A<std::string, 2>', 'A<En16, 4>', 'A<uint64, 300>']
SIZES = [1, 2, 3, 5, 9, 16, 27, 40, 58, 73, 84, 85, 86, 87, 88, 89]
o = ['// generated by tools/gen_reflcls.py', '#pragma once', '#include "refl_types.hpp"', 'template <class T, size_t N> using A = T[N];']
names = []
def chunk(l): return ', '.join(l)
for n in SIZES:
    c = f'Gen{n}'
    names.append(c)
    mem = [(f'm{i}_{"".join(R.choice("abcdef") for _ in range(3))}', R.choice(TYPES)) for i in range(n)]
    extra = R.randint(0, 2)
    lay = mem + [(f'hidden{i}', R.choice(TYPES)) for i in range(extra)]
    R.shuffle(lay)
    o.append(f'struct {c} {{')
    for nm, t in lay:
        o.append(f'  {t} {nm};')
    o.append('  void ReflectorTag();\n};')
    ext = n in (3, 16, 58, 84, 88)
    mods = {}
    if ext:
        items = []
        for nm, t in mem:
            k = R.choice(['A', 'D', 'AD', ''])
            al = f'alias of {nm}'
            ds = R.choice(['before % after', 'only', '% after', 'before %', 'x%y'])
            R2 = random.Random(nm) # some are longer than small counters hold
            if R2.random() < .2:
                part = lambda: ''.join(R2.choice('abcdefgh ijkl.') for _ in range(R2.choice([0, 1, 100, 125, 126, 127, 128, 129, 254, 255, 256, 257, 300, 1000])))
                ds = part() + ('%' + part() if R2.random() < .7 else '')
                ds = ds or 'x'
            p1, _, p2 = ds.partition('%')
            items.append({'A': f'(A, {nm}, "{al}")', 'D': f'(D, {nm}, "{ds}")', 'AD': f'(AD, {nm}, "{al}", "{ds}")', '': f'(, {nm})'}[k])
            mods[nm] = ('"%s"' % al if 'A' in k else 'nullptr', '"%s"' % p1 if 'D' in k else 'nullptr', '"%s"' % p2 if 'D' in k else 'nullptr')
        o.append(f'REFLECTOR_CREATE({c}, 1, EXTENDED, {chunk(items)})')
    else:
        o.append(f'REFLECTOR_CREATE({c}, 1, VARNAMES, {chunk([m for m, _ in mem])})')
    o.append(f'template <> inline const ClassModel &classModel<{c}>() {{ using CC = {c}; static ClassModel m = [] {{ ClassModel m = mkClass<CC>("{c}", {{')
    for nm, t in mem:
        a = mods.get(nm, ('nullptr',) * 3)
        o.append(f'    MemberModel{{"{nm}", offsetof(CC, {nm}), descOf<decltype(CC::{nm})>(), {a[0]}, {a[1]}, {a[2]}}},')
    o.append(f'  }}); m.hasExt = {"true" if ext else "false"}; return m; }}(); return m; }}')
o.append('inline const std::vector<const ClassModel *> &genClasses() { static std::vector<const ClassModel *> v{' + chunk([f'&classModel<{c}>()' for c in names]) + '}; return v; }')
en = []
for idx, n in enumerate(SIZES):
    width = [8, 16, 32, 64, 0][idx % 5]
    c = f'GEnum{n}'
    cls = R.random() < .7 or width == 0
    items, nxt = [], 0
    top = {8: 1 << 8, 16: 1 << 16, 32: 1 << 32, 64: 1 << 64, 0: 1 << 31}[width]
    for i in range(n):
        nm = f'{c}_{i}' if R.random() < .5 else f'{c}_v{i}'
        k = R.random()
        room = top - n - 2
        if k < .35 or nxt > room:
            v = R.choice([R.randrange(min(room, 200)), R.randrange(room)])
            if width == 0 and R.random() < .5: v = -v
            f = R.choice(['%d', '0x%x', '0x%X', '0X%x'])
            a = abs(v)
            s = ('-' if v < 0 else '') + f % a
            if width == 64 and v >= 1 << 63: s += 'ull'
            items.append(f'{nm} = {s}' if R.random() < .8 else f'{nm}={s}')
            nxt = v + 1
        else:
            items.append(nm)
            nxt += 1
    o.append(f'REFLECTOR_CREATE({c}, ENUM, ' + (f'2, CLASS, {width}' if cls and width else '1, CLASS' if cls else f'1, {width}') + f', {chunk(items)})')
    nms = [i.split('=')[0].strip() for i in items]
    o.append(f'template <> inline const EnumModel &enumModel<{c}>() {{ static EnumModel m{{"{c}", sizeof({c}), {{' + chunk([f'{{"{x}", (uint64_t){c}::{x}}}' for x in nms]) + '}}; return m; }')
    en.append(c)
o.append('#define ALL_GEN_ENUMS(X) ' + ' '.join(f'X({c})' for c in en))
open('harness/gen_reflcls.hpp', 'w').write('\n'.join(o) + '\n')
