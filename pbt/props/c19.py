"""C19: DWARF decoding and attribution of symbols to units."""

RULE = """
Random compilation units of DWARF 2 to 5 (32 and 64 bit offsets, both byte orders, 32 and 64 bit addresses) with
random entries in all forms, written by our own encoder, plus programs compiled by gcc with all versions; entries
compared with what was encoded, symbols with the unit that describes them. Non-trivial: at least one symbol described
and one not, or three entries or more.
"""

import re
import shutil
import subprocess

from .. import cli, render
from ..core import check, same
from ..dwarfgen import AT, Encoder, gen_dwarf, walk
from ..gen import composite

SRC = ['/src/main/main.c', '/src/main/sub/x.c', 'relative.c', '/src/mainx/y.c', '/src/ünï/z.c', '<artificial>']
STT = {'OBJECT': 1, 'FUNC': 2, 'NOTYPE': 0, 'TLS': 6}


@composite
def gen(d):
    if d.chance(2):
        return {
            'gcc': True, 'm': d.pick(['-m32', '-m64']), 'dw': d.pick(['2', '3', '4', '5']), 'lto': d.chance(50), 'dw64': d.chance(20),
            'opt': d.pick(['-O0', '-O2', '-Og']), 'split': d.chance(50),
            'files': [[[d.pick(['f', 'v', 's', 'l', 'i']), d.int(1, 50)] for _ in range(d.int(1, 4))] for _ in range(d.int(1, 3))],
        }  # fmt: skip
    cls = d.pick([32, 32, 64])
    syms = []
    plan = []
    addr = 0x1000
    for i in range(d.int(0, 7)):
        addr += d.pick([4, 8, 0x100, 1])
        kind = d.pick(['FUNC', 'OBJECT'])
        typ = kind if not d.chance(8) else d.pick(['NOTYPE', 'TLS'])
        size = d.int(1, 16) if not d.chance(6) else 0
        shndx = 1 if not d.chance(8) else 0xFFF1
        syms.append([f'sym{i}', addr, size, STT[typ], d.int(0, 2), 0, shndx])
        if d.chance(70):
            plan.append([addr, kind])
        if d.chance(5):
            syms.append([f'alias{i}', addr, size, STT[kind], 1, 0, 1])
    for _ in range(d.weighted((4, 0), (1, 2))):
        plan.append([0x800000 + d.int(0, 1000) * 4, d.pick(['FUNC', 'OBJECT'])])  # described but not in the symbol table
    seen = set()
    plan = [p for p in plan if not (p[0] in seen or seen.add(p[0]))]
    dwarf, attr = gen_dwarf(d, cls, plan, SRC, noise=6)
    return {
        'cls': cls,
        'end': d.pick('<<>'),
        'syms': d.shuffle(syms),
        'dwarf': dwarf,
        'attr': sorted([a, s] for a, s in attr.items()),
        'first': d.pick(['entries', 'symbols', 'filtered', 'abbrev']),
        'no_str': d.chance(3),
    }


def strategy(tier):
    return gen()


def judge(case):
    d = cli.fresh_dir()
    if case.get('gcc'):
        return judge_gcc(case, d)
    from esp_idf_size.elf import Elf

    enc = Encoder(case['dwarf'], case['cls'], case['end'])
    fn = d + '/x.elf'
    render.write(fn, render.elf_bytes({'cls': case['cls'], 'end': case['end'], 'secs': [['.text', 1, 6, 0x1000, 64]], 'syms': case['syms']},
                                      enc.sections()))  # fmt: skip
    elf = Elf(fn)
    cus = elf.CUs
    same(len(cus), len(enc.expected), 'number of units')
    if case['first'] == 'symbols':
        symbols(elf, case)
    elif case['first'] == 'filtered':
        for cu in cus:
            cu.get_DIEs([0x34])
    elif case['first'] == 'abbrev':
        for cu in cus:
            check(cu.abbrev_table, 'no abbreviations')
    for cu, at, exp, unit in zip(cus, enc.unit_at, enc.expected, case['dwarf']['units']):
        same((cu.offset, cu.version, cu.address_size), (at, unit['version'], case['cls'] // 8), 'unit header')
        dies = {o: x for o, x in cu.DIEs.items() if x['tag']}
        same(list(dies), list(exp), 'offsets of the entries')
        for o, e in exp.items():
            got = dies[o]
            same(
                {k: got[k] for k in ('tag', 'parent', 'level', 'offset', 'size')},
                {k: e[k] for k in ('tag', 'parent', 'level', 'offset', 'size')},
                f'entry at {o:#x}',
            )
            same(
                {a: {k: x[k] for k in ('form', 'value', 'offset', 'size')} for a, x in got['attrs'].items()}, e['attrs'],
                f'attributes of the entry at {o:#x}',
            )  # fmt: skip
        texts(cu, dies, unit, enc)
    symbols(elf, case)
    for cu in cus:
        cu.get_DIEs([0x2E])
    symbols(elf, case)
    return ['DWARF %d' % u['version'] for u in case['dwarf']['units']]


def texts(cu, dies, unit, enc):
    """Strings and locations."""
    for die in walk(unit['die']):
        got = dies[enc.where[die['id']]]
        for a, f, v in die['attrs']:
            x = got['attrs'][AT[a]]
            for _ in range(2):  # the result is remembered
                if f in ('string', 'strp', 'line_strp'):
                    same(cu.get_attr_eval(x), v, f'string in form {f}')
                    same(cu.get_attr_str(x), v, f'text of form {f}')
                elif f == 'exprloc':
                    same(cu.get_attr_eval(x), v[1] if v[0] == 'addr' else None, 'address of a location')


def symbols(elf, case):
    want = dict(map(tuple, case['attr']))
    got = elf.add_cus_to_symbols()
    table = {}
    for name, value, size, typ, _bind, _vis, shndx in case['syms']:
        if size and typ in (1, 2) and shndx != 0xFFF1:
            table.setdefault(value, []).append((name, size))
    same(sorted(got), sorted(table), 'addresses of symbols')
    for a, sym in got.items():
        check((sym.name, sym.st_size) in table[a], 'symbol at its address', repr((a, sym.name)))
        same(sym.cu_name, want.get(a), f'unit of the symbol {sym.name} at {a:#x}')


# ---------------------------------------------------------------- gcc


def judge_gcc(case, d):
    if not shutil.which('gcc') or not shutil.which('readelf'):
        return ['no gcc']
    from esp_idf_size.elf import Elf

    want = {}
    names = []
    for i, items in enumerate(case['files']):
        src = [f'extern int sink; int sink{i};']
        for j, (k, n) in enumerate(items):
            x = f'{i}_{j}'
            fn = f'{d}/s{i}/file{i}.c'
            if k == 'f':
                src.append(f'__attribute__((used, noinline)) int f{x}(int a) {{ return a * {n + 2} + sink{i}; }}')
                want[f'f{x}'] = fn
            elif k == 'v':
                src.append(f'__attribute__((used)) int v{x}[{n}] = {{1}};')
                want[f'v{x}'] = fn
            elif k == 's':
                src.append(f'static __attribute__((used)) int s{x}[{n}]; __attribute__((used, noinline)) int *g{x}(int k) {{ s{x}[0] += k; return s{x}; }}')
                want[f's{x}'] = want[f'g{x}'] = fn
            elif k == 'l':
                src.append(f'__attribute__((used)) int l{x}(int k) {{ static int c{x}; c{x} += k; return c{x}; }}')
                want[f'l{x}'] = fn
            else:
                src.append(f'static inline int i{x}(int k) {{ return k + {n}; }} __attribute__((used)) int h{x}(int k) {{ return i{x}(k) * i{x}(k + 1); }}')
                want[f'h{x}'] = fn
        render.write(f'{d}/s{i}/file{i}.c', '\n'.join(src) + '\n')
        names.append(f'{d}/s{i}/file{i}.c')
    flags = [case['m'], '-gdwarf-' + case['dw'], case['opt'], '-nostdlib', '-ffreestanding', '-Wl,-e0', '-no-pie', '-fno-pie', '-fno-ipa-icf']
    if case['dw64']:
        flags.append('-gdwarf64')
    if case['split']:
        flags += ['-ffunction-sections', '-fdata-sections']
    if case['lto']:
        flags += ['-flto']
    out = d + '/x.elf'
    p = subprocess.run(['gcc', *flags, '-o', out, *names], capture_output=True, text=True, cwd=d)
    if p.returncode:
        return ['gcc failed']
    elf = Elf(out)
    offsets = []
    text = subprocess.run(['readelf', '--debug-dump=info', '-W', out], capture_output=True, text=True).stdout
    for m in re.finditer(r'^ <([0-9a-f]+)><([0-9a-f]+)>: Abbrev Number: (\d+)', text, re.M):
        if int(m[3]):
            offsets.append((int(m[2], 16), int(m[1], 16)))
    got = [(o, x['level']) for cu in elf.CUs for o, x in cu.DIEs.items() if x['tag']]
    same(got, offsets, 'entries of a program compiled by gcc')
    n = 0
    for s in elf.add_cus_to_symbols().values():
        base = s.name.split('.')[0]
        if base in want:
            n += 1
            same(s.cu_name, want[base], f'unit of {s.name} (gcc {flags})')
    return ['gcc DWARF ' + case['dw'] + (' lto' if case['lto'] else ''), 'gcc symbols' if n else 'no gcc symbols']


def nontrivial(case):
    if case.get('gcc'):
        return True
    a = {x[0] for x in case['attr']}
    s = {x[1] for x in case['syms']}
    return bool(a & s and s - a) or sum(1 for u in case['dwarf']['units'] for _ in walk(u['die'])) > 2

