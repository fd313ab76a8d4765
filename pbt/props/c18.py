"""C18: ELF section headers and symbol tables."""

RULE = """
Random section headers and symbol tables written by our own ELF encoder (32/64 bit, both byte orders, static and
dynamic tables, header table first or last), or compiled by gcc and listed by readelf; decoded again and compared field
by field. A part of the cases is cut short or gets a wrong magic, class or byte order. Non-trivial: two or more
symbols, or a damaged file.
"""

import os
import re
import shutil
import subprocess

from .. import cli, render
from ..core import check, fail, same
from ..gen import composite, wild

NAMES = ['.text', '.data', '.bss', '.rodata', '.symtab', '.strtab', '.shstrtab', '.dynsym', '.dynstr', '.debug_info', '', '.x', '.note.gnu', '.text.' + 'n' * 300]
SYMS = ['main', 'x', '', '_ZN3fooC1Ev', 'a.1', 'ünïcode', '$d', 'very_long_symbol_name_' * 5, 'main', 'file.c',
        '_ZNSt' + '6vector' * 40, '_ZN' + '3abc' * 1100 + 'Ev']
KEYS = ['name', 'sh_name', 'sh_type', 'sh_flags', 'sh_addr', 'sh_offset', 'sh_size', 'sh_link', 'sh_info', 'sh_addralign', 'sh_entsize']


def word(d, bits):
    k = d.int(0, 5)
    if k == 0:
        return d.pick([0, 1, 0x7F, 0x80, 0xFF, 0x100, 1 << (bits - 1), (1 << bits) - 1])
    if k == 1:
        return d.int(0, (1 << bits) - 1)
    return d.int(0, 0xFFFF) << d.pick([0, 2, 8, 12, 14]) & (1 << bits) - 1


def gen_syms(d, cls, nsec):
    res = []
    for _ in range(d.weighted((1, 0), (3, d.int(1, 4)), (3, d.int(1, 20)))):
        name = d.pick(SYMS) if not d.chance(20) else wild(d)
        res.append(
            [name, word(d, cls), word(d, cls), d.pick([0, 1, 2, 2, 1, 3, 4, 6, 10, 13]), d.pick([0, 1, 2, 10]),
             d.weighted((3, d.int(0, 3)), (1, d.int(0, 255))), d.weighted((4, d.int(0, nsec)), (1, 0xFFF1), (1, 0xFFF2), (1, 0))]
        )  # fmt: skip
    if res and d.chance(1, 200):
        # a long table
        res = [[f'{s[0]}{k}', *s[1:]] for k in range(d.int(1, 2500) // len(res)) for s in res]
    return res


@composite
def gen(d):
    if d.chance(3):
        return {'gcc': True, 'm': d.pick(['-m32', '-m64']), 'link': d.chance(50),
                'items': [[d.pick(['f', 'v', 'z', 'c', 's', 'w']), d.int(1, 600), d.chance(30)] for _ in range(d.int(1, 8))]}  # fmt: skip
    cls = d.pick([32, 64])
    secs = []
    for _ in range(d.weighted((1, 0), (6, d.int(1, 8)))):
        typ = d.weighted((5, 1), (2, 8), (1, 7), (1, 14), (1, 3), (1, 0x70000003))
        secs.append([d.pick(NAMES) if not d.chance(20) else '.' + wild(d), typ, word(d, cls), word(d, cls), d.int(0, 300),
                     word(d, 32), word(d, 32), word(d, cls)])  # fmt: skip
    tables = []
    for kind in d.weighted((6, ['.symtab']), (2, ['.symtab', '.dynsym']), (1, ['.dynsym']), (1, []), (1, ['.dynsym', '.symtab'])):
        tables.append([kind, gen_syms(d, cls, len(secs)), d.chance(30)])
    return {
        'cls': cls,
        'end': d.pick('<>'),
        'secs': secs,
        'tables': tables,
        'shstr_last': d.chance(60),
        'hdr_first': d.chance(30),
        'phdrs': d.weighted((3, 0), (1, d.int(1, 4))),
        'pad': d.weighted((3, 0), (1, d.int(1, 16))),
        'bare': d.chance(1),
        'damage': d.weighted((6, None), (2, ['cut', d.int(0, 10**6)]), (1, ['magic', d.int(0, 3), d.int(0, 255)]),
                             (1, ['class', d.int(0, 255)]), (1, ['order', d.int(0, 255)]), (1, ['empty', 0])),
        'order': d.pick(['shdrs', 'symbols', 'names last']),
    }  # fmt: skip


def strategy(tier):
    return gen()


def encode(case):
    """-> bytes, headers as encoded, symbols as encoded, [(start, end)] of the content that matters"""
    secs = []
    for name, typ, flags, addr, size, info, align, entsize in case['secs']:
        s = {'name': name, 'type': typ, 'flags': flags, 'addr': addr, 'size': size, 'info': info, 'align': align, 'entsize': entsize}
        if typ != 8:
            s['data'] = bytes((i * 7 + len(secs)) & 0xFF for i in range(size))
        secs.append(s)
    want = []
    for kind, syms, before in case['tables']:
        rows = [render.NULL_SYM] + syms
        data, strtab = render.symtab_data(case['cls'], case['end'], rows)
        tab = {'name': kind, 'type': 2 if kind == '.symtab' else 11, 'data': data, 'entsize': 16 if case['cls'] == 32 else 24}
        strs = {'name': '.strtab' if kind == '.symtab' else '.dynstr', 'type': 3, 'data': strtab}
        if before:
            secs += [strs, tab]
            tab['link'] = len(secs) - 1
        else:
            secs += [tab, strs]
            tab['link'] = len(secs)
        want += rows
    data, hdrs = render.build_elf(case['cls'], case['end'], secs, shstr_last=case['shstr_last'], phdrs=case['phdrs'],
                                  hdr_first=case['hdr_first'], pad=case['pad'])  # fmt: skip
    if case['bare']:
        # Only the file header.
        import struct

        f = case['end'] + ('16s2H5L6H' if case['cls'] == 32 else '16s2HL3QL6H')
        h = list(struct.unpack_from(f, data))
        h[5] = h[6] = h[10] = h[12] = h[13] = 0
        return struct.pack(f, *h), [], []
    return data, hdrs, want


def decode(fn, order='shdrs'):
    from esp_idf_size.elf import Elf

    elf = Elf(fn)
    res = {}
    if order == 'symbols':
        res['syms'] = symbols(elf)
    if order == 'names last':
        [s.st_value for s in elf.symbols]
    res['shdrs'] = [{k: getattr(s, k) for k in KEYS} for s in elf.shdrs]
    res['data'] = [bytes(s.data) if s.sh_type != 8 and s.sh_size else b'' for s in elf.shdrs]
    res['syms'] = symbols(elf)
    return elf, res


def symbols(elf):
    return [[s.name, s.st_value, s.st_size, s.type, s.bind, s.visibility, s.st_shndx] for s in elf.symbols]


def judge(case):
    from esp_idf_size.elf import Elf_Exception

    d = cli.fresh_dir()
    if case.get('gcc'):
        return judge_gcc(case, d)
    data, hdrs, want = encode(case)
    fn = d + '/x.elf'
    dmg = case['damage']
    bad = data
    if dmg:
        if dmg[0] == 'cut':
            bad = data[: dmg[1] % len(data)]
        elif dmg[0] == 'empty':
            bad = b''
        elif dmg[0] == 'magic':
            bad = data[: dmg[1]] + bytes([dmg[2]]) + data[dmg[1] + 1 :]
        elif dmg[0] == 'class':
            bad = data[:4] + bytes([dmg[1] if dmg[1] not in (1, 2) else 3]) + data[5:]
        elif dmg[0] == 'order':
            bad = data[:5] + bytes([dmg[1] if dmg[1] not in (1, 2) else 0]) + data[6:]
    if bad != data:
        render.write(fn, bad)
        try:
            elf, res = decode(fn)
        except Elf_Exception:
            return ['rejected ' + dmg[0]]
        if dmg[0] != 'cut':
            fail(f'a file with a wrong {dmg[0]} is accepted')
        # Cut within padding, or nothing is left that could be missed: all content must still be right.
        if not elf.shdrs:
            check(case['bare'], 'a file cut short is read as one without sections')
            return ['cut']
        compare(elf, res, hdrs, want, data)
        return ['cut in padding']
    render.write(fn, data)
    elf, res = decode(fn, case['order'])
    compare(elf, res, hdrs, want, data)
    for name in {h['name'] for h in hdrs} | {'.no such section'}:
        s = elf.lookup_shdr(name)
        first = next((i for i, h in enumerate(hdrs) if h['name'] == name), None)
        if first is None:
            check(s is None, 'a section found that does not exist', name)
        else:
            check(s is elf.shdrs[first], f'lookup of section {name!r}')
    return ['ELF%d%s' % (case['cls'], case['end'])]


def compare(elf, res, hdrs, want, data):
    same(res['shdrs'], [{k: h[k] for k in KEYS} for h in hdrs], 'section headers')
    same(res['syms'], [[*s[:5], s[5] & 3, s[6]] for s in want], 'symbols')
    same([getattr(x, 'st_other', s[5]) for x, s in zip(elf.symbols, want)], [s[5] for s in want], 'st_other of the symbols')
    for h, x in zip(hdrs, res['data']):
        if h['sh_type'] != 8:
            same(x, data[h['sh_offset'] : h['sh_offset'] + h['sh_size']] if h['sh_size'] else b'', 'content of section ' + h['name'])


# ---------------------------------------------------------------- gcc as the encoder, readelf as the reference

TYPES = {'NOTYPE': 0, 'OBJECT': 1, 'FUNC': 2, 'SECTION': 3, 'FILE': 4, 'COMMON': 5, 'TLS': 6}
BINDS = {'LOCAL': 0, 'GLOBAL': 1, 'WEAK': 2}
VIS = {'DEFAULT': 0, 'INTERNAL': 1, 'HIDDEN': 2, 'PROTECTED': 3}


def judge_gcc(case, d):
    if not shutil.which('gcc') or not shutil.which('readelf'):
        return ['no gcc']
    src = []
    for i, (k, n, hidden) in enumerate(case['items']):
        a = '__attribute__((visibility("hidden"))) ' if hidden else ''
        src.append(
            {
                'f': f'{a}int f{i}(int x) {{ return x * {n}; }}',
                'v': f'{a}char v{i}[{n}] = {{1}};',
                'z': f'{a}char z{i}[{n}];',
                'c': f'extern const char c{i}[{n}]; {a}const char c{i}[{n}] = {{2}};',
                's': f'static char s{i}[{n}]; char *p{i}(void) {{ return s{i}; }}',
                'w': f'__attribute__((weak)) {a}int w{i}(void) {{ return {n}; }}',
            }[k]
        )
    fn = d + '/x.elf'
    render.write(d + '/x.c', '\n'.join(src) + '\n')
    flags = ['-shared', '-fPIC', '-nostdlib'] if case['link'] else ['-c']
    p = subprocess.run(['gcc', case['m'], *flags, '-o', fn, d + '/x.c'], capture_output=True, cwd=d)
    if p.returncode:
        return ['gcc failed']
    _, res = decode(fn)
    out = subprocess.run(['readelf', '-SsW', fn], capture_output=True, text=True, check=True).stdout
    want_secs, want_syms = [], []
    for ln in out.split('\n'):
        m = re.fullmatch(r' *\[ *\d+\] (\S*) +([A-Z_]+) +([0-9a-f]+) ([0-9a-f]+) ([0-9a-f]+) ([0-9a-f]+) +([A-Zpolx]*) +(\d+) +(\d+) +(\d+)', ln)
        if m:
            want_secs.append([m[1], *(int(x, 16) for x in m.groups()[2:5])])
        m = re.fullmatch(r' *\d+: ([0-9a-f]+) +(\d+|0x[0-9a-f]+) (\w+) +(\w+) +(\w+) +(\w+)(?: (.*))?', ln)
        if m:
            ndx = {'UND': 0, 'ABS': 0xFFF1, 'COM': 0xFFF2}.get(m[6])
            typ = TYPES[m[3]]
            name = m[7] or ''
            want_syms.append([name if typ != 3 else '', int(m[1], 16), int(m[2], 0), typ, BINDS[m[4]], VIS[m[5]], int(m[6]) if ndx is None else ndx])
    got = [s[:] for s in res['syms']]
    for s in got:
        if s[3] == 3:
            s[0] = ''
    same([[h['name'], h['sh_addr'], h['sh_offset'], h['sh_size']] for h in res['shdrs']], want_secs, 'section headers of an object made by gcc')
    # readelf lists the dynamic table first whatever the order in the file; the tables appear in section order in both
    same(got, want_syms, 'symbols of an object made by gcc')
    os.unlink(fn)
    return ['gcc ' + case['m']]


def nontrivial(case):
    return bool(case.get('gcc') or case['damage'] or sum(len(t[1]) for t in case['tables']) > 1)
