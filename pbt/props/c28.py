"""C28: damaged ELF file and debugging information."""

RULE = """
Random LTO projects whose ELF file (headers, section table, string and symbol tables, DWARF sections) is damaged by
edits of bytes, numbers and single fields (of section headers, symbols, unit headers, attribute values), circular
references, deletions, insertions and truncation; several reports and the library call on each. Only
clean endings within bounded time are allowed; damage in debugging sections must not show where they are not used, and
an ELF file or debugging information that was given up must leave the report without it. Non-trivial: the file differs.
"""

import os
import struct

from .. import cli, render
from ..core import same
from ..dwarfgen import Encoder, walk
from ..gen import composite
from . import c17, c20

VALUES = [0, 1, 2, 3, 4, 5, 7, 8, 0x10, 0x1F, 0x2E, 0x34, 0x40, 0x7F, 0x80, 0x81, 0xC0, 0xFE, 0xFF]
WORDS = [0, 1, 2, 0x7F, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0, 0xFFFFFFFF, 8, 0x100]
AREAS = ['ehdr', 'shdrs', '.shstrtab', '.symtab', '.strtab', '.debug_info', '.debug_abbrev', '.debug_str', '.debug_line_str', 'any']

HEADERS = ['.symtab', '.strtab', '.shstrtab', '.debug_info', '.debug_abbrev', '.debug_str', 'any']

_nontrivial = False


def rewire(d, dwarf):
    """Make references go in circles or to entries of the wrong kind."""
    dies = [x for u in dwarf['units'] for x in walk(u['die'])]
    able = [x for x in dies if x['tag'] in ('subprogram', 'variable', 'compile_unit')]
    chosen = d.sublist(able, 1, 4)
    for k, x in enumerate(chosen):
        to = d.weighted((3, x), (3, chosen[(k + 1) % len(chosen)]), (2, d.pick(dies)))
        x['attrs'] = [a for a in x['attrs'] if a[0] != 'abstract_origin'] + [['abstract_origin', 'ref_addr', to['id']]]


@composite
def gen(d):
    base = c20.gen()(d)
    base['missing'] = None
    debug_only = d.chance(45)
    edits = []
    rewired = bool(base['dwarf'] and debug_only and d.chance(20))
    if rewired:
        rewire(d, base['dwarf'])
    for _ in range(d.weighted((5, 1), (3, 2), (2, 4), (1, 10)) if not rewired or d.chance(40) else 0):
        if d.chance(35):
            # a field of a known structure
            edits.append([
                d.pick(['.debug#attr', '.debug#unit']) if debug_only else d.pick(['#shdr', '#shdr', '#sym', '.debug#attr', '.debug#unit']),
                d.int(0, 1 << 16), d.pick(HEADERS), d.int(0, 255), d.pick(WORDS),
            ])  # fmt: skip
            continue
        edits.append([
            d.pick(AREAS[5:9]) if debug_only else d.pick(AREAS),
            d.int(0, 1 << 16),
            d.weighted((6, 'byte'), (4, 'word'), (2, 'flip'), (1, 'half'), (1, 'delete'), (1, 'insert'), (1, 'fill')) if not debug_only
            else d.weighted((6, 'byte'), (3, 'word'), (3, 'flip'), (1, 'fill')),
            d.pick(VALUES) if d.chance(70) else d.int(0, 255),
            d.pick(WORDS),
        ])  # fmt: skip
    return {
        'base': base,
        'edits': edits,
        'rewired': rewired,
        'cut': d.int(0, 1 << 16) if not debug_only and d.chance(15) else None,
        'views': [c17.view(d) for _ in range(2)],
    }


def strategy(tier):
    return gen()


def sections(data, cls, end):
    """{name: (offset, size)} of an intact ELF file, and the place of the section table."""
    e = end
    if cls == 32:
        shoff, = struct.unpack_from(e + 'I', data, 32)
        _size, n, strndx = struct.unpack_from(e + '3H', data, 46)
        fmt, step, pick = e + '10I', 40, (0, 4, 5)
    else:
        shoff, = struct.unpack_from(e + 'Q', data, 40)
        _size, n, strndx = struct.unpack_from(e + '3H', data, 58)
        fmt, step, pick = e + '2I4Q2I2Q', 64, (0, 4, 5)
    hdrs = [struct.unpack_from(fmt, data, shoff + i * step) for i in range(n)]
    rows = [(h[pick[0]], h[pick[1]], h[pick[2]], h[1]) for h in hdrs]
    stro = rows[strndx][1]
    res = {'ehdr': (0, 52 if cls == 32 else 64), 'shdrs': (shoff, n * step), 'any': (0, len(data))}
    for name, off, size, typ in rows:
        if typ not in (0, 8) and size:
            res[data[stro + name : data.index(b'\0', stro + name)].decode()] = (off, size)
    return res


def put(buf, end, at, n, how, word, special):
    """Overwrite the number of n bytes at the place."""
    if at + n > len(buf) or not n:
        return
    order = 'little' if end == '<' else 'big'
    old = int.from_bytes(buf[at : at + n], order)
    values = [0, 1, old - 1, old + 1, 2 * old, old // 2, word, word, (1 << 8 * n) - 1, len(buf), *special]
    buf[at : at + n] = (values[how % len(values)] & (1 << 8 * n) - 1).to_bytes(n, order)


def edit_field(buf, case, places, area, pos, name, byte, word):
    elf = case['base']['fw']['elf']
    cls, end = elf['cls'], elf['end']
    if area == '#shdr':
        fmt = '10I' if cls == 32 else '2I4Q2I2Q'
        off, size = places['shdrs']
        step = struct.calcsize('<' + fmt)
        n = size // step
        want = places.get(name, (None,))[0]
        at = off + pos % n * step
        for i in range(n):
            h = struct.unpack_from(end + fmt, buf, off + i * step) if off + (i + 1) * step <= len(buf) else None
            if h and h[4] == want and h[1] not in (0, 8):
                at = off + i * step
        sizes = [4] * 10 if cls == 32 else [4, 4, 8, 8, 8, 8, 4, 4, 8, 8]
        f = pos // n % 10
        put(buf, end, at + sum(sizes[:f]), sizes[f], byte, word, [n, n - 1, step])
    elif area == '#sym':
        off, size = places.get('.symtab', (0, 0))
        sizes = [4, 4, 4, 1, 1, 2] if cls == 32 else [4, 1, 1, 2, 8, 8]
        n = size // sum(sizes)
        if n:
            f = pos // n % 6
            put(buf, end, off + pos % n * sum(sizes) + sum(sizes[:f]), sizes[f], byte, word, [0xFFF1, 0xFF00, 2, 16])
    elif case['base']['dwarf'] and '.debug_info' in places:
        enc = Encoder(case['base']['dwarf'], cls, end)
        off = places['.debug_info'][0]
        if area == '.debug#unit':
            k = pos % len(enc.unit_at)
            u, at = enc.units[k], enc.unit_at[k]
            wide = 8 if u['fmt'] == 64 else 4
            lens = [4] if wide == 4 else [4, 8]
            lens += [2, 1, 1, wide] if u['version'] == 5 else [2, wide, 1]
            f = pos // 7 % len(lens)
            put(buf, end, off + at + sum(lens[:f]), lens[f], byte, word, [2, 3, 4, 5, 6, 0xFFFF])
        else:
            found = [(k, o, a) for k, exp in enumerate(enc.expected) for o, x in exp.items() for a in x['attrs'].values() if a['size']]
            if found:
                k, o, a = found[pos % len(found)]
                at = enc.unit_at[k]
                put(buf, end, off + a['offset'], min(a['size'], 16), byte, word, [o - at, o, enc.unit_at[0], at, o - at + 1])


def damage(case, data):
    elf = case['base']['fw']['elf']
    places = sections(data, elf['cls'], elf['end'])
    buf = bytearray(data)
    for area, pos, op, byte, word in case['edits']:
        if '#' in area:
            edit_field(buf, case, places, area, pos, op, byte, word)
            continue
        if area not in places:
            continue
        off, size = places[area]
        p = off + pos % size
        if p >= len(buf):
            continue
        if op == 'byte':
            buf[p] = byte
        elif op == 'flip':
            buf[p] ^= 1 << byte % 8
        elif op in ('word', 'half'):
            n = 4 if op == 'word' else 2
            p = off + pos % size // n * n
            if p + n <= min(off + size, len(buf)):
                buf[p : p + n] = (word & (1 << 8 * n) - 1).to_bytes(n, 'little' if byte % 2 else 'big')
        elif op == 'fill':
            n = min(byte, off + size - p)
            buf[p : p + n] = bytes([byte]) * n
        elif op == 'delete':
            del buf[p : p + 1 + byte % 9]
        elif op == 'insert':
            buf[p:p] = bytes([byte] * (1 + byte % 9))
        if not buf:
            break
    if case['cut'] is not None:
        del buf[case['cut'] % (len(buf) + 1) :]
    return bytes(buf)


def judge(case):
    global _nontrivial
    d = cli.fresh_dir() + '/p'
    fn = c20.write(case['base'], d)
    path = d + '/app.elf'
    with open(path, 'rb') as f:
        intact = f.read()
    data = damage(case, intact)
    _nontrivial = data != intact or case.get('rewired', False)
    debug_only = case['cut'] is None and all(e[0].startswith('.debug') and e[2] not in ('delete', 'insert') for e in case['edits'])
    views = [[fn if a == 'self' else a for a in v] for v in case['views']]
    labels = ['debugging information' if debug_only else 'ELF file']
    if case.get('rewired'):
        labels.append('circular references')
    want = {}
    if debug_only:
        for v in views:
            plain = [a for a in v if a != '--lto'] + ['--no-lto']
            r = c17.outcome(fn, plain)
            want[tuple(plain)] = (r.code, r.out)
    render.write(path, data)
    without = []
    for v in views:
        r = c17.outcome(fn, v)
        labels.append('report' if r.code in (0, None) else 'error')
        plain = [a for a in v if a != '--lto'] + ['--no-lto']
        if debug_only:
            x = c17.outcome(fn, plain)
            same((x.code, x.out), want[tuple(plain)], 'report without LTO in spite of damage in debugging information only')
        if 'ignoring DWARF' in r.err and r.code in (0, None):
            labels.append('debugging information given up')
            x = c17.outcome(fn, plain)
            same((r.code, r.out), (x.code, x.out), 'report after giving up the debugging information and with --no-lto', r.err)
        if 'cannot parse ELF file' in r.err and r.code in (0, None):
            without.append((v, r))
    result = c17.library(fn)
    labels.append('library result' if result is not None else 'library exception')
    c17.library(fn, load_symbols=False, use_dwarf=True)
    if without:
        labels.append('ELF file given up')
        os.unlink(path)
        for v, r in without:
            x = c17.outcome(fn, v)
            same((r.code, r.out), (x.code, x.out), 'report after giving up the ELF file and without one', r.err)
    return labels


def nontrivial(case):
    return _nontrivial
