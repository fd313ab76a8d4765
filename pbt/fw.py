"""Generated firmware: memory regions, sections, padding, symbols, ELF headers, cross references.

A firmware is plain JSON data:

chip, w (hex digits of an address), regions [[name, origin, length, attrs]], osecs, crt, elf, opts

osec: {name, addr, size, load, blank, bare, e: [entries]}
entry: ['i', name, addr, size, archive, object, relaxed]   input section
       ['f', addr, size, pattern]                           *fill*
       ['d', addr, size, keyword, value, expression]        BYTE and friends
       ['n', text]                                          other lines
"""

import copy

from . import chips
from .gen import (
    ARCHIVES,
    EXE_OBJECTS,
    ISECS,
    OBJECTS,
    OSECS,
    OSECS_DEBUG,
    OSECS_OTHER,
    SYMS,
)

EXE = '(exe)'
EXT_PREFIX = ('.ext_ram.bss', '.ext_ram_noinit')  # sections for external RAM
ATTRS = ['', 'r', 'w', 'xr', 'rw', 'xrw', 'ax!rw']
DATA = {'BYTE': 1, 'SHORT': 2, 'LONG': 4, 'QUAD': 8, 'SQUAD': 8}
NOISE = [
    '*(.text .text.*)',
    '*(EXCLUDE_FILE(*libgcov.a) .iram1 .iram1.*)',
    '@                _start = ABSOLUTE (.)',
    '@                . = ALIGN (0x4)',
    '@                some_symbol',
    '@                MY_BYTE_TABLE = .',
    '@                PROVIDE (LONG_x = 0x4)',
    '[!provide]                        PROVIDE (x = y)',
    '*(COMMON)',
    '0x1                ASSERT (((_a - _b) <= 0x10), IRAM0 segment data does not fit.)',
]


# ---------------------------------------------------------------- memory regions


def pieces(chip, regions):
    """Typed pieces of the regions: [(type, start, length, window start)], in region order."""
    res = []
    for name, origin, length, _ in regions:
        if name == '*default*':
            continue
        pos, left = origin, length
        while left > 0:
            w = chips.window_at(chip, pos)
            if w is None:
                break
            tname, start, wlen = w
            n = min(left, start + wlen - pos)
            res.append((tname, pos, n, start))
            pos += n
            left -= n
    return res


def canonical(piece):
    tname, start, length, wstart = piece
    return (tname, start - wstart, length)


def covered(chip, regions):
    return any(n for _, _, n, _ in pieces(chip, regions))


def gen_regions(d, chip, hi=5, free_zero=False, unknown=True, small=40):
    wins = chips.windows(chip)
    regs = []
    names = ['iram0_0_seg', 'dram0_0_seg', 'iram0_2_seg', 'drom0_0_seg', 'rtc_iram_seg', 'extern_ram_seg', 'seg_g']
    if d.chance(1):
        hi = d.int(26, 40)  # many regions
        names = [f'seg_{i:02}' for i in range(hi)]
    for i in range(d.int(1, hi)):
        name = names[i]
        if d.chance(4):
            name = 'r%d_seg_reserved' % i
        ps = pieces(chip, regs)
        kind = d.weighted(
            (8, 'fresh'),
            (4, 'next'),
            (4, 'span'),
            (3, 'alias'),
            (2, 'zero'),
            (1 if unknown else 0, 'unknown'),
            (2, 'part'),
        )
        if kind in ('next', 'alias', 'zero', 'part') and not ps:
            kind = 'fresh'
        if kind == 'fresh':
            t, start, wlen = d.pick(wins)
            off = d.weighted((4, 0), (2, 0x20), (2, d.int(0, wlen - 1)), (1, max(0, wlen - d.int(1, 64))))
            rest = wlen - off
            length = d.weighted(
                (small // 10, min(rest, d.int(1, 300))), (3, rest), (2, d.int(1, rest)), (2, min(rest, d.size()))
            )
            cand = [name, start + off, length, d.pick(ATTRS)]
        elif kind == 'next':
            p = d.pick(ps)
            cand = [name, p[1] + p[2] + d.weighted((3, 0), (1, d.int(1, 64))), d.int(1, 400), d.pick(ATTRS)]
        elif kind == 'span':
            t, start, wlen = d.pick(wins)
            before = min(wlen, d.int(1, 100))
            after = d.weighted((4, d.int(1, 200)), (1, 0x2100), (1, 0x4000 + 0x60000))
            cand = [name, start + wlen - before, before + after, d.pick(ATTRS)]
        elif kind in ('alias', 'part'):
            src = d.pick([r for r in regs if pieces(chip, [r])])
            cand = [name, src[1], src[2], d.pick(ATTRS)]
            p = pieces(chip, [src])
            if len(p) == 1 and d.chance(70):
                # the same memory through the other window of the type
                for tname, prim, wlen, sec in chips.CHIPS[chip]:
                    if tname == p[0][0] and sec:
                        other = sec if p[0][3] == prim else prim
                        cand[1] = other + (src[1] - p[0][3])
            if kind == 'part':
                # overlapping in part
                shift = d.int(-100, min(src[2], 1000))
                cand[1] = max(0, cand[1] + shift)
                cand[2] = max(1, cand[2] + d.weighted((1, 0), (1, -shift), (2, d.int(-100, 100))))
        elif kind == 'zero':
            p = d.pick(ps)
            end = p[1] + p[2]
            w = chips.window_at(chip, end)
            addr = p[1] + d.int(0, p[2] - 1)
            if (w is None or w[0] == p[0]) and d.chance(60):
                addr = end
            if free_zero and d.chance(50):
                t, start, wlen = d.pick(wins)
                addr = start + d.int(0, wlen)
            cand = [name, addr, 0, d.pick(ATTRS)]
        else:
            cand = [name, d.pick([0x10000000, 0x0, 0x60000000, 0xFFFF0000]), d.int(0, 0x1000), '']
            if chips.window_at(chip, cand[1]):
                continue
        if cand[1] + cand[2] <= 1 << 32 and all(r[0] != cand[0] for r in regs):
            regs.append(cand)
    if d.chance(60):
        regs.append(['*default*', 0, 0xFFFFFFFF, ''])
    return regs


# ---------------------------------------------------------------- content of a section


def gen_file(d, archives, objects, exe=15):
    if d.chance(exe):
        return EXE, d.pick(EXE_OBJECTS)
    return d.pick(archives), d.pick(objects)


def gen_entries(d, pool, n, odd=True, hole=False):
    """Entries with addresses relative to the section start; returns (entries, size).

    odd: also superseded, outside, zero-size and overlaid input sections.
    """
    archives, objects, isecs = pool
    e = []
    pos = 0
    counted = False  # some input section has been placed

    def isec(size, addr=None):
        a, o = gen_file(d, archives, objects)
        relaxed = d.size() + size if d.chance(5) else 0
        e.append(['i', d.pick(isecs), pos if addr is None else addr, size, a, o, relaxed])

    def noise():
        if d.chance(15):
            e.append(['n', d.pick(NOISE)])

    noise()
    if d.chance(10):
        # data or padding before the first input section
        if d.chance(50):
            e.append(['f', pos, 4, ''])
        else:
            e.append(['d', pos, 4, 'LONG', d.int(0, 255), ''])
        pos += 4
    for _ in range(n):
        k = d.weighted((10, 'isec'), (4, 'fill'), (2, 'data'), (2 if odd else 0, 'odd'))
        if k == 'isec' or not counted and k != 'odd':
            size = d.size()
            isec(size)
            pos += size
            counted = True
        elif k == 'fill':
            size = d.weighted((4, d.int(1, 3)), (2, d.int(1, 64)), (1, d.size()))
            e.append(['f', pos, size, d.weighted((4, ''), (1, 'ff'), (1, 'deadbeef'))])
            pos += size
        elif k == 'data':
            kw = d.pick(sorted(DATA))
            expr = d.weighted((4, ''), (1, '_sidata'), (1, '((_a - _b) / 0x4)'))
            e.append(['d', pos, DATA[kw], kw, d.int(0, 0xFFFF), expr])
            pos += DATA[kw]
        else:
            o = d.weighted((3, 'superseded'), (3, 'zero'), (2, 'outside'), (2, 'overlaid'))
            if o == 'superseded':
                for _ in range(d.int(1, 2)):
                    isec(d.size())
                size = d.size()
                isec(size)
                pos += size
                counted = True
            elif o == 'zero':
                isec(0)
            elif o == 'outside':
                isec(d.size(), addr=d.weighted((3, 'zero'), (1, 'below'), (1, 'end'), (1, 'far')))
            else:
                isec(d.size())
                f = d.int(1, 32)
                e.append(['f', pos, f, ''])
                pos += f
        noise()
    if hole and e:
        pos += d.int(1, 8)
    # A zero-size or outside entry directly after an entry at the same address would supersede it; drop such pairs.
    return e, pos


def relocate(entries, addr, size):
    """Absolute addresses; symbolic addresses of outside entries resolved."""
    res = []
    for x in entries:
        x = list(x)
        if x[0] == 'i':
            if isinstance(x[2], str):
                x[2] = {
                    'zero': 0,
                    'below': max(0, addr - 4),
                    'end': addr + size,
                    'far': addr + size + 0x1000,
                }[x[2]]
            else:
                x[2] += addr
        elif x[0] in 'fd':
            x[1] += addr
        res.append(x)
    return res


def boundaries(ps):
    """Interesting addresses: starts and ends of pieces."""
    return sorted({p[1] for p in ps} | {p[1] + p[2] for p in ps})


def inner_points(entries, size):
    pts = {0, 1, size - 1, size, size // 2}
    for x in entries:
        if x[0] == 'i' and not isinstance(x[2], str):
            pts |= {x[2], x[2] + x[3], x[2] + 1, x[2] + max(0, x[3] - 1)}
        elif x[0] == 'f':
            pts |= {x[1], x[1] + x[2], x[1] + 1}
    return sorted(p for p in pts if 0 <= p <= size)


def gen_osecs(d, chip, regs, pool, hi=5, odd=True, overlap_ok=False, names=None, big=False, gap=True, hole=False,
              rich=False):  # fmt: skip
    """Output sections placed at, across and between the boundaries of the regions."""
    ps = pieces(chip, regs)
    bounds = boundaries(ps)
    pool_names = list(names or (OSECS + OSECS_OTHER))
    used = []  # address ranges
    osecs = []

    def place(name, entries, size):
        """Pick an address; returns None if it collides."""
        how = d.weighted(
            ((14 if rich else 5) if ps else 0, 'inside'), (6 if bounds else 0, 'across'), (2 if osecs else 0, 'after'), (2, 'gap')
        )
        if how == 'inside':
            p = d.pick(ps)
            room = max(0, p[2] - size)
            addr = p[1] + d.weighted((3, 0), (2, room), (2, d.int(0, room)))
        elif how == 'across':
            b = d.pick(bounds)
            addr = b - d.pick(inner_points(entries, size))
        elif how == 'after':
            o = d.pick(osecs)
            addr = o['addr'] + o['size'] + d.weighted((3, 0), (1, d.int(1, 16)))
        else:
            if gap and bounds:
                addr = d.pick(bounds) + d.pick([0, 1, 16, 0x1000, -0x1000])
            elif ps:
                addr = d.pick(ps)[1]
            else:
                addr = 0x1000
        if addr <= 0 or addr + size >= 1 << 32:
            return None
        for a, n in used:
            if addr < a + n and a < addr + size:
                return None
        return addr

    many = d.chance(1)
    if many:
        pool_names += [f'.seg{i}.{s}' for i, s in enumerate(['text', 'data', 'bss', 'rodata', 'x'] * 10)]
    for _ in range(d.int(36, 50) if many else d.int(3 if rich else 1, hi)):
        name = pool_names.pop(d.int(0, len(pool_names) - 1))
        n = d.int(1, 2) if many else d.int(3, 9) if rich else d.int(1, 6) if not big else d.int(1, 12)
        p = pool
        if d.chance(2):
            # a lot from a few files
            n = d.int(20, 60)
            p = (d.sublist(pool[0], 1, 2), d.sublist(pool[1], 1, 2), [f'.text.bulk{i}' for i in range(40)])
        elif d.chance(1):
            # many files
            n = d.weighted((3, d.int(40, 130)), (1, d.int(300, 400)))
            p = ([f'esp-idf/m{i}/lib{i % 97}.a' for i in range(130)], [f'o{i}.c.obj' for i in range(130)], pool[2])
        entries, size = gen_entries(d, p, n if not d.chance(5) else 0, odd=odd, hole=hole and d.chance(40))
        if d.chance(4):
            size += d.int(1, 64)  # bytes which no entry accounts for
        if size == 0 and not d.chance(30):
            continue
        addr = None
        for _ in range(3):
            addr = place(name, entries, size)
            if addr is not None:
                break
        if addr is None:
            continue
        if not (overlap_ok and name.startswith(EXT_PREFIX)):
            used.append((addr, size))
        osecs.append(
            {
                'name': name,
                'addr': addr,
                'size': size,
                'load': addr if d.chance(5) else None,
                'blank': not d.chance(3),
                'e': relocate(entries, addr, size),
            }
        )
    # sections without address: debugging information, empty ones
    for _ in range(d.weighted((6, 0), (2, 1), (1, 2))):
        rest = [n for n in OSECS_DEBUG if n not in [o['name'] for o in osecs]]
        name = d.pick(rest)
        size = d.int(0, 100)
        a, o = gen_file(d, pool[0], pool[1])
        ent = [['i', name, 0, size, a, o, 0]] if size else []
        osecs.append({'name': name, 'addr': 0, 'size': size, 'load': None, 'blank': True, 'e': ent})
        if not size and d.chance(70):
            osecs[-1]['bare'] = True  # just the name
            osecs[-1]['e'] = [['n', f'*({name} {name}.*)']]
    return osecs


# ---------------------------------------------------------------- reading of the sections (the parse oracle)


def counted_isecs(osec):
    """Input sections of the output section, as the map means them.

    [{name, addr, size (counted), archive, object, fill}], in map order.
    """
    res = []
    for x in osec['e']:
        if x[0] == 'i':
            _, name, addr, size, archive, obj, _ = x
            if not osec['addr'] <= addr < osec['addr'] + osec['size']:
                size = 0  # outside of the output section
            if res and res[-1]['addr'] == addr:
                res[-1]['size'] = 0  # superseded
            res.append(
                {'name': name, 'addr': addr, 'size': size, 'archive': archive, 'object': obj, 'fill': 0}
            )
        elif x[0] in 'fd' and res:
            if x[0] == 'f' and res[-1]['addr'] == x[1]:
                res[-1]['size'] = 0  # overlaid by padding
            for s in reversed(res):
                if s['size']:
                    s['fill'] += x[2]
                    break
    return res


def wellformed(osec, strict=True):
    """No construct whose meaning the map format leaves open.

    An input section at the address of the previous one supersedes it; a zero-size, outside or overlaid entry
    with padding in between, or (strict) one that supersedes a counted section without replacing it, does not occur.
    """
    last = None  # previous input section entry
    since = 0  # padding since then
    for x in osec['e']:
        if x[0] == 'i':
            inside = osec['addr'] <= x[2] < osec['addr'] + osec['size']
            if last is not None and last[2] == x[2]:
                if since:
                    return False
                if strict and last[3] and (not x[3] or not inside):
                    return False
            last, since = x, 0
        elif x[0] in 'fd':
            if x[0] == 'd' and last is not None and last[2] == x[1] and last[3]:
                return False
            since += 1
    return True


def mend(osec, strict=True):
    """Drop the entries which would make the section ill-formed (see wellformed)."""
    keep = []
    for x in osec['e']:
        keep.append(x)
        if not wellformed({**osec, 'e': keep}, strict):
            keep.pop()
    osec['e'] = keep
    return osec


# ---------------------------------------------------------------- ELF side


def section_ranges(osecs, counted):
    """Counted input sections with nonzero size, sorted by address."""
    res = []
    for o in osecs:
        if o['name'] in counted:
            res += [(s['addr'], s['size'], o['name']) for s in counted_isecs(o) if s['size']]
    return sorted(res)


SHT_PROGBITS, SHT_NOBITS, SHT_NOTE, SHT_INIT_ARRAY = 1, 8, 7, 14
STT = {'NOTYPE': 0, 'OBJECT': 1, 'FUNC': 2, 'SECTION': 3, 'FILE': 4, 'TLS': 6}
SHN_ABS = 0xFFF1


def never_counted(name):
    return name.endswith(('dummy', 'reserved_for_iram', 'noload'))


def gen_elf(d, case, symbols=True, alloc=85, syms=SYMS):
    secs = []
    for o in case['osecs']:
        if not o['size'] and d.chance(50):
            continue
        if o['name'] in OSECS_DEBUG:
            secs.append([o['name'], SHT_PROGBITS, 0, 0, o['size']])
            continue
        flags = 2 if d.chance(alloc) else 0
        flags |= d.weighted((12, d.pick([0, 1, 4, 5])), (1, d.pick([0x10, 0x30, 0x401, 0x10000000, 0x80000004])))
        nobits = o['name'].endswith(('bss', 'noinit', 'dummy')) != d.chance(10)
        typ = SHT_NOBITS if nobits else d.weighted((12, SHT_PROGBITS), (1, SHT_NOTE), (1, SHT_INIT_ARRAY), (1, d.pick([15, 16, 0x6FFFFFF6, 0x70000001, 0x80000001])))
        secs.append([o['name'], typ, flags, o['addr'], o['size']])
    if d.chance(10):
        secs.append(['.extra', SHT_PROGBITS, d.pick([0, 2]), d.pick([0x1000, 0]), d.int(0, 64)])
    elf = {'cls': 64 if d.chance(15) else 32, 'end': '>' if d.chance(15) else '<', 'secs': secs, 'syms': []}
    case['elf'] = elf
    if not symbols:
        return elf
    counted = elf_counted(case)
    ranges = section_ranges(case['osecs'], counted)
    idx = {s[0]: i + 1 for i, s in enumerate(secs)}
    out = []
    # ROM and other symbols below and between the counted input sections
    prev_end = 0
    for start, size, oname in ranges:
        room = start - prev_end
        if room > 0 and d.chance(15):
            n = d.int(0, min(room, 64))
            a = d.weighted((2, start - n), (1, prev_end if room >= n else start - n), (1, start - d.int(n, min(room, n + 64))))
            a = max(prev_end, a)
            if a < start and a + n <= start:
                typ = d.weighted((2, 'FUNC'), (2, 'OBJECT'), (1, 'NOTYPE'))
                out.append(['rom_' + d.pick(syms), a, n, STT[typ], 1, 0, SHN_ABS])
        if room > 0 and d.chance(6):
            # a symbol that starts below the input section and reaches into it
            a = start - d.int(1, min(room, 16))
            n = start - a + d.int(1, size)
            out.append(['rom_' + d.pick(syms), a, n, STT[d.pick(['FUNC', 'OBJECT'])], 1, 0, SHN_ABS])
        # symbols of this input section
        k = d.weighted((3, 1), (3, 0), (3, 2), (1, 4))
        pos = start
        for _ in range(k):
            left = start + size - pos
            if left <= 0:
                break
            n = d.weighted((3, left), (3, d.int(1, left)), (1, 0))
            typ = d.weighted((5, 'FUNC'), (5, 'OBJECT'), (1, 'NOTYPE'), (1, 'TLS'), (1, 'SECTION'))
            out.append([d.pick(syms), pos, n, STT[typ], d.pick([0, 1, 2]), d.pick([0, 0, 2]), idx.get(oname, 0)])
            if n and d.chance(8):
                # an alias, or a symbol inside another one
                m = d.int(1, n)
                out.append([d.pick(syms) + '_alias', pos + n - m, m, STT[d.pick(['FUNC', 'OBJECT'])], 2, 0, idx.get(oname, 0)])
            pos += n + d.weighted((3, 0), (1, d.int(0, 8)))
        prev_end = start + size
    if d.chance(30):
        out.append(['file.c', 0, 0, STT['FILE'], 0, 0, SHN_ABS])
    elf['syms'] = d.shuffle(out)
    return elf


def elf_counted(case):
    """Names of the counted output sections when the ELF file is used."""
    alloc = {s[0] for s in case['elf']['secs'] if s[2] & 2 and s[4]}
    return [o['name'] for o in case['osecs'] if o['size'] and not never_counted(o['name']) and o['name'] in alloc]


def name_counted(name):
    return name.endswith(('.text', '.data', '.bss', '.rodata', 'noinit', '.vectors')) or any(
        p in name for p in ('.flash', '.eh_frame')
    )


def counted_names(case):
    if case.get('elf'):
        return elf_counted(case)
    return [o['name'] for o in case['osecs'] if o['size'] and not never_counted(o['name']) and name_counted(o['name'])]


# ---------------------------------------------------------------- cross references


def gen_crt(d, case, hi=14):
    """Cross references, mostly between files and symbols of the image."""
    files = sorted({(x[4], x[5]) for o in case['osecs'] for x in o['e'] if x[0] == 'i'})
    other = [('esp-idf/unused/libunused.a', 'u.c.obj'), (EXE, 'unused.o'), ('esp-idf/other/libcommon.a', 'o.c.obj')]
    names = sorted({s[0] for s in (case.get('elf') or {'syms': []})['syms']})
    names += [n + s for n in names[:3] for s in ('@V1', '_x')]
    names += ['undefined_sym', 'a_symbol_name_which_is_much_longer_than_fifty_characters_x']
    if d.chance(40):
        # C++ names as the linker shows them
        names += ['operator new(unsigned int)', 'vtable for Foo', 'guard variable for f()::x', 'A::get(int, char*) const', 'operator']
        names += [n + w for n in names[:2] for w in (' for Foo', ' const') if len(n) < 40]
    crt = []
    if d.chance(1) and hi > 10:
        hi = d.int(70, 150)  # many symbols
        names += [f'sym{i}' for i in range(hi)]
    for _ in range(d.weighted((1, d.int(1, 3)), (3, d.int(3, hi)))):
        if not names:
            break
        sym = names.pop(d.int(0, len(names) - 1))
        refs = []
        for _ in range(d.weighted((10, 1), (40, 2), (30, 3), (20, 5), (1, d.int(33, 60)))):
            refs.append(list(d.pick(files) if files and not d.chance(12) else d.pick(other)))
        crt.append([sym, refs])
    return crt


# ---------------------------------------------------------------- whole firmware


def gen_pool(d, archives=ARCHIVES, objects=OBJECTS, isecs=ISECS, lo=1):
    return (
        d.sublist(archives, lo, 5) or archives[:1],
        d.sublist(objects, lo, 4) or objects[:1],
        d.sublist(isecs, 1, 6) or isecs[:1],
    )


CHIP_NAMES = sorted(chips.CHIPS)


def gen_firmware(d, elf=None, odd=True, crt=False, osecs=5, regions=5, chip=None, pool=None, gap=True, symbols=True,
                 names=None, alloc=85, syms=SYMS, unknown=True, rich=False):  # fmt: skip
    """elf: True, False or None (either)"""
    chip = chip or d.pick(CHIP_NAMES)
    with_elf = d.chance(60) if elf is None else elf
    regs = gen_regions(d, chip, regions, unknown=unknown)
    pool = pool or gen_pool(d, lo=3 if rich else 1)
    case = {
        'chip': chip,
        'w': 16 if d.chance(10) else 8,
        'regions': regs,
        'osecs': [
            mend(o)
            for o in gen_osecs(d, chip, regs, pool, osecs, odd=odd, overlap_ok=not with_elf, gap=gap, names=names, rich=rich)
        ],
        'crt': None,
        'elf': None,
    }
    if with_elf:
        gen_elf(d, case, symbols=symbols, alloc=alloc, syms=syms)
    if crt:
        case['crt'] = gen_crt(d, case)
    return case


def gen_variant(d, case):
    """Another build of the same project: sections and files dropped, shortened, renamed or left alone."""
    new = copy.deepcopy(case)
    new['crt'] = None
    pool = gen_pool(d)
    osecs = []
    for o in new['osecs']:
        k = d.weighted((5, 'keep'), (2, 'drop'), (4, 'shorten'), (3, 'rename'), (1, 'section'))
        if k == 'drop':
            continue
        if k == 'shorten' and o['addr'] and len(o['e']) > 1:
            n = d.int(1, len(o['e']) - 1)
            last = [x for x in o['e'][:n] if x[0] == 'i'][-1:]
            after = [k for k in range(n, len(o['e'])) if o['e'][k][0] != 'n'][:1]
            if last and after and o['e'][after[0]][0] == 'f' and o['e'][after[0]][1] == last[0][2]:
                n = after[0] + 1  # an overlaid section stays overlaid
            full = dict(o)
            o['e'] = o['e'][:n]
            o['size'] = max([x[2 if x[0] == 'i' else 1] + x[3 if x[0] == 'i' else 2] - o['addr']
                             for x in o['e'] if x[0] != 'n' and o['addr'] <= x[2 if x[0] == 'i' else 1] < o['addr'] + o['size']]
                            or [o['size']])  # fmt: skip
            if o['size'] > full['size']:
                # the section now ends in one that is superseded in the whole
                o = full
        elif k == 'rename':
            for x in o['e']:
                if x[0] == 'i' and d.chance(40):
                    x[4], x[5] = gen_file(d, pool[0], pool[1])
        elif k == 'section':
            free = [n for n in OSECS if n not in [p['name'] for p in case['osecs']] and not n.startswith(EXT_PREFIX)]
            if free and o['addr'] and not o['name'].startswith(EXT_PREFIX):
                o['name'] = d.pick(free)
                if o['name'] in [p['name'] for p in osecs]:
                    continue
        osecs.append(mend(o))
    new['osecs'] = osecs
    if d.chance(20):
        # An empty region counts as a region where sections overflow, so it has to stay next to another one.
        new['regions'] = [r for r in new['regions'] if r[2]]
        for r in new['regions']:
            if r[2] > 1 and r[0] != '*default*':
                r[2] = max(1, r[2] - d.int(0, 64))
    new['elf'] = None
    placed = sorted((o['addr'], o['size']) for o in osecs if o['addr'])
    apart = all(a + n <= b for (a, n), (b, _) in zip(placed, placed[1:]))
    if apart and (case.get('elf') if d.chance(95) else d.chance(50)):
        gen_elf(d, new, symbols=True)
    return new


def gen_pair(d, **kw):
    """(current, reference)"""
    a = gen_firmware(d, **kw)
    k = d.weighted((7, 'variant'), (1, 'same'), (2, 'other'), (1, 'chip'))
    if k == 'variant':
        b = gen_variant(d, a)
    elif k == 'same':
        b = copy.deepcopy(a)
    elif k == 'other':
        b = gen_firmware(d, **{**kw, 'chip': a['chip']})
    else:
        b = gen_firmware(d, **kw)
    return (a, b) if d.chance(50) else (b, a)
