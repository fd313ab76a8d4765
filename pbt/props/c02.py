"""C02: totals of the memory types."""

RULE = """
Random and enumerated region lists for every chip (at, across and beyond type boundaries, aliases, partial
overlaps, empty, unknown); totals compared with interval arithmetic over the frozen chip table. Non-trivial:
the regions cover at least two typed pieces.
"""

from .. import chips, cli, fw, oracle, render
from ..core import check, same
from ..gen import composite


@composite
def gen(d):
    chip = d.pick(fw.CHIP_NAMES)
    regs = fw.gen_regions(d, chip, 7, free_zero=True)
    case = {'chip': chip, 'w': 8, 'regions': regs, 'osecs': [], 'crt': None, 'elf': None}
    if d.chance(15):
        case['w'] = 16
    if d.chance(25):
        case['osecs'] = [fw.mend(o) for o in fw.gen_osecs(d, chip, regs, fw.gen_pool(d), 2)]
    return case


def strategy(tier):
    return gen()


def fixed_cases(tier):
    """Every chip: one region per address window, cut short and in full, and one over the whole address space."""
    res = []
    for chip in fw.CHIP_NAMES:
        for k, (_, start, length) in enumerate(chips.windows(chip)):
            for off, n in ((0, length), (1, length), (length - 1, 2), (length // 2, 1)):
                res.append({'chip': chip, 'w': 8, 'regions': [['seg%d' % k, start + off, n, 'rw']], 'osecs': [], 'crt': None, 'elf': None})
        allw = [['seg%d' % k, s, n, ''] for k, (_, s, n) in enumerate(chips.windows(chip))]
        for regs in (allw, allw[::-1], [['*default*', 0, 0xFFFFFFFF, '']], []):
            res.append({'chip': chip, 'w': 8, 'regions': regs, 'osecs': [], 'crt': None, 'elf': None})
    return res


def unassigned(case):
    """(names of regions which must be warned about, names which may be)"""
    must, may, before = [], [], []
    for r in case['regions']:
        if r[0] == '*default*':
            continue
        got = sum(p[2] for p in fw.pieces(case['chip'], [r]))
        if got < r[2]:
            must.append(r[0])
        elif not r[2]:
            # reserved at the end of a region before it
            if chips.window_at(case['chip'], r[1]) is None and not any(r[1] == p[1] + p[2] for p in before):
                may.append(r[0])
        before += fw.pieces(case['chip'], [r])
    return must, may


def judge(case):
    d = cli.fresh_dir()
    fn = render.project(case, d)
    mm, err = cli.get(fn)
    want = oracle.totals(case)
    same({k: v['size'] for k, v in mm['memory_types'].items()}, want, 'totals of the memory types', repr(case['regions']))
    check(len(mm['memory_types']) == len(chips.CHIPS[case['chip']]), 'memory types', repr(list(mm['memory_types'])))
    must, may = unassigned(case)
    for name in must:
        check(name in err, f'no warning about region {name} outside of all memory types', err)
    if not case['osecs']:
        for r in case['regions']:
            if r[0] not in must and r[0] not in may and r[0] != '*default*':
                check(r[0] not in err, f'unexpected warning about region {r[0]}', err)
    raw = cli.raw(fn, '--show-unused', '--use-flash-size')
    same({k: v['size'] for k, v in raw['memory_types'].items()}, want, 'totals of the memory types, command line')
    return (['unassigned region'] if must else []) + (['shared memory'] if shares(case) else [])


def shares(case):
    return sum(p[2] for p in fw.pieces(case['chip'], case['regions'])) != sum(oracle.totals(case).values())


def nontrivial(case):
    return len(fw.pieces(case['chip'], case['regions'])) >= 2
