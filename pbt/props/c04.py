"""C04: sizes add up, and every entry is the one of the map."""

RULE = """
Random firmware, with or without ELF; sums checked at every level and every object file compared with the sum
of its input sections clipped to each part. Non-trivial: at least 3 counted input sections.
"""

import os

from .. import cli, fw, oracle, render
from ..core import check, same
from ..gen import composite


@composite
def gen(d):
    return fw.gen_firmware(d, osecs=5, regions=4)


def strategy(tier):
    return gen()


def adds_up(mm, symbols_fit):
    for t, ti in mm['memory_types'].items():
        same(ti['used'], sum(s['size'] for s in ti['sections'].values()), f'used size of {t}')
        for s, si in ti['sections'].items():
            check(si['size'] > 0, f'empty section {s}')
            same(si['abbrev_name'], '.' + s.rsplit('.', 1)[-1], f'abbreviated name of {s}')
            check(sum(a['size'] for a in si['archives'].values()) <= si['size'], f'archives exceed section {s}')
            for a, ai in si['archives'].items():
                where = f'{t}/{s}/{a}'
                check(ai['size'] > 0, f'empty archive {where}')
                same(ai['abbrev_name'], os.path.basename(a), 'abbreviated archive name')
                same(ai['size'], sum(o['size'] for o in ai['object_files'].values()), f'size of {where}')
                for o, oi in ai['object_files'].items():
                    check(oi['size'] > 0, f'empty object file {where}/{o}')
                    same(oi['abbrev_name'], os.path.basename(o), 'abbreviated object file name')
                    for y, yi in oi['symbols'].items():
                        check(yi['size'] > 0, f'empty symbol {where}/{o}/{y}')
                        same(yi['abbrev_name'], y, 'abbreviated symbol name')
                    if symbols_fit:
                        check(sum(y['size'] for y in oi['symbols'].values()) <= oi['size'], f'symbols exceed {where}/{o}')
            for x in (si, *si['archives'].values()):
                check(x['size_diff'] == 0, 'difference without reference')
        check(ti['used_diff'] == 0 and ti['size_diff'] == 0, 'difference without reference')


def disjoint(case):
    if not case['elf']:
        return True
    rs = sorted((s[1], s[2]) for s in case['elf']['syms'] if s[2] and s[3] in (1, 2))
    return all(a + n <= b for (a, n), (b, _) in zip(rs, rs[1:]))


def judge(case):
    d = cli.fresh_dir()
    fn = render.project(case, d)
    mm, _ = cli.get(fn)
    adds_up(mm, disjoint(case))
    want, _, _ = oracle.memory_types(case)

    def sizes(types):
        return {
            (t, s, a, o): oi['size']
            for t, ti in types.items()
            for s, si in ti['sections'].items()
            for a, ai in si['archives'].items()
            for o, oi in ai['object_files'].items()
        }

    same(sizes(mm['memory_types']), sizes(want), 'object files')
    return (['disjoint symbols'] if disjoint(case) else ['overlapping symbols']) + (['ELF'] if case['elf'] else [])


def nontrivial(case):
    names = fw.counted_names(case)
    return sum(1 for o in case['osecs'] if o['name'] in names for s in fw.counted_isecs(o) if s['size']) >= 3
