"""C08: unify() merges by abbreviated name and keeps every total."""

RULE = """
Random memory maps and differences of such; memorymap.unify() compared with a recursive reference merge, repeated,
and commuted with diff(). Non-trivial: some entries are merged.
"""

import copy

from .. import cli, mmgen, oracle
from ..core import same
from ..gen import composite


@composite
def gen(d):
    cur = mmgen.gen_map(d)
    ref = mmgen.gen_map(d)
    if d.chance(70):
        ref['memory_types'] = mmgen.variant(d, cur['memory_types'])
    return {'cur': cur, 'ref': ref, 'diff': d.chance(60)}


def strategy(tier):
    return gen()


def judge(case):
    from esp_idf_size import memorymap

    with cli.library():
        src = oracle.diff(case['cur'], case['ref']) if case['diff'] else case['cur']
        want = oracle.unify(src)
        mm = copy.deepcopy(src)
        memorymap.unify(mm)
        same(mm, want, 'unified memory map')
        again = copy.deepcopy(mm)
        memorymap.unify(again)
        same(again, mm, 'unified twice')
        cur, ref = copy.deepcopy(case['cur']), copy.deepcopy(case['ref'])
        memorymap.unify(cur)
        memorymap.unify(ref)
        mm = memorymap.diff(copy.deepcopy(case['cur']), copy.deepcopy(case['ref']))
        memorymap.unify(mm)
        same(mm, memorymap.diff(cur, ref), 'unified difference and difference of unified maps')
    return ()


def nontrivial(case):
    return mmgen.entries(oracle.unify(case['cur'])) < mmgen.entries(case['cur'])
