"""C07: exact differences."""

RULE = """
Pairs of random memory maps (related or unrelated, sizes summing up or not); memorymap.diff() compared with a
recursive reference, checked against itself, with arguments swapped, and for changed or shared inputs.
Non-trivial: both maps have entries and they differ.
"""

import copy

from .. import cli, mmgen, oracle
from ..core import check, same
from ..gen import composite


@composite
def gen(d):
    cur = mmgen.gen_map(d)
    ref = mmgen.gen_map(d)
    if d.chance(70):
        ref['memory_types'] = mmgen.variant(d, cur['memory_types'])
    return {'cur': cur, 'ref': ref}


def strategy(tier):
    return gen()


def negated(items):
    """Name -> differences, negated, for every entry."""
    res = {}
    for name, info in items.items():
        for k, v in info.items():
            if k.endswith('_diff'):
                res[(name, k)] = -v
            elif isinstance(v, dict):
                for path, x in negated(v).items():
                    res[(name, *path)] = x
    return res


def scribble(x):
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], dict):
                scribble(x[k])
            elif isinstance(x[k], int):
                x[k] = 123456789
        x['scribbled'] = 1


def judge(case):
    from esp_idf_size import memorymap

    cur, ref = copy.deepcopy(case['cur']), copy.deepcopy(case['ref'])
    with cli.library():
        got = memorymap.diff(cur, ref)
        same(cur, case['cur'], 'current map modified by diff()')
        same(ref, case['ref'], 'reference map modified by diff()')
        same(got, oracle.diff(case['cur'], case['ref']), 'difference')
        zero = memorymap.diff(cur, cur)
        for k, v in negated(zero['memory_types']).items():
            check(v == 0, f'difference of a map to itself at {k}: {-v}')
        check(zero['image_size_diff'] == 0, 'image size difference of a map to itself')
        swapped = memorymap.diff(ref, cur)
        back = {k: -v for k, v in negated(swapped['memory_types']).items()}
        same(back, negated(got['memory_types']), 'swapped difference')
        same(swapped['image_size_diff'], -got['image_size_diff'], 'swapped image size difference')
        scribble(got)
        same(cur, case['cur'], 'current map shares data with the result')
        same(ref, case['ref'], 'reference map shares data with the result')
    return ()


def nontrivial(case):
    a, b = case['cur']['memory_types'], case['ref']['memory_types']
    return bool(a) and bool(b) and a != b
