"""C03: bytes of the sections go to the memory type where they lie."""

RULE = """
Random firmware with sections inside, across and between regions; sizes per type and section compared with
byte-interval arithmetic. Non-trivial: a counted section is cut, overflows or lies outside all regions.
"""

from .. import cli, fw, oracle, render
from ..core import check, same
from ..gen import composite


@composite
def gen(d):
    case = fw.gen_firmware(d, osecs=6, regions=5)
    return case


def strategy(tier):
    return gen()


def judge(case):
    d = cli.fresh_dir()
    fn = render.project(case, d)
    mm, err = cli.get(fn, load_symbols=False)
    want, dropped, overflow = oracle.memory_types(case, False)
    for t, info in want.items():
        have = mm['memory_types'].get(t)
        check(have is not None, f'memory type {t} missing')
        same({k: v['size'] for k, v in have['sections'].items()}, {k: v['size'] for k, v in info['sections'].items()},
             f'sections of {t}', repr(case['regions']), repr([[o['name'], o['addr'], o['size']] for o in case['osecs']]))  # fmt: skip
        same(have['used'], info['used'], f'used size of {t}')
    same(list(mm['memory_types']), list(want), 'memory types')
    for name, _, _ in dropped:
        check(name in err, f'section {name} is left out without a warning', err)
    for name, t, _, _ in overflow:
        check(name in err, f'section {name} is charged to {t} as overflow without a warning', err)
    if not dropped and not overflow:
        check('overflow' not in err and 'cannot assign output section' not in err, 'warning without reason', err)
    total = sum(t['used'] for t in mm['memory_types'].values())
    counted = sum(o['size'] for o in case['osecs'] if o['name'] in fw.counted_names(case))
    same(total + sum(x[2] for x in dropped), counted, 'bytes of all counted sections')
    res = []
    if dropped:
        res.append('section outside')
    if overflow:
        res.append('overflow')
    if any(len(oracle.cut(case, o)) > 1 for o in case['osecs']):
        res.append('section cut')
    return res


def nontrivial(case):
    names = fw.counted_names(case)
    return any(len(oracle.cut(case, o)) > 1 or oracle.cut(case, o)[0][0] is None for o in case['osecs'] if o['name'] in names)
