"""C09: unused entries and flash sizes."""

RULE = """
Random firmware (some sections without files, types without sections) and options, with and without a reference
project; the raw, JSON, CSV and tree reports compared with the map computed from the layout. Non-trivial: the
options leave something out that the firmware has.
"""

from .. import cli, fw, oracle, render, reports
from ..core import same
from ..gen import composite


@composite
def gen(d):
    kw = {'osecs': 4, 'regions': 5, 'rich': d.chance(60)}
    diff = d.chance(40)
    cur, ref = fw.gen_pair(d, **kw) if diff else (fw.gen_firmware(d, **kw), None)
    for c in (cur, ref):
        if c is None:
            continue
        # sections without any file: just alignment or data
        for o in c['osecs']:
            if d.chance(15):
                o['e'] = [x for x in o['e'] if x[0] != 'i']
        if c['elf']:
            c['elf']['syms'] = []
    return {'cur': cur, 'ref': ref, 'opts': reports.gen_opts(d, unify=False), 'kind': d.pick(['archives', 'files'])}


def strategy(tier):
    return gen()


def judge(case):
    opts = case['opts']
    d = cli.fresh_dir()
    fn = render.project(case['cur'], d + '/cur')
    args = reports.argv(opts)
    cur = oracle.memmap(case['cur'], fn)
    ref = None
    if case['ref']:
        rfn = render.project(case['ref'], d + '/ref')
        args += ['--diff', rfn]
        ref = oracle.memmap(case['ref'], rfn)
    diff = ref is not None
    mm = reports.get_report(fn, 'raw', *args)
    same(mm, oracle.report_map(cur, opts, ref), 'raw report')
    header, rows = reports.get_report(fn, 'csv', *args)
    th, trows = reports.get_report(fn, 'table', *args)
    reports.check_summary(th, trows, mm, opts, diff)
    same([[c.strip() for c in r] for r in trows], rows, 'CSV and table')
    js = reports.get_report(fn, 'json2', *args)
    same({x['name']: (x['total'], x['used']) for x in js['layout']},
         {t: (ti['size'], ti['used']) for t, ti in mm['memory_types'].items()}, 'JSON summary')  # fmt: skip
    js = reports.get_report(fn, 'json2', '--' + case['kind'], *args)
    for e in js.values():
        same({t: set(x['sections']) for t, x in e['memory_types'].items()},
             {t: set(x['sections']) for t, x in mm['memory_types'].items()}, 'types and sections of the JSON report')  # fmt: skip
    if not diff:
        tree = reports.get_report(fn, 'tree', *args)
        same(sorted(reports.tree_label(n[0], False)[0] for n in tree[1]), sorted(mm['memory_types']), 'types of the tree')
    return ['diff' if diff else 'single', *reports.argv(opts, 'show_unused', 'use_flash_size')]


def nontrivial(case):
    mm = oracle.memmap(case['cur'], '')
    return any(ti['used'] for ti in mm['memory_types'].values()) and oracle.shown(mm, case['opts']) != mm
