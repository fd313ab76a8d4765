"""C14: comparison reports."""

RULE = """
Random pairs of firmware (another build of the same project, or unrelated) and options; raw, JSON, table, CSV and
tree comparison reports checked figure by figure against the two maps computed separately from the layouts.
Non-trivial: both projects have content and some entry differs.
"""

import re

from .. import cli, fw, oracle, render, reports
from ..core import check, same
from ..gen import composite
from . import c20
from .c10 import archives_of


@composite
def gen(d):
    if d.chance(10):
        # two projects with code to be attributed to components
        cur, ref = c20.gen()(d), c20.gen()(d)
        if d.chance(50):
            # another configuration of the same project
            ref = {**cur, 'sdk': ref['sdk'], 'missing': ref['missing']}
        ref['opt'] = cur['opt'] = d.weighted((5, True), (2, None), (1, False))
        return {'lto': True, 'cur': cur, 'ref': ref, 'opts': reports.gen_opts(d), 'pick': 0}
    cur, ref = fw.gen_pair(d, osecs=5, regions=4, rich=d.chance(70))
    return {'lto': False, 'cur': cur, 'ref': ref, 'opts': reports.gen_opts(d), 'pick': d.int(0, 7)}


def strategy(tier):
    return gen()


def judge_lto(case):
    opts = case['opts']
    d = cli.fresh_dir()
    fn = c20.write(case['cur'], d + '/cur')
    rfn = c20.write(case['ref'], d + '/ref')
    want = oracle.report_map(c20.expected(case['cur'], fn)[1], opts, c20.expected(case['ref'], rfn)[1])
    args = [*{True: ['--lto'], False: ['--no-lto'], None: []}[case['cur']['opt']], *reports.argv(opts), '--diff', rfn]
    same(reports.get_report(fn, 'raw', *args), want, 'raw report with LTO handling')
    for kind in ('archives', 'files'):
        entries = oracle.summary(want, kind, opts['unify'])
        if not opts['show_unchanged']:
            entries = oracle.unchanged_removed(entries)
        same(reports.get_report(fn, 'json2', '--' + kind, *args), entries, f'JSON report per {kind} with LTO handling')
    return ['LTO']


def judge(case):
    if case['lto']:
        return judge_lto(case)
    opts = case['opts']
    d = cli.fresh_dir()
    fn = render.project(case['cur'], d + '/cur')
    rfn = render.project(case['ref'], d + '/ref')
    args = [*reports.argv(opts), '--diff', rfn]
    mm = reports.get_report(fn, 'raw', *args)
    same(mm, oracle.report_map(oracle.memmap(case['cur'], fn), opts, oracle.memmap(case['ref'], rfn)), 'raw report')
    r = cli.ok(['--format', 'table', *args, fn])
    header, rows = cli.parse_table(r.out)[1:]
    reports.check_summary(header, rows, mm, opts, True)
    reports.check_image_size(r.err, mm, True)
    if case['cur']['chip'] != case['ref']['chip']:
        check(case['cur']['chip'] in r.err and case['ref']['chip'] in r.err, 'no warning about different targets', r.err)
        m = re.search(r'reference and other project is (\w+) and (\w+)', r.err)
        if m:
            same(list(m.groups()), [case['ref']['chip'], case['cur']['chip']], 'targets of the reference and the other project')
    same(reports.table_and_csv(fn, *args), (header, rows), 'CSV and table')
    names = archives_of(mm)
    name = names[case['pick'] % len(names)] if names else None
    for kind in ('archives', 'files', 'symbols'):
        if kind == 'symbols' and not names:
            continue
        kargs = [*reports.kind_args(kind, name), *args]
        entries = oracle.summary(mm, kind, opts['unify'], name)
        if not opts['show_unchanged']:
            entries = oracle.unchanged_removed(entries)
        header, rows = reports.table_and_csv(fn, *kargs)
        reports.check_entries(header, rows, kind, entries, mm, opts, True)
        same(reports.get_report(fn, 'json2', *kargs), entries, f'JSON report per {kind}')
    for kind, depth in ((None, 3), ('archives', 2), ('files', 3), ('symbols', 4)):
        if kind == 'symbols' and not names:
            continue
        kargs = reports.kind_args(kind, name) if kind else []
        tree = reports.get_report(fn, 'tree', *kargs, *args)
        want = reports.expected_tree(mm, opts, depth, name if kind == 'symbols' else None, True)
        same(reports.tree_sorted(reports.tree_children(tree[1], True)), reports.tree_sorted(want), f'tree {kind or ""}')
    js = reports.get_report(fn, 'json2', *args)
    same({x['name']: (x['total'], x['used']) for x in js['layout']},
         {t: (ti['size'], ti['used']) for t, ti in mm['memory_types'].items()}, 'JSON summary')  # fmt: skip
    return ['--' + k for k in opts if opts[k]]


def nontrivial(case):
    if case['lto']:
        return c20.nontrivial(case['cur']) or c20.nontrivial(case['ref'])
    a, b = oracle.memory_types(case['cur'])[0], oracle.memory_types(case['ref'])[0]
    return a != b and any(t['used'] for t in a.values()) and any(t['used'] for t in b.values())
