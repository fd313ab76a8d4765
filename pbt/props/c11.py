"""C11: figures of table and CSV."""

RULE = """
Random firmware and options; summary and per-archive, per-file and per-symbol reports in table and CSV format
parsed back, compared with each other and with the figures computed from the layout. Non-trivial: at least two
memory types or sections are shown.
"""

from .. import cli, fw, oracle, render, reports
from ..core import same
from ..gen import composite
from .c10 import archives_of


@composite
def gen(d):
    return {
        'fw': fw.gen_firmware(d, osecs=5, regions=4, rich=d.chance(70)),
        'opts': reports.gen_opts(d),
        'pick': d.int(0, 7),
    }


def strategy(tier):
    return gen()


def judge(case):
    opts = case['opts']
    d = cli.fresh_dir()
    fn = render.project(case['fw'], d)
    args = reports.argv(opts)
    mm = reports.get_report(fn, 'raw', *args)
    same(mm, oracle.report_map(oracle.memmap(case['fw'], fn), opts), 'raw report')
    header, rows = reports.table_and_csv(fn, *args)
    reports.check_summary(header, rows, mm, opts)
    reports.check_image_size(cli.ok([*args, fn]).err, mm)
    names = archives_of(mm)
    name = names[case['pick'] % len(names)] if names else None
    for kind in ('archives', 'files', 'symbols'):
        if kind == 'symbols' and not names:
            continue
        header, rows = reports.table_and_csv(fn, *reports.kind_args(kind, name), *args)
        reports.check_entries(header, rows, kind, oracle.summary(mm, kind, opts['unify'], name), mm, opts)
    return ()


def nontrivial(case):
    mm = oracle.memmap(case['fw'], '')
    return sum(bool(t['used']) + len(t['sections']) for t in mm['memory_types'].values()) >= 3
