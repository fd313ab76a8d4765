"""C10: per-archive, per-file, per-symbol and summary JSON reports."""

RULE = """
Random firmware with names sharing a base name, random options; JSON reports per archive, file and symbol and the
JSON summary compared with sums over the memory map computed from the layout; unknown archives must be refused.
Non-trivial: at least 2 archives, one of them in 2 sections.
"""

from .. import cli, fw, oracle, render, reports
from ..core import check, same
from ..gen import composite


@composite
def gen(d):
    return {
        'fw': fw.gen_firmware(d, osecs=5, regions=4, rich=d.chance(70)),
        'opts': reports.gen_opts(d),
        'pick': d.int(0, 7),
        'unknown': d.pick(['libnone.a', 'esp-idf/main/libmain.a', '', 'libmain', '[x]', '*']),
    }


def strategy(tier):
    return gen()


def archives_of(mm):
    """Base names of the archives with symbols."""
    res = {}
    for ti in mm['memory_types'].values():
        for si in ti['sections'].values():
            for ai in si['archives'].values():
                if any(oi['symbols'] for oi in ai['object_files'].values()):
                    res[ai['abbrev_name']] = 1
    return list(res)


def judge(case):
    opts = case['opts']
    d = cli.fresh_dir()
    fn = render.project(case['fw'], d)
    mm = oracle.report_map(oracle.memmap(case['fw'], fn), opts)
    args = reports.argv(opts)
    for kind in ('archives', 'files'):
        got = reports.get_report(fn, 'json2', '--' + kind, *args)
        same(got, oracle.summary(mm, kind, opts['unify']), f'JSON report per {kind}')
    names = archives_of(mm)
    labels = []
    if names:
        name = names[case['pick'] % len(names)]
        got = reports.get_report(fn, 'json2', '--archive-details', name, *args)
        same(got, oracle.summary(mm, 'symbols', opts['unify'], name), f'JSON report for {name}')
        labels.append('archive details')
    unknown = case['unknown']
    if unknown == '*' and names:
        unknown = names[0].swapcase()
    elif unknown == '[x]' and names:
        unknown = names[0][:-1]
    if unknown and unknown not in names and unknown not in [e['abbrev_name'] for e in oracle.summary(mm, 'archives').values()]:
        for fmt in ('json2', 'table', 'csv'):
            r = cli.run(['--format', fmt, '--archive-details', unknown, *args, fn])
            check(not r.exc and r.code not in (0, None), 'unknown archive accepted', repr(r))
            check(not r.out, 'report for an unknown archive', repr(r))
            check(r.err.strip(), 'no error for an unknown archive', repr(r))
    got = reports.get_report(fn, 'json2', *args)
    check(isinstance(got.pop('version', None), str), 'no version in the JSON summary')
    want = {}
    for t, ti in mm['memory_types'].items():
        parts = {}
        for s, si in ti['sections'].items():
            n = reports.display(s, si, opts)
            parts[n] = {'size': parts.get(n, {'size': 0})['size'] + si['size']}
        want[t] = {
            'name': t, 'total': ti['size'], 'used': ti['used'],
            'free': ti['size'] - ti['used'] if ti['size'] else 0, 'parts': parts,
        }  # fmt: skip
    same({x['name']: x for x in got['layout']}, want, 'JSON summary')
    check(len(got['layout']) == len(want), 'memory type listed twice in the JSON summary')
    same(got['total_size'], oracle.image_size(case['fw']), 'total_size')
    return labels


def nontrivial(case):
    mm = oracle.memmap(case['fw'], '')
    where = {}
    for t, ti in mm['memory_types'].items():
        for s, si in ti['sections'].items():
            for a in si['archives']:
                where.setdefault(a, set()).add((t, s))
    return len(where) >= 2 and max(len(v) for v in where.values()) >= 2
