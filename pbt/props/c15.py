"""C15: archive dependencies."""

RULE = """
Random firmware with symbol table and cross reference table; dependency and reverse dependency reports in all six
formats compared with the relation computed from the table. Non-trivial: at least one dependency.
"""

from .. import cli, fw, oracle, render, reports
from ..core import check, same
from ..gen import composite


@composite
def gen(d):
    case = fw.gen_firmware(d, elf=not d.chance(4), crt=True, osecs=6, regions=4, unknown=False, gap=False, rich=d.chance(90), alloc=95)
    if d.chance(3):
        case['crt'] = None
    if case['elf'] and d.chance(50):
        for s in case['elf']['syms']:
            if d.chance(10):
                s[6] = fw.SHN_ABS
    return {
        'fw': case,
        'opts': reports.gen_opts(d, show_unchanged=False),
        'rev': d.chance(50),
        'syms': d.chance(50),
        'diff': d.chance(10),
    }


def strategy(tier):
    return gen()


def relation(deps):
    return {(a, b): sorted(f['symbols']) for a, e in deps.items() for b, f in e['archives'].items()}


def norm(deps):
    return {
        a: {**e, 'archives': {b: {**f, 'symbols': sorted(f['symbols'])} for b, f in e['archives'].items()}}
        for a, e in deps.items()
    }


def judge(case):
    opts = case['opts']
    d = cli.fresh_dir()
    fn = render.project(case['fw'], d)
    base = ['--archive-dependencies', *reports.argv(opts)]
    if case['syms']:
        base += ['--dep-symbols']
    args = base + (['--dep-reverse'] if case['rev'] else [])
    if case['diff']:
        args += ['--diff', d + '/does/not/matter.map']
    if not case['fw']['elf'] or case['fw']['crt'] is None:
        for fmt in ('table', 'csv', 'json2', 'raw', 'tree', 'dot'):
            r = cli.run(['--format', fmt, *args, fn])
            check(not r.exc and r.code not in (0, None), 'dependencies without ELF or cross reference table', repr(r))
            check(not r.out and r.err.strip(), 'output without ELF or cross reference table', repr(r))
        return ['refused']
    mm = oracle.report_map(oracle.memmap(case['fw'], fn), opts)
    sizes = {a: e['size'] for a, e in oracle.summary(mm, 'archives').items()}
    want = oracle.dependencies(case['fw'], sizes, case['rev'], opts['unify'])

    r = cli.ok(['--format', 'json2', *args, fn])
    if case['diff']:
        check('--diff' in r.err, 'no warning that --diff is ignored', r.err)
    js = cli.parse_json(r.out)
    same(norm(js), norm(want), 'JSON dependencies')
    same(norm(reports.get_report(fn, 'raw', *args)), norm(want), 'raw dependencies')
    other = reports.get_report(fn, 'json2', *base, *([] if case['rev'] else ['--dep-reverse']))
    same({(b, a): s for (a, b), s in relation(other).items()}, relation(want), 'transposed relation')

    # table and CSV
    for fmt in ('table', 'csv'):
        header, rows = reports.get_report(fn, fmt, *args)
        what = 'Dependents' if case['rev'] else 'Dependencies'
        same(header, ['Archive', 'Archive Size', what, f'{what} Sizes'] + (['Symbols'] if case['syms'] else []), f'columns ({fmt})')
        got, cur, dep = [], None, None
        for row in rows:
            row = [c.strip() for c in row]
            if fmt == 'table' and not any(row[:4]):
                check(dep is not None and case['syms'], 'symbol without dependency', repr(row))
                dep[4].append(row[4])
                continue
            if row[0]:
                cur = row[:2]
            check(cur is not None, 'dependency without archive', repr(row))
            dep = [cur[0], int(cur[1]), row[2], int(row[3]), row[4].split('\n') if case['syms'] else []]
            got.append(dep)
        exp = [
            [reports.display(a, e, opts), e['size'], reports.display(b, f, opts), f['size'], sorted(f['symbols']) if case['syms'] else []]
            for a, e in want.items()
            for b, f in e['archives'].items()
        ]
        same(sorted([*g[:4], sorted(g[4])] for g in got), sorted(exp), f'dependencies ({fmt})')

    # tree
    root, kids = reports.get_report(fn, 'tree', *args)
    same('reverse' in root.lower(), bool(case['rev']), f'direction stated by the tree {root!r}')
    got = sorted(
        (*label(a), sorted((*label(b), sorted(s[0] for s in syms)) for b, syms in deps)) for a, deps in kids
    )
    exp = sorted(
        (
            reports.display(a, e, opts),
            e['size'],
            sorted((reports.display(b, f, opts), f['size'], sorted(f['symbols']) if case['syms'] else []) for b, f in e['archives'].items()),
        )
        for a, e in want.items()
    )
    same(got, exp, 'dependencies (tree)')

    # DOT
    nodes, edges = reports.get_report(fn, 'dot', *args)
    exp_nodes = {}
    for a, e in want.items():
        exp_nodes[a] = f'{reports.display(a, e, opts)} ({e["size"]})'
        for b, f in e['archives'].items():
            exp_nodes[b] = f'{reports.display(b, f, opts)} ({f["size"]})'
    same({n: x.get('label') for n, x in nodes.items()}, exp_nodes, 'nodes of the graph')
    exp_edges = sorted(
        ((b, a) if case['rev'] else (a, b), sorted(f['symbols']) if case['syms'] else None)
        for a, e in want.items()
        for b, f in e['archives'].items()
    )
    same(sorted(((a, b), sorted(x.split('\n')) if x is not None else None) for a, b, x in edges), exp_edges, 'edges of the graph')
    return ['dependencies' if want else 'no dependency']


def label(text):
    name, size = text.rsplit(' ', 1)
    return name, int(size)


def nontrivial(case):
    if not case['fw']['elf'] or not case['fw']['crt']:
        return False
    mm = oracle.memmap(case['fw'], '')
    sizes = {a: e['size'] for a, e in oracle.summary(mm, 'archives').items()}
    return bool(oracle.dependencies(case['fw'], sizes))
