"""C25: the tree."""

RULE = """
Random firmware (some compared with a reference) and options, shown as a tree to every depth: without option, with
--archives, --files and --archive-details, and combinations of them; the parsed tree compared node by node with the
reference memory map. Non-trivial: at least two archives with at least two object files in all.
"""

from .. import cli, fw, oracle, render, reports
from ..core import same
from ..gen import composite


@composite
def gen(d):
    kw = {'osecs': 6, 'regions': 5, 'rich': d.chance(60), 'unknown': d.chance(20)}
    if d.chance(25):
        cur, ref = fw.gen_pair(d, **kw)
    else:
        cur, ref = fw.gen_firmware(d, **kw), None
    return {'fw': cur, 'ref': ref, 'opts': reports.gen_opts(d), 'pick': d.int(0, 20), 'extra': d.sublist(['--archives', '--files', '--sort-reverse', '--sort-diff'], 0, 2)}


def strategy(tier):
    return gen()


def judge(case):
    opts = case['opts']
    d = cli.fresh_dir()
    fn = render.project(case['fw'], d + '/cur')
    args = reports.argv(opts)
    diff = bool(case['ref'])
    rfn = None
    if diff:
        rfn = render.project(case['ref'], d + '/ref')
        args += ['--diff', rfn]

    def memmap(symbols):
        ref = oracle.memmap(case['ref'], rfn, symbols) if diff else None
        return oracle.report_map(oracle.memmap(case['fw'], fn, symbols), opts, ref)

    def compare(mm, depth, archive, *more):
        root, kids = reports.get_report(fn, 'tree', *more, *args)
        got = reports.tree_children(kids, diff)
        want = reports.expected_tree(mm, opts, depth, archive, diff)
        same(reports.tree_sorted(got), reports.tree_sorted(want), f'tree {" ".join(more)}')
        return sum(1 for _ in walk(got))

    mm = memmap(False)
    n = compare(mm, 4, None)
    compare(mm, 2, None, '--archives')
    compare(mm, 3, None, '--files')
    extra = case['extra']
    if extra:
        compare(mm, 2 if '--archives' in extra else 3 if '--files' in extra else 4, None, *extra)
    full = memmap(True)
    names = sorted({ai['abbrev_name'] for _, ai in archives(full)})
    for k in (0, 1):
        if names:
            name = names[(case['pick'] + k) % len(names)]
            if not name.startswith('-'):
                compare(full, 4, name, '--archive-details', name, *(extra if k else []))
    near = 'none.a'
    if names and case['pick'] % 3:
        # no archive, but almost the name of one
        near = names[0][:-1] if case['pick'] % 3 == 1 else names[0].swapcase() if case['pick'] % 2 else names[0] + 'x'
        if case['pick'] % 5 < 2:
            near = names[0][1 + case['pick'] % 4 :] if case['pick'] % 5 else next(n for n, ai in archives(full) if ai['abbrev_name'] == names[0])
    if near not in names and near.strip() and not near.startswith('-'):
        compare(full, 4, near, '--archive-details', near)
    return ['diff' if diff else 'single', 'nodes>=20' if n >= 20 else 'nodes<20']


def walk(nodes):
    for x in nodes:
        yield x
        yield from walk(x[5])


def archives(mm):
    for ti in mm['memory_types'].values():
        for si in ti['sections'].values():
            yield from si['archives'].items()


def nontrivial(case):
    mm = oracle.memmap(case['fw'], '', False)
    a = {n for n, _ in archives(mm)}
    o = {(n, f) for n, ai in archives(mm) for f in ai['object_files']}
    return len(a) >= 2 and len(o) > len(a)
