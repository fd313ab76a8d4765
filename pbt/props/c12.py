"""C12: order of rows."""

RULE = """
Random firmware (pairs for --diff), report kind, sort column by number, negative number or name, direction and
diff flag; rows of table and CSV must be ordered by the exact value of the column and be a permutation of the
default report; JSON and tree ordered by size at every level; invalid columns refused. Non-trivial: at least 3 rows
with at least two different values in the sorted column.
"""

from .. import cli, fw, render, reports
from ..core import check, fail, same
from ..gen import composite
from .c10 import archives_of


@composite
def gen(d):
    diff = d.chance(50)
    kw = {'osecs': 5, 'regions': 4, 'rich': d.chance(70)}
    cur, ref = fw.gen_pair(d, **kw) if diff else (fw.gen_firmware(d, **kw), None)
    return {
        'cur': cur,
        'ref': ref,
        'opts': reports.gen_opts(d),
        'kind': d.pick(['summary', 'archives', 'files', 'symbols']),
        'pick': d.int(0, 7),
        'col': d.weighted((4, 'pos'), (3, 'neg'), (3, 'name'), (2, 'bad')),
        'k': d.int(0, 20),
        'sort_diff': d.chance(50) if diff else d.chance(10),
        'reverse': d.chance(50),
    }


def strategy(tier):
    return gen()


def in_order(values, case, what, tolerance=0):
    # descending unless --sort-reverse is given
    if not reports.ordered(values, not case['reverse'], tolerance):
        fail(f'{what} is not sorted: {[str(v) for v in values]}', repr({k: v for k, v in case.items() if k not in ('cur', 'ref')}))


def judge(case):
    opts = case['opts']
    diff = case['ref'] is not None
    d = cli.fresh_dir()
    fn = render.project(case['cur'], d + '/cur')
    args = reports.argv(opts)
    if diff:
        args += ['--diff', render.project(case['ref'], d + '/ref')]
    mm = reports.get_report(fn, 'raw', *args)
    kind = case['kind']
    names = archives_of(mm)
    if kind == 'symbols':
        if not names:
            return ['no archive']
        args += ['--archive-details', names[case['pick'] % len(names)]]
    elif kind != 'summary':
        args += ['--' + kind]
    flags = (['--sort-diff'] if case['sort_diff'] else []) + (['--sort-reverse'] if case['reverse'] else [])
    default = reports.table_and_csv(fn, *args)
    header = default[0]
    ncols = len(header) - 1
    if case['col'] == 'bad':
        bad = ['0', str(ncols + 1 + case['k']), str(-ncols - 1 - case['k']), 'no such column', header[0].lower(), '']
        spec = bad[case['k'] % len(bad)]
        if not default[1]:
            return ['empty']
        for fmt in ('table', 'csv'):
            r = cli.run(['--format', fmt, *args, *flags, '--sort', spec, fn])
            check(not r.exc and r.code not in (0, None), f'sort column {spec!r} accepted', repr(r))
            check(not r.out, f'report printed despite invalid sort column {spec!r}', repr(r))
            check(r.err.strip(), 'no error for an invalid sort column', repr(r))
            if spec.lstrip('-').isdigit() and spec != '0':
                check(f'1..{ncols}' in r.err and f'-{ncols}..-1' in r.err, 'valid range missing in the error', repr(r))
        return ['refused']
    idx = 1 + case['k'] % ncols
    spec = str(idx)
    if case['col'] == 'neg':
        spec = str(idx - ncols - 1)
    elif case['col'] == 'name':
        unique = [i for i in range(1, ncols + 1) if header.count(header[i]) == 1]
        if not unique:
            return ['no unique column name']
        idx = unique[case['k'] % len(unique)]
        spec = header[idx]
    got = reports.table_and_csv(fn, *args, *flags, '--sort', spec)
    same(got[0], header, 'columns after sorting')
    part = 1 if case['sort_diff'] and diff else 0
    labels = [case['col']]

    if kind == 'summary':
        def canon(rows):
            return sorted((t, c, sorted(s)) for t, c, s in reports.summary_groups(rows))

        same(canon(got[1]), canon(default[1]), 'rows after sorting')
        groups = reports.summary_groups(got[1])

        def value(cells, ti, section):
            used, ud = cli.parse_value(cells[0], diff)
            total, td = ti['size'], ti['size_diff']
            if not diff:
                ud = td = 0
            if idx == 1:
                return (used, ud)[part]
            if idx == 2:
                pct = reports.percent(used, total)
                return pct if not part else pct - reports.percent(used - ud, total - td)
            if section:
                return 0
            if idx == 3:
                return (total - used if total else 0, td - ud)[part]
            return (total, td)[part]

        if not (case['sort_diff'] and not diff):
            tol = 1e-9 if idx == 2 else 0
            types = [value(c, mm['memory_types'][t], False) for t, c, _ in groups]
            in_order(types, case, f'memory types by {spec}', tol)
            for t, _, secs in groups:
                in_order([value(c, mm['memory_types'][t], True) for _, c in secs], case, f'sections of {t} by {spec}', tol)
    else:
        same(sorted(got[1]), sorted(default[1]), 'rows after sorting')
        if not (case['sort_diff'] and not diff):
            in_order([cli.parse_value(r[idx], diff)[part] for r in got[1]], case, f'rows by {spec}')

    # JSON and tree: by size at every level
    js = reports.get_report(fn, 'json2', *args, *flags)
    key = 'size_diff' if case['sort_diff'] else 'size'
    if kind == 'summary':
        types = mm['memory_types']
        ukey = 'used_diff' if case['sort_diff'] else 'used'
        in_order([types[x['name']][ukey] for x in js['layout']], case, 'memory types of the JSON summary')
        for x in js['layout']:
            secs = types[x['name']]['sections']
            shown = {}
            for s, si in secs.items():
                shown.setdefault(reports.display(s, si, opts), []).append(si)
            if all(len(v) == 1 for v in shown.values()):
                in_order([shown[p][0][key] for p in x['parts']], case, 'parts of the JSON summary')
    else:
        in_order([e[key] for e in js.values()], case, 'JSON entries')
        for e in js.values():
            in_order([t[key] for t in e['memory_types'].values()], case, 'memory types of a JSON entry')
            for t in e['memory_types'].values():
                in_order([s[key] for s in t['sections'].values()], case, 'sections of a JSON entry')
    tree = reports.get_report(fn, 'tree', *args, *flags)
    plain = reports.get_report(fn, 'tree', *args)
    a, b = reports.tree_children(tree[1], diff), reports.tree_children(plain[1], diff)
    same(reports.tree_sorted(a), reports.tree_sorted(b), 'tree after sorting')

    def walk(nodes):
        if not (case['sort_diff'] and not diff):
            in_order([n[2] if part else n[1] for n in nodes], case, 'tree')
        for n in nodes:
            walk(n[5])

    walk(a)
    return labels


def nontrivial(case):
    n = sum(1 for o in case['cur']['osecs'] for s in fw.counted_isecs(o) if s['size'])
    return n >= 3 and len(fw.counted_names(case['cur'])) >= 2
