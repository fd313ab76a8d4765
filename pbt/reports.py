"""Reading reports, and what they should hold."""

import re
from fractions import Fraction

from . import cli
from .core import check, fail, same

SUMMARY_HEADER = ['Memory Type/Section', 'Used [bytes]', 'Used [%]', 'Remain [bytes]', 'Total [bytes]']
FIRST = {'archives': 'Archive File', 'files': 'Object File', 'symbols': 'Symbol'}
DEFAULTS = {
    'show_unused': False, 'use_flash_size': False, 'unify': False, 'no_abbrev': False, 'show_unchanged': False,
}  # fmt: skip


def gen_opts(d, **fixed):
    """Options which select what is shown."""
    opts = {
        'show_unused': d.chance(35),
        'use_flash_size': d.chance(35),
        'unify': d.chance(30),
        'no_abbrev': d.chance(35),
        'show_unchanged': d.chance(40),
    }
    opts.update(fixed)
    return opts


def argv(opts, *keys):
    keys = keys or ('show_unused', 'use_flash_size', 'unify', 'no_abbrev', 'show_unchanged')
    return ['--' + k.replace('_', '-') for k in keys if opts.get(k)]


def abbreviated(opts):
    return opts['unify'] or not opts['no_abbrev']


def display(name, info, opts):
    return info['abbrev_name'] if abbreviated(opts) else name


def get_report(fn, fmt, *args):
    r = cli.ok(['--format', fmt, *args, fn])
    if fmt in ('json2', 'raw'):
        return cli.parse_json(r.out)
    if fmt == 'csv':
        return cli.parse_csv(r.out)
    if fmt == 'table':
        return cli.parse_table(r.out)[1:]
    if fmt == 'tree':
        return cli.parse_tree(r.out)
    return cli.parse_dot(r.out)


def table_and_csv(fn, *args):
    """Both reports; they must agree cell by cell."""
    th, tr = get_report(fn, 'table', *args)
    ch, cr = get_report(fn, 'csv', *args)
    same(ch, th, 'columns of CSV and table')
    same([[c.strip() for c in row] for row in cr], [[c.strip() for c in row] for row in tr], 'rows of CSV and table')
    return th, tr


# ---------------------------------------------------------------- summary


def percent(a, b):
    return Fraction(100 * a, b) if b else Fraction(0)


def close(shown, exact):
    """Rounded to two decimals (the last digit may fall either way on a tie)."""
    return abs(Fraction(str(shown)) - exact) <= Fraction(1, 200) + Fraction(1, 10**6)


def summary_groups(rows):
    """[(type, cells, [(section, cells)])]"""
    res = []
    for row in rows:
        if row[0].startswith(' '):
            check(res, 'section before any memory type', repr(row))
            res[-1][2].append((row[0].strip(), row[1:]))
        else:
            res.append((row[0], row[1:], []))
    return res


def summary_values(mm, opts, diff):
    """{type: (info, {section: ...})} of what the summary must show; diff: unchanged entries left out"""
    keep = not diff or opts['show_unchanged']
    res = {}
    for t, ti in mm['memory_types'].items():
        if not keep and not ti['used_diff']:
            continue
        res[t] = (ti, {s: si for s, si in ti['sections'].items() if keep or si['size_diff']})
    return res


def check_cells(cells, used, total, diff, what, section):
    """used, total: (value, difference)"""
    check(len(cells) == 4, 'number of cells', repr(cells))
    v = cli.parse_value(cells[0], diff)
    same(v, (used[0], used[1] if diff else None), f'used size of {what}')
    if not total[0]:
        same(cells[1:], ['', '', ''], f'figures of {what}, whose total is not known')
        return
    v = cli.parse_value(cells[1], diff)
    check(v is not None, f'no percentage for {what}')
    pct = percent(used[0], total[0])
    check(close(v[0], pct), f'percentage of {what}: {v[0]} instead of {float(pct)}')
    if diff:
        ref = percent(used[0] - used[1], total[0] - total[1])
        check(close(v[1], pct - ref), f'difference of the percentages of {what}: {v[1]} instead of {float(pct - ref)}')
    if section:
        same(cells[2:], ['', ''], f'remaining and total size of {what}')
        return
    v = cli.parse_value(cells[2], diff)
    same(v, (total[0] - used[0], total[1] - used[1] if diff else None), f'remaining size of {what}')
    v = cli.parse_value(cells[3], diff)
    same(v, (total[0], total[1] if diff else None), f'total size of {what}')


def check_summary(header, rows, mm, opts, diff=False):
    """The rows show exactly the map mm (in any order)."""
    same(header, SUMMARY_HEADER, 'columns of the summary')
    want = summary_values(mm, opts, diff)
    groups = summary_groups(rows)
    same(sorted(g[0] for g in groups), sorted(want), 'memory types of the summary')
    for t, cells, secs in groups:
        ti, sections = want[t]
        check_cells(cells, (ti['used'], ti['used_diff']), (ti['size'], ti['size_diff']), diff, t, False)
        left = [(display(s, si, opts), si) for s, si in sections.items()]
        for name, scells in secs:
            err = None
            for k, (n, si) in enumerate(left):
                if n != name:
                    continue
                try:
                    check_cells(scells, (si['size'], si['size_diff']), (ti['size'], ti['size_diff']), diff, f'{t} {name}', True)
                except Exception as e:
                    err = e
                    continue
                del left[k]
                break
            else:
                if err:
                    raise err
                fail(f'unexpected section {name} of {t}', repr(list(sections)), repr(secs))
        check(not left, f'sections missing in {t}: {[n for n, _ in left]}', repr(secs))


def check_image_size(err, mm, diff=False):
    """The message with the image size."""
    m = re.findall(r'Total image size: (\d+)(?: +([+-]?\d+))? bytes', err)
    check(len(m) == 1, 'no message about the image size', err)
    want = (mm['image_size'], mm['image_size_diff'] if diff else None)
    same((int(m[0][0]), int(m[0][1]) if m[0][1] else None), want, 'image size in the message')


# ---------------------------------------------------------------- reports per archive, file, symbol


def kind_args(kind, archive):
    return {'archives': ['--archives'], 'files': ['--files'], 'symbols': ['--archive-details', archive]}[kind]


def entry_columns(mm, opts):
    """[('type', name) or ('sec', type, section)], and their headers, in the order of the memory map"""
    cols, head = [], []
    for t, ti in mm['memory_types'].items():
        cols.append((t, None))
        head.append(t)
        for s, si in ti['sections'].items():
            cols.append((t, s))
            head.append(display(s, si, opts))
    return cols, head


def entry_value(entry, col, key='size'):
    if col is None:
        return entry[key]
    t, s = col
    x = entry['memory_types'][t]
    return x[key] if s is None else x['sections'][s][key]


def entry_row(name, entry, cols, diff):
    row = [name]
    for c in [None, *cols]:
        row.append((entry_value(entry, c), entry_value(entry, c, 'size_diff') if diff else None))
    return row


def check_entries(header, rows, kind, entries, mm, opts, diff=False):
    """The rows show exactly the entries (in any order)."""
    cols, head = entry_columns(mm, opts)
    if not entries:
        check(not rows, 'rows in an empty report', repr(rows))
        same(header, [FIRST[kind], 'Total Size'], 'columns of an empty report')
        return
    same(header, [FIRST[kind], 'Total Size', *head], 'columns')
    want = sorted(
        (entry_row(display(n, e, opts), e, cols, diff) for n, e in entries.items()), key=lambda r: (r[0], str(r[1:]))
    )
    got = sorted(
        ([r[0], *(cli.parse_value(c, diff) for c in r[1:])] for r in rows), key=lambda r: (r[0], str(r[1:]))
    )
    same(got, want, f'rows of the report per {kind}')


# ---------------------------------------------------------------- tree


TREE = re.compile(r'(.*) (\d+)')
TREE_TYPE = re.compile(r'(.*?) (\d+)(?: / (\d+))?')
TREE_DIFF = re.compile(r'(.*) (\d+) +([+-]?\d+)')
TREE_TYPE_DIFF = re.compile(r'(.*?) (\d+) +([+-]?\d+)(?: / (\d+) +([+-]?\d+))?')


def tree_label(label, diff, top=True):
    """-> (name, size, diff, total, total diff)"""
    m = {(0, 0): TREE, (0, 1): TREE_TYPE, (1, 0): TREE_DIFF, (1, 1): TREE_TYPE_DIFF}[bool(diff), bool(top)].fullmatch(label)
    check(m, f'unexpected tree label {label!r}')
    g = list(m.groups())
    nums = [None if x is None else int(x) for x in g[1:]]
    if not diff:
        return g[0], nums[0], None, nums[1] if top else None, None
    return g[0], nums[0], nums[1], nums[2] if top else None, nums[3] if top else None


LEVELS = ['memory_types', 'sections', 'archives', 'object_files', 'symbols']


def tree_children(nodes, diff, top=True):
    return [(*tree_label(label, diff, top), tree_children(kids, diff, False)) for label, kids in nodes]


def expected_tree(mm, opts, depth=4, archive=None, diff=False):
    """Nested expected nodes in the shape of tree_children()."""
    keep = not diff or opts['show_unchanged']

    def level(items, k):
        res = []
        for name, info in items.items():
            size, sdiff = (info['used'], info['used_diff']) if k == 0 else (info['size'], info['size_diff'])
            if not keep and not sdiff:
                continue
            if LEVELS[k] == 'archives' and archive is not None and info['abbrev_name'] != archive:
                continue
            kids = level(info[LEVELS[k + 1]], k + 1) if k < depth else []
            if k == 0:
                total = info['size'] or None
                tdiff = info['size_diff'] if total and diff else None
                shown = name
            else:
                total = tdiff = None
                shown = display(name, info, opts)
            res.append((shown, size, sdiff if diff else None, total, tdiff, kids))
        return res

    return level(mm['memory_types'], 0)


def tree_sorted(nodes):
    """Canonical order, to compare trees regardless of the order of siblings."""
    res = [(*n[:5], tree_sorted(n[5])) for n in nodes]
    return sorted(res, key=repr)


def ordered(values, descending, tolerance=0):
    for a, b in zip(values, values[1:]):
        if (a < b - tolerance) if descending else (a > b + tolerance):
            return False
    return True
