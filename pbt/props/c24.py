"""C24: names are shown as they are."""

RULE = """
Random firmware whose archives, object files, input sections, symbols and directory have names of arbitrary printable
characters (markup, quotes, commas, separators, escapes, wide and combining characters), shown in every format and
compared with the reference report cell by cell. Non-trivial: at least one shown name holds a character that is
special in one of the formats.
"""

import os

from .. import cli, fw, oracle, render, reports
from ..core import check, same
from ..gen import ARCHIVES, ISECS, OBJECTS, SYMS, balanced, composite, wild

ALPHABET = 'abzAZ019_-+.~@#$%^&={}[]<>,;:!?|*\'"éßЖ中🎉\u0301/\\ ()`'
MARKUP = ['[bold]', '[/bold]', '[/]', '[red]', '[link=http://x]', '[0]', '[', ']', '\\[', ':smile:', '"', '""', "'", ',', ';', '\\', '\\n', '\\t',
          '{}', '{0}', '%s', '%', '|', '<b>', '&amp;', '#', '//', ' / ', ' -> ', '0x10', '1,2', '=1+1', '@', '(', ')', '--', '*', '?', '\\u0041',
          '🎉', '中', 'é', 'e\u0301', '[bold red]', '[on blue]', '[@click=x]', '[not a tag]', '\\\\[', '[/red]']  # fmt: skip
SPECIAL = set('[]"\',;:\\{}%|<>&#/=@()*?`')


def gen_name(d, exclude='', end=''):
    if d.chance(50):
        s = ''.join(d.weighted((2, d.pick(MARKUP)), (1, 'x'), (1, d.pick('abc_.'))) for _ in range(d.int(1, 4)))
    else:
        s = wild(d, maxlen=12, alphabet=ALPHABET)
    s = ''.join(c for c in s if c not in exclude).strip() or 'x'
    s += end
    while '/ ' in s:
        s = s.replace('/ ', '/')  # a table cannot show the space
    if s.endswith('/') or s[0] == '\u0301':
        s = 'x' + s + 'x'
    return s


def gen_member(d):
    s = gen_name(d, end=d.pick(['', '.o', '.c.obj']))
    if not balanced(s) or s.endswith('/'):
        s = s.replace('(', '_').replace(')', '_')
    return s


def gen_exe(d):
    """Object file outside of an archive; the last pair of parentheses would be read as a member name."""
    return gen_name(d, end='.o')


def rename_sections(d, case):
    """Output sections get odd names, in the map and in the ELF file."""
    names = {}
    for o in case['osecs']:
        if not o['addr'] or o['name'].startswith(fw.EXT_PREFIX) or d.chance(40):
            continue
        new = '.' + gen_name(d, exclude=' \u0301') + d.weighted((2, ''), (1, '.'), (1, '.' + d.pick('ab') + '..'))
        if not case['elf'] or d.chance(30):
            new += d.pick(['.text', '.data', '.bss', 'noinit'])
        if new in [p['name'] for p in case['osecs']] or new in names.values() or fw.never_counted(o['name']) or fw.never_counted(new):
            continue
        names[o['name']] = new
    for o in case['osecs']:
        o['name'] = names.get(o['name'], o['name'])
    for s in (case['elf'] or {'secs': []})['secs']:
        s[0] = names.get(s[0], s[0])


@composite
def gen(d):
    archives = [gen_name(d, end='.a') for _ in range(d.int(1, 3))] + d.sublist(ARCHIVES, 0, 2)
    objects = [gen_member(d) for _ in range(d.int(1, 3))] + d.sublist(OBJECTS, 0, 1)
    isecs = ['.' + gen_name(d, exclude=' \u0301') for _ in range(d.int(1, 3))] + d.sublist(ISECS, 0, 2)
    syms = [gen_name(d) for _ in range(d.int(1, 4))] + d.sublist(SYMS, 0, 2)
    if d.chance(6):
        # names of C++ templates can be very long
        names = d.pick([archives, objects, isecs, syms])
        names.append('.' * (names is isecs) + '_ZN' + d.pick(['3fooILi5EE', 'lib/x', '[ab]']) * d.int(10, 300) + 'E')
    pool = (archives, objects, isecs)
    diff = d.chance(20)
    kw = {'osecs': 4, 'regions': 3, 'pool': pool, 'syms': syms, 'unknown': False, 'rich': d.chance(50), 'gap': False}
    case = fw.gen_firmware(d, elf=d.chance(80), **kw)
    if d.chance(50):
        rename_sections(d, case)
    exe = [gen_exe(d) for _ in range(2)]
    for o in case['osecs']:
        for x in o['e']:
            if x[0] == 'i' and x[4] == fw.EXE and d.chance(70):
                x[5] = d.pick(exe)
    if case['elf'] and d.chance(70):
        for s in case['elf']['syms']:
            s[0] = s[0].replace(' ', '')  # names in the cross reference table end at a space
        case['crt'] = fw.gen_crt(d, case)
    ref = fw.gen_firmware(d, elf=bool(case['elf']), **{**kw, 'chip': case['chip']}) if diff else None
    if ref and d.chance(30):
        rename_sections(d, ref)
    return {
        'fw': case,
        'ref': ref,
        'opts': reports.gen_opts(d),
        'dir': gen_name(d, exclude='/') if d.chance(70) else 'case',
        'stem': gen_name(d, exclude='/') if d.chance(50) else 'app',
        'pick': d.int(0, 20),
    }


def strategy(tier):
    return gen()


def judge(case):
    opts = case['opts']
    d = os.path.normpath(cli.fresh_dir() + '/d' + case['dir'])
    stem = case['stem'] if case['stem'] not in ('.', '..') and '.' not in case['stem'] else 'app'
    fn = render.project(case['fw'], d, stem=stem)
    args = reports.argv(opts)
    diff = bool(case['ref'])
    base = oracle.memmap(case['fw'], fn)
    refmap = None
    if diff:
        ref_fn = render.project(case['ref'], d + '/ref', stem=stem)
        refmap = oracle.memmap(case['ref'], ref_fn)
        args += ['--diff', ref_fn]
    mm = oracle.report_map(base, opts, refmap)
    labels = ['diff' if diff else 'single']

    # raw
    raw = reports.get_report(fn, 'raw', *args)
    same(raw, mm, 'raw report')
    mm = raw  # with its order of sections
    keep = not diff or opts['show_unchanged']

    # summary
    header, rows = reports.table_and_csv(fn, *args)
    reports.check_summary(header, rows, mm, opts, diff)

    # per archive, file and symbol
    names = sorted({ai['abbrev_name'] for ti in mm['memory_types'].values() for si in ti['sections'].values() for ai in si['archives'].values()
                    if any(oi['symbols'] for oi in ai['object_files'].values())})  # fmt: skip
    name = names[case['pick'] % len(names)] if names else None
    for kind in ('archives', 'files', 'symbols'):
        if kind == 'symbols' and (name is None or name.startswith('-')):
            continue
        a = args + reports.kind_args(kind, name)
        entries = oracle.summary(mm, kind, opts['unify'], name if kind == 'symbols' else None)
        if not keep:
            entries = oracle.unchanged_removed(entries)
        same(reports.get_report(fn, 'json2', *a), entries, f'JSON report per {kind}')
        header, rows = reports.table_and_csv(fn, *a)
        reports.check_entries(header, rows, kind, entries, mm, opts, diff)

    # tree
    if name is not None and not name.startswith('-'):
        _, kids = reports.get_report(fn, 'tree', *args, '--archive-details', name)
        got = reports.tree_children(kids, diff)
        want = reports.expected_tree(mm, opts, 4, name, diff)
    else:
        _, kids = reports.get_report(fn, 'tree', *args)
        got = reports.tree_children(kids, diff)
        want = reports.expected_tree(oracle.report_map(oracle.memmap(case['fw'], fn, False), opts, refmap and oracle.memmap(case['ref'], ref_fn, False)), opts, 4, None, diff)
    same(reports.tree_sorted(got), reports.tree_sorted(want), 'tree')

    # paths in messages
    if diff:
        r = cli.ok(['--archives', *args, fn])
        check(fn in r.err and ref_fn in r.err, 'project paths are not shown', r.err)
    r = cli.run([d + '/none.map'])
    check(not r.exc and r.code != 0 and not r.out, 'missing map file', repr(r))
    check(d + '/none.map' in r.err or repr(d + '/none.map') in r.err, 'path of a missing map file is not shown', repr(r))

    # dependencies
    if case['fw']['elf'] and case['fw']['crt']:
        plain = oracle.report_map(base, opts)
        sizes = {a: e['size'] for a, e in oracle.summary(plain, 'archives').items()}
        want = oracle.dependencies(case['fw'], sizes, False, opts['unify'])
        a = reports.argv(opts) + ['--archive-dependencies', '--dep-symbols']
        same(reports.get_report(fn, 'json2', *a), want, 'JSON dependencies')
        same(reports.get_report(fn, 'raw', *a), want, 'raw dependencies')
        exp = sorted(
            [reports.display(x, e, opts), str(e['size']), reports.display(y, f, opts), str(f['size']), sorted(f['symbols'])]
            for x, e in want.items()
            for y, f in e['archives'].items()
        )
        for fmt in ('table', 'csv'):
            _, rows = reports.get_report(fn, fmt, *a)
            got, cur = [], None
            for row in rows:
                row = [c.strip() for c in row]
                if fmt == 'table' and not any(row[:4]):
                    got[-1][4].append(row[4])
                    continue
                cur = row[:2] if row[0] else cur
                got.append([*cur, *row[2:4], row[4].split('\n')])
            same(sorted([*g[:4], sorted(g[4])] for g in got), exp, f'dependencies ({fmt})')
        _, kids = reports.get_report(fn, 'tree', *a)
        got = []
        for x, deps in kids:
            for y, syms in deps:
                got.append([*x.rsplit(' ', 1), *y.rsplit(' ', 1), sorted(s[0] for s in syms)])
        same(sorted(got), exp, 'dependencies (tree)')
        nodes, edges = reports.get_report(fn, 'dot', *a)
        want_nodes = {}
        for x, e in want.items():
            want_nodes[x] = f'{reports.display(x, e, opts)} ({e["size"]})'
            for y, f in e['archives'].items():
                want_nodes[y] = f'{reports.display(y, f, opts)} ({f["size"]})'
        same({n: v.get('label') for n, v in nodes.items()}, want_nodes, 'nodes of the graph')
        same(
            sorted((x, y, sorted(z.split('\n'))) for x, y, z in edges),
            sorted((x, y, sorted(f['symbols'])) for x, e in want.items() for y, f in e['archives'].items()),
            'edges of the graph',
        )
        labels.append('dependencies')
    return labels


def nontrivial(case):
    names = {n for o in case['fw']['osecs'] for x in o['e'] if x[0] == 'i' for n in (os.path.basename(x[4]), os.path.basename(x[5]))}
    return any(SPECIAL & set(n) for n in names if n != fw.EXE)
