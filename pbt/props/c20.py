"""C20: link-time-optimised code."""

RULE = """
Random firmware with many input sections without archive, symbols described by generated DWARF information, and
component directories that nest and share prefixes; the memory map with and without LTO handling compared with a
reference that cuts the input sections at the attributed symbols. Non-trivial: at least one symbol moves to a
component.
"""

import copy
import json
import re

from .. import cli, fw, oracle, render, reports
from ..core import check, same
from ..dwarfgen import Encoder, gen_dwarf
from ..gen import EXE_OBJECTS, composite

EXE = fw.EXE
DIRS = ['/src/main', '/src/main/sub', '/src/mainx', '/src/main x', '/idf/components/freertos', '/idf/components', '/idf/components/freertos/port',
        '/src/mai', '/SRC/main', '/src/ma[i]n']  # fmt: skip
LIBS = ['esp-idf/main/libmain.a', 'esp-idf/freertos/libfreertos.a', 'esp-idf/new/libnew.a', 'esp-idf/one/libcommon.a', 'libtop.a', 'esp-idf/a b/lib(x).a']
VIEWS = ['--archives', '--files', 'raw', 'details', 'tree', 'tree --archives', 'tree --files', 'tree details', 'deps', 'summary']
OPTS = {'no_abbrev': True, 'show_unused': True, 'use_flash_size': True, 'unify': False, 'show_unchanged': False}
FILES = ['main.c', 'x y.c', 'sub/tasks.cpp', 'deep/er/main.c', '[m].c']


def odd(d, path):
    """At times another spelling of the same path."""
    if not d.chance(6):
        return path
    at = [k for k, c in enumerate(path) if c == '/' and k]
    k = d.pick(at)
    return path[:k] + d.pick(['//', '/./', '///', '/././']) + path[k + 1 :]


def plain(path):
    return re.sub('/(?:[.]?/)+', '/', path)


@composite
def gen(d):
    case = fw.gen_firmware(d, elf=True, osecs=5, regions=4, rich=d.chance(60), gap=d.chance(50), unknown=False, alloc=95, crt=d.chance(30))
    share = d.pick([50, 85, 95])
    for o in case['osecs']:
        for x in o['e']:
            if x[0] == 'i' and d.chance(share):
                x[4], x[5] = EXE, d.pick(EXE_OBJECTS)
    # symbols which do not overlap
    keep, plan, end = [], [], 0
    for s in sorted(case['elf']['syms'], key=lambda s: s[1]):
        if s[3] in (1, 2) and s[2]:
            if s[1] < end:
                continue
            end = s[1] + s[2]
            if d.chance(90) and all(p[0] != s[1] for p in plan):
                plan.append([s[1], 'FUNC' if s[3] == 2 else 'OBJECT'])
        keep.append(s)
    if keep and d.chance(25):
        # second names of the same bytes
        for s in d.sublist(keep, 1, 3):
            if s[3] in (1, 2) and s[2]:
                keep.append([s[0] + d.pick(['_alias', '.1', 'C2Ev', '']), *s[1:4], d.int(0, 2), *s[5:]])
    case['elf']['syms'] = d.shuffle(keep)
    case['elf']['secs'] = [s for s in case['elf']['secs'] if not s[0].startswith('.debug')]
    comps = {}
    libs = list(LIBS)
    for k, path in enumerate(d.sublist(DIRS, 1, 5)):
        lib = libs.pop(d.int(0, len(libs) - 1)) if libs else 'libx.a'
        comps[f'c{k}'] = {
            'dir': odd(d, path) + ('/' if d.chance(5) else ''),
            'file': '' if d.chance(8) else '/b/' + lib,
            'type': 'LIBRARY',
        }
    sources = [odd(d, f'{plain(c["dir"]).rstrip("/")}/{d.pick(FILES)}') for c in comps.values() for _ in range(2)]
    sources += ['/elsewhere/x.c', '<artificial>', d.pick(DIRS) + '/z.c', d.pick(DIRS) + 'z.c', d.pick(DIRS)]
    dwarf, attr = gen_dwarf(d, case['elf']['cls'], plan, sources, units=(1, 4), noise=1)
    return {
        'fw': case,
        'comps': comps,
        'dwarf': dwarf if not d.chance(3) else None,
        'attr': sorted([a, s] for a, s in attr.items()),
        'opt': d.weighted((6, True), (4, None), (1, False)),
        'sdk': d.weighted((2, None), (8, True), (1, False), (1, {})),
        'missing': d.weighted((30, None), (1, 'elf'), (1, 'desc')),
        'view': d.pick(VIEWS),
        'pick': d.int(0, 9),
        'grow': [d.int(0, 9), d.weighted((3, 1), (1, d.int(1, 100)))] if d.chance(10) else None,
    }


def strategy(tier):
    return gen()


def component(source, comps):
    """The archive of the component whose directory holds the source file."""
    best = None
    for c in comps.values():
        path = plain(c['dir']).rstrip('/')
        if c['file'] and plain(source).startswith(path + '/') and (best is None or len(path) > len(best[0])):
            best = (path, c['file'][len('/b/') :])
    return best and best[1]


def expand(case):
    """The firmware with its input sections cut at the attributed symbols."""
    src = dict(map(tuple, case['attr']))
    moved = []
    for name, value, size, typ, _b, _v, shndx in case['fw']['elf']['syms']:
        if typ in (1, 2) and size and shndx != fw.SHN_ABS and value in src:
            lib = component(src[value], case['comps'])
            if lib:
                moved.append((value, size, name, lib, src[value].rsplit('/', 1)[-1]))
    moved = sorted({m[0]: m for m in moved}.values())
    new = copy.deepcopy(case['fw'])
    n = 0
    for o in new['osecs']:
        e = []
        for s in fw.counted_isecs(o):
            if not s['size']:
                continue
            pos, end = s['addr'], s['addr'] + s['size']
            if s['archive'] == EXE:
                for value, size, name, lib, file in moved:
                    if not pos <= value < end:
                        continue
                    n += 1
                    if value > pos:
                        e.append(['i', s['name'], pos, value - pos, EXE, s['object'], 0])
                    e.append(['i', name, value, min(size, end - value), lib, file, 0])
                    pos = value + min(size, end - value)
            if pos < end:
                e.append(['i', s['name'], pos, end - pos, s['archive'], s['object'], 0])
        o['e'] = e
    return new, n


def grown(case):
    """The case with a symbol that reaches over the end of its input section, which holds no symbol behind it"""
    syms = case['fw']['elf']['syms']
    isecs = sorted((s['addr'], s['size'], s['archive']) for o in case['fw']['osecs'] if o['name'] in fw.counted_names(case['fw']) for s in fw.counted_isecs(o) if s['size'])
    if any(a[0] + a[1] > b[0] for a, b in zip(isecs, isecs[1:])):
        return None
    found = []
    for k, (_name, value, size, typ, *_) in enumerate(syms):
        for addr, length, archive in isecs:
            if typ in (1, 2) and size and archive == EXE and addr <= value < addr + length:
                if not any(j != k and s[3] in (1, 2) and value <= s[1] < addr + length for j, s in enumerate(syms)):
                    found.append((k, addr + length - value))
    if not found:
        return None
    k, room = found[case['grow'][0] % len(found)]
    syms = [list(s) for s in syms]
    syms[k][2] = room + case['grow'][1]
    return {**case, 'fw': {**case['fw'], 'elf': {**case['fw']['elf'], 'syms': syms}}}, syms[k][0]


def write(case, d):
    enc = Encoder(case['dwarf'], case['fw']['elf']['cls'], case['fw']['elf']['end']) if case['dwarf'] else None
    fn = d + '/app.map'
    render.write(fn, render.map_text(case['fw']))
    if case['missing'] != 'elf':
        render.write(d + '/app.elf', render.elf_bytes(case['fw']['elf'], enc.sections() if enc else ()))
    if case['missing'] != 'desc':
        desc = {'version': '1.2', 'app_elf': 'app.elf', 'target': case['fw']['chip'], 'build_dir': '/b', 'build_component_info': case['comps']}
        render.write(d + '/project_description.json', json.dumps(desc))
    sdk = case['sdk']
    if sdk is not None:
        render.write(d + '/config/sdkconfig.json', json.dumps(sdk if isinstance(sdk, dict) else {'COMPILER_LTO_LINKTIME': sdk}))
    return fn


def expected(case, fn):
    """(memory map without LTO handling, expected memory map, active, number of symbols moved)"""
    wanted = case['opt'] if case['opt'] is not None else case['sdk'] is True
    active = wanted and not case['missing'] and case['dwarf'] is not None
    base = case['fw'] if not case['missing'] else {**case['fw'], 'elf': None}
    plain = oracle.memmap(base, fn)
    want, n = plain, 0
    if active:
        new, n = expand(case)
        want = oracle.memmap(new, fn)
    return plain, want, active, n


def judge(case):
    d = cli.fresh_dir()
    fn = write(case, d)
    plain, want, active, n = expected(case, fn)
    got, _ = cli.get(fn, use_dwarf=case['opt'])
    same(got['memory_types'], want['memory_types'], 'memory map ' + ('with' if active else 'without') + ' LTO handling')
    same({k: v for k, v in got.items() if k != 'memory_types'}, {k: v for k, v in plain.items() if k != 'memory_types'}, 'memory map')
    # no archive but the components and '(exe)' may change
    libs = {c['file'][3:] for c in case['comps'].values()} | {EXE}
    for t, ti in plain['memory_types'].items():
        for s, si in ti['sections'].items():
            now = got['memory_types'][t]['sections'][s]
            same(now['size'], si['size'], f'size of section {s}')
            same(
                {a: x for a, x in now['archives'].items() if a not in libs},
                {a: x for a, x in si['archives'].items() if a not in libs},
                f'other archives of section {s}',
            )
            same(sum(a['size'] for a in now['archives'].values()), sum(a['size'] for a in si['archives'].values()), f'archives of section {s}')
    # command line
    flags = {True: ['--lto'], False: ['--no-lto'], None: []}[case['opt']]
    view(case, fn, want, oracle.memmap(expand(case)[0] if active else {**case['fw'], 'elf': None if case['missing'] else case['fw']['elf']}, fn, False), flags)
    if case.get('grow') and active:
        bad = grown(case)
        if bad:
            fn = write(bad[0], cli.fresh_dir())
            want = oracle.memmap(expand(bad[0])[0], fn, False)
            r = cli.ok(['--format', 'json2', '--files', '--show-unused', '--use-flash-size', *flags, fn])
            same(cli.parse_json(r.out), oracle.summary(want, 'files'), 'files with a symbol that reaches over the end of its input section')
            r = cli.run(['--format', 'raw', *flags, fn])
            check(not r.exc and r.code not in (0, None), 'a symbol that does not fit its input section is accepted', repr(r))
            check(bad[1] in r.err, 'the error does not name the symbol that does not fit', repr(r))
            return ['symbol that does not fit']
    return ['expanded' if n else 'active, nothing to expand' if active else 'inactive']


def view(case, fn, want, coarse, flags):
    """A report of the command line; coarse: the memory map without symbols"""
    what = case['view']
    all_ = ['--show-unused', '--use-flash-size', *flags]
    if what == 'raw':
        same(cli.raw(fn, *all_), want, 'raw report')
        return
    if what == 'summary':
        a = cli.parse_json(cli.ok(['--format', 'json2', *all_, fn]).out)
        same(a, cli.parse_json(cli.ok(['--format', 'json2', '--show-unused', '--use-flash-size', '--no-lto', fn]).out), 'summary with and without LTO handling')
        return
    names = sorted({x['abbrev_name'] for x in oracle.summary(want, 'archives').values()})
    names = [n for n in names if not n.startswith('-')]
    pick = names[case.get('pick', 0) % len(names)] if names else None
    if what == 'details' and pick:
        entries = oracle.summary(want, 'symbols', archive=pick)
        if entries:
            r = cli.ok(['--format', 'json2', '--archive-details', pick, *all_, fn])
            same(cli.parse_json(r.out), entries, f'symbols of {pick}')
    elif what == 'deps' and not case['missing'] and case['fw'].get('crt') is not None:
        sizes = {a: e['size'] for a, e in oracle.summary(want, 'archives').items()}
        deps = oracle.dependencies(case['fw'], sizes)
        for fmt in ('raw', 'json2'):
            got = cli.parse_json(cli.ok(['--format', fmt, '--archive-dependencies', *all_, fn]).out)
            got = {a: {**e, 'archives': {b: {**f, 'symbols': sorted(f['symbols'])} for b, f in e['archives'].items()}} for a, e in got.items()}
            exp = {a: {**e, 'archives': {b: {**f, 'symbols': sorted(f['symbols'])} for b, f in e['archives'].items()}} for a, e in deps.items()}
            same(got, exp, f'dependencies ({fmt})')
    elif what.startswith('tree'):
        more, mm, depth, archive = what.split()[1:], coarse, 4, None
        if more == ['--archives']:
            depth = 2
        elif more == ['--files']:
            depth = 3
        elif more == ['details']:
            if not pick:
                return
            more, mm, archive = ['--archive-details', pick], want, pick
        _root, kids = reports.get_report(fn, 'tree', '--no-abbrev', *more, *all_)
        got = reports.tree_children(kids, False)
        same(reports.tree_sorted(got), reports.tree_sorted(reports.expected_tree(mm, OPTS, depth, archive)), what)
    elif what.startswith('--'):
        r = cli.ok(['--format', 'json2', what, *all_, fn])
        same(cli.parse_json(r.out), oracle.summary(want, what[2:]), f'report {what}')


def nontrivial(case):
    wanted = case['opt'] if case['opt'] is not None else case['sdk'] is True
    return bool(wanted and not case['missing'] and case['dwarf'] and expand(case)[1])


