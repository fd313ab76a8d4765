"""What the tool should report, computed from the firmware description alone."""

import copy
import os

from . import chips
from .fw import EXT_PREFIX, canonical, counted_isecs, counted_names, never_counted, pieces  # noqa: F401

STT_OBJECT, STT_FUNC = 1, 2


def totals(case):
    """Memory type -> bytes given to it by the regions."""
    res = {t[0]: 0 for t in chips.CHIPS[case['chip']]}
    ranges = {}
    for p in pieces(case['chip'], case['regions']):
        tname, off, n = canonical(p)
        ranges.setdefault(tname, []).append((off, off + n))
    for tname, rs in ranges.items():
        points = sorted({x for r in rs for x in r})
        for a, b in zip(points, points[1:]):
            if any(lo <= a and b <= hi for lo, hi in rs):
                res[tname] += b - a
    return res


def ext_type(chip):
    for t in chips.CHIPS[chip]:
        if t[0] in chips.EXT_RAM:
            return t[0]
    return None


def cut(case, osec, ps=None):
    """Parts of an output section: [(type or None, section name, start, size)]"""
    ext = ext_type(case['chip'])
    if ext and osec['name'].startswith(EXT_PREFIX):
        return [(ext, osec['name'], osec['addr'], osec['size'])]
    if ps is None:
        ps = pieces(case['chip'], case['regions'])
    res = []
    pos, end = osec['addr'], osec['addr'] + osec['size']
    while pos < end:
        hit = [p for p in ps if p[1] <= pos < p[1] + p[2]]
        if hit:
            p = hit[0]
            n = min(end, p[1] + p[2]) - pos
            res.append((p[0], osec['name'], pos, n))
            pos += n
            continue
        below = [p for p in ps if p[1] <= pos]
        above = [p for p in ps if p[1] > pos]
        if below and above:
            p = max(below, key=lambda p: p[1])
            res.append((p[0], osec['name'] + '_overflow', pos, end - pos))
        else:
            res.append((None, osec['name'], pos, end - pos))
        break
    return res


def abbrev_section(name):
    return '.' + name.split('.')[-1]


def base(name):
    return os.path.basename(name)


def isec_symbols(case, osecs):
    """Symbols of every counted input section: parallel to the list of (osec, isec) pairs."""
    pairs = [(o, s) for o in osecs for s in counted_isecs(o) if s['size']]
    res = []
    for o, s in pairs:
        syms = []
        if case.get('elf'):
            for name, value, size, typ, _bind, _vis, _shndx in case['elf']['syms']:
                if typ not in (STT_OBJECT, STT_FUNC) or not size:
                    continue
                if s['addr'] <= value < s['addr'] + s['size']:
                    syms.append((name + ('()' if typ == STT_FUNC else ''), value, size))
        if not syms:
            syms = [(s['name'], s['addr'], s['size'])]
        res.append((o, s, syms))
    return res


def clip(a, n, b, m):
    """Overlap of [a, a+n) and [b, b+m)"""
    return max(0, min(a + n, b + m) - max(a, b))


def item(abbrev, **kw):
    return {'abbrev_name': abbrev, 'size': 0, 'size_diff': 0, **kw}


def memory_types(case, load_symbols=True):
    """(memory_types as in memorymap.get(), dropped parts, overflow parts)"""
    res = {
        name: {'size': n, 'size_diff': 0, 'used': 0, 'used_diff': 0, 'sections': {}}
        for name, n in totals(case).items()
    }
    counted = counted_names(case)
    osecs = [o for o in case['osecs'] if o['name'] in counted]
    symbols = isec_symbols(case, osecs)
    ps = pieces(case['chip'], case['regions'])
    dropped, overflow = [], []
    for o in osecs:
        for tname, sname, start, size in cut(case, o, ps):
            if tname is None:
                dropped.append((sname, start, size))
                continue
            if sname != o['name']:
                overflow.append((o['name'], tname, start, size))
            mt = res[tname]
            mt['used'] += size
            sec = mt['sections'].setdefault(sname, item(abbrev_section(sname), archives={}))
            sec['size'] += size
            for o2, s, syms in symbols:
                if o2 is not o:
                    continue
                n = clip(s['addr'], s['size'], start, size)
                if not n:
                    continue
                ar = sec['archives'].setdefault(s['archive'], item(base(s['archive']), object_files={}))
                ar['size'] += n
                ob = ar['object_files'].setdefault(s['object'], item(base(s['object']), symbols={}))
                ob['size'] += n
                if not load_symbols:
                    continue
                for name, value, length in syms:
                    m = clip(value, length, start, size)
                    if m:
                        sy = ob['symbols'].setdefault(name, item(name))
                        sy['size'] += m
    return res, dropped, overflow


def image_size(case):
    if case.get('elf'):
        return sum(s[4] for s in case['elf']['secs'] if s[2] & 2 and s[1] == 1)
    counted = counted_names(case)
    return sum(o['size'] for o in case['osecs'] if o['name'] in counted and not o['name'].endswith(('.bss', 'noinit')))


def memmap(case, path, load_symbols=True):
    return {
        'version': '1.0',
        'target': case['chip'],
        'target_diff': '',
        'image_size': image_size(case),
        'image_size_diff': 0,
        'project_path': path,
        'project_path_diff': '',
        'memory_types': memory_types(case, load_symbols)[0],
    }


# ---------------------------------------------------------------- operations on memory maps

CHILD = {'memory_types': 'sections', 'sections': 'archives', 'archives': 'object_files', 'object_files': 'symbols'}


def level_keys(level):
    return ('size', 'used') if level == 'memory_types' else ('size',)


def diff_items(cur, ref, level):
    res = {}
    for name in list(cur) + [n for n in ref if n not in cur]:
        c, r = cur.get(name), ref.get(name)
        out = {}
        if level != 'memory_types':
            out['abbrev_name'] = (c or r)['abbrev_name']
        for k in level_keys(level):
            out[k] = c[k] if c else 0
            out[k + '_diff'] = out[k] - (r[k] if r else 0)
        child = CHILD.get(level)
        if child:
            out[child] = diff_items(c[child] if c else {}, r[child] if r else {}, child)
        res[name] = out
    return res


def diff(cur, ref):
    return {
        'version': cur['version'],
        'target': cur['target'],
        'target_diff': ref['target'],
        'image_size': cur['image_size'],
        'image_size_diff': cur['image_size'] - ref['image_size'],
        'project_path': cur['project_path'],
        'project_path_diff': ref['project_path'],
        'memory_types': diff_items(cur['memory_types'], ref['memory_types'], 'memory_types'),
    }


def merge_abbrev(items_list, level):
    """items_list: dictionaries of one level to be merged by abbreviated name"""
    groups = {}
    for items in items_list:
        for info in items.values():
            groups.setdefault(info['abbrev_name'], []).append(info)
    res = {}
    child = CHILD.get(level)
    for name, infos in groups.items():
        out = item(name)
        out['size'] = sum(i['size'] for i in infos)
        out['size_diff'] = sum(i['size_diff'] for i in infos)
        if child:
            out[child] = merge_abbrev([i[child] for i in infos], child)
        res[name] = out
    return res


def unify(mm):
    res = {k: v for k, v in mm.items() if k != 'memory_types'}
    res['memory_types'] = {}
    for name, info in mm['memory_types'].items():
        new = {k: v for k, v in info.items() if k != 'sections'}
        new['sections'] = merge_abbrev([info['sections']], 'sections')
        res['memory_types'][name] = new
    return res


def remove_unused(mm):
    res = {k: v for k, v in mm.items() if k != 'memory_types'}
    res['memory_types'] = {}
    for name, info in mm['memory_types'].items():
        new = {k: v for k, v in info.items() if k != 'sections'}
        new['sections'] = {k: v for k, v in info['sections'].items() if v['archives']}
        new['used'] = sum(s['size'] for s in new['sections'].values())
        if new['used']:
            res['memory_types'][name] = new
    return res


def hide_flash(mm):
    res = copy.deepcopy(mm)
    for name, info in res['memory_types'].items():
        if 'flash' in name.lower():
            info['size'] = 0
    return res


def shown(mm, opts):
    """The memory map a report is made of, given show_unused / use_flash_size (no diff, no unify)."""
    if not opts.get('show_unused'):
        mm = remove_unused(mm)
    if not opts.get('use_flash_size'):
        mm = hide_flash(mm)
    return mm


def report_map(mm, opts, ref=None):
    mm = shown(mm, opts)
    if ref is not None:
        mm = diff(mm, shown(ref, opts))
    if opts.get('unify'):
        mm = unify(mm)
    return mm


# ---------------------------------------------------------------- summaries


def blank_types(mm):
    return {
        t: {
            'size': 0,
            'size_diff': 0,
            'sections': {
                s: {'size': 0, 'size_diff': 0, 'abbrev_name': si['abbrev_name']} for s, si in ti['sections'].items()
            },
        }
        for t, ti in mm['memory_types'].items()
    }


def summary(mm, kind, unify=False, archive=None):
    """kind: archives, files, symbols -> {full name: entry} as in the json2 report, unsorted"""
    res = {}

    def add(key, abbrev, tname, sname, info):
        e = res.setdefault(
            key, {'abbrev_name': abbrev, 'size': 0, 'size_diff': 0, 'memory_types': blank_types(mm)}
        )
        t = e['memory_types'][tname]
        for x in (e, t, t['sections'][sname]):
            x['size'] += info['size']
            x['size_diff'] += info['size_diff']

    for t, ti in mm['memory_types'].items():
        for s, si in ti['sections'].items():
            for a, ai in si['archives'].items():
                if kind == 'archives':
                    add(a, ai['abbrev_name'], t, s, ai)
                    continue
                if kind == 'symbols' and ai['abbrev_name'] != archive:
                    continue
                for o, oi in ai['object_files'].items():
                    if kind == 'files':
                        add(oi['abbrev_name'] if unify else f'{a}:{o}', oi['abbrev_name'], t, s, oi)
                        continue
                    for y, yi in oi['symbols'].items():
                        add(yi['abbrev_name'] if unify else f'{a}:{o}:{y}', yi['abbrev_name'], t, s, yi)
    return res


def unchanged_removed(entries):
    return {k: v for k, v in entries.items() if v['size_diff']}


# ---------------------------------------------------------------- dependencies

SHN_ABS = 0xFFF1


def dependencies(case, sizes, reverse=False, unify=False):
    """{archive: {abbrev_name, size, archives: {archive: {abbrev_name, size, symbols}}}}

    sizes: archive name (base name with unify) -> size, of the archives in the image
    """
    syms = {s[0] for s in case['elf']['syms'] if s[3] in (STT_OBJECT, STT_FUNC) and s[6] != SHN_ABS}
    res = {}
    for sym, files in case['crt']:
        if sym not in syms:
            continue
        archives = [base(a) if unify else a for a, _ in files]
        definition = archives[0]
        if definition not in sizes:
            continue
        for ref in dict.fromkeys(archives[1:]):
            if ref == definition or ref not in sizes:
                continue
            a, b = (definition, ref) if reverse else (ref, definition)
            e = res.setdefault(a, {'abbrev_name': base(a), 'size': sizes[a], 'archives': {}})
            f = e['archives'].setdefault(b, {'abbrev_name': base(b), 'size': sizes[b], 'symbols': []})
            f['symbols'].append(sym)
    return res
