"""C13: filtering."""

RULE = """
Random firmware, report kind, options and wildcard patterns built from the displayed names; the filtered table,
CSV and DOT reports must be the unfiltered ones restricted to the names our own matcher accepts. Non-trivial: the
patterns keep some entries and drop some.
"""

from .. import cli, fw, render, reports, wildcard
from ..core import check, same
from ..gen import composite
from .c10 import archives_of


def gen_pattern(d, name):
    """A pattern made from a piece of a name."""
    if not name or d.chance(10):
        return d.pick(['zzz', '*', '?', '', 'lib*', '[a-m]*.a', 'LIB', '*.o', '[!l]*', 'a', '[]x]', '[[]'])
    i = d.int(0, len(name) - 1)
    j = d.int(i + 1, min(len(name), i + 7))
    piece = name[i:j]
    if d.chance(12):
        return piece
    out = ''
    k = 0
    while k < len(piece):
        c = piece[k]
        how = d.weighted((14, 'same'), (1, '?'), (1, '*'), (1, 'seq'), (1, 'neg'), (1, 'range'), (1, 'case'))
        if c in '[*?]!' or how == '?':
            out += '?' if c not in '[*?' else d.pick(['?', f'[{c}]'])
        elif how == '*':
            out += '*'
            k += d.int(0, 3)
        elif how == 'seq':
            out += '[' + d.pick(['', 'q', '0_']) + c + d.pick(['', 'z']) + ']'
        elif how == 'neg':
            out += '[!' + d.pick(['~', '#x', c]) + ']'
        elif how == 'range':
            out += d.pick(['[a-z]', '[0-9]', '[A-Z]', '[.-_]', '[!0-9]'])
        elif how == 'case':
            out += c.swapcase()
        else:
            out += c
        k += 1
    return out


@composite
def gen(d):
    diff = d.chance(20)
    deps = d.chance(30)
    kw = {'osecs': 6, 'regions': 4, 'elf': True if deps else None, 'unknown': False, 'rich': d.chance(85), 'gap': False}
    cur, ref = fw.gen_pair(d, **kw) if diff and not deps else (fw.gen_firmware(d, crt=deps, **kw), None)
    kind = 'deps' if deps else d.pick(['archives', 'files', 'symbols'])
    opts = reports.gen_opts(d)
    isecs = [x for o in cur['osecs'] if o['name'] in fw.counted_names(cur) for x in fw.counted_isecs(o) if x['size']]
    if kind in ('archives', 'deps'):
        names = sorted({x['archive'] for x in isecs})
    elif kind == 'files':
        names = sorted({x['object'] if reports.abbreviated(opts) else f'{x["archive"]}:{x["object"]}' for x in isecs})
    else:
        names = sorted({s[0] for s in (cur['elf'] or {'syms': []})['syms']} | {x['name'] for x in isecs})
    if reports.abbreviated(opts) and kind != 'symbols':
        names = [n.rsplit('/', 1)[-1] for n in names]
    n = d.weighted((12, 1), (6, 2), (2, 3), (1, d.int(4, 12)))
    return {
        'cur': cur,
        'ref': ref,
        'opts': opts,
        'kind': kind,
        'rev': d.chance(50),
        'syms': d.chance(50),
        'pick': d.int(0, 7),
        'patterns': [gen_pattern(d, d.pick(names) if names else '') for _ in range(n)],
        'sort': d.weighted((3, None), (1, ['--sort-reverse']), (1, ['--sort', '-1'])),
    }


def strategy(tier):
    return gen()


def judge(case):
    opts = case['opts']
    diff = case['ref'] is not None
    d = cli.fresh_dir()
    fn = render.project(case['cur'], d + '/cur')
    args = reports.argv(opts)
    if diff:
        args += ['--diff', render.project(case['ref'], d + '/ref')]
    pats = [a for p in case['patterns'] for a in ('--filter', p)]

    def keep(name):
        return any(wildcard.contains(name, p) for p in case['patterns'])

    kind = case['kind']
    if kind == 'deps':
        args += ['--archive-dependencies'] + (['--dep-reverse'] if case['rev'] else []) + (['--dep-symbols'] if case['syms'] else [])
        for fmt in ('table', 'csv'):
            h, rows = reports.get_report(fn, fmt, *args)
            fh, frows = reports.get_report(fn, fmt, *args, *pats)
            same(fh, h, 'columns after filtering')
            want, on = [], False
            for r in rows:
                if r[0].strip():
                    on = keep(r[0].strip())
                if on:
                    want.append(r)
            same(frows, want, f'filtered dependencies ({fmt})', repr(case['patterns']))
        js = reports.get_report(fn, 'json2', *args)
        nodes, edges = reports.get_report(fn, 'dot', *args, *pats)
        kept = {a: e for a, e in js.items() if keep(reports.display(a, e, opts))}
        want_edges = [((b, a) if case['rev'] else (a, b)) for a, e in kept.items() for b in e['archives']]
        same([e[:2] for e in edges], want_edges, 'edges of the filtered graph')
        same(set(nodes), set(kept) | {b for e in kept.values() for b in e['archives']}, 'nodes of the filtered graph')
        return ['deps', 'some' if 0 < len(kept) < len(js) else 'none' if not kept else 'all']
    if kind == 'symbols':
        names = archives_of(reports.get_report(fn, 'raw', *args))
        if not names:
            return ['no archive']
        args += ['--archive-details', names[case['pick'] % len(names)]]
    else:
        args += ['--' + kind]
    h, rows = reports.table_and_csv(fn, *args, *(case['sort'] or []))
    fh, frows = reports.table_and_csv(fn, *args, *pats, *(case['sort'] or []))
    want = [r for r in rows if keep(r[0])]
    same(frows, want, 'filtered rows', repr(case['patterns']))
    if want:
        same(fh, h, 'columns after filtering')
    else:
        check(fh[:2] == h[:2], 'columns of an empty report', repr(fh))
    return ['some' if 0 < len(want) < len(rows) else 'none' if not want else 'all']


def nontrivial(case):
    names = {f for o in case['cur']['osecs'] for s in fw.counted_isecs(o) for f in (s['archive'], s['object'])}
    names |= {s[0] for s in (case['cur']['elf'] or {'syms': []})['syms']}
    hit = [n for n in names if any(wildcard.contains(n, p) for p in case['patterns'])]
    return 0 < len(hit) < len(names)
