"""C27: spelling, order and relevance of options."""

RULE = """
Random projects and random command lines. Each is run as drawn and again rewritten: options in another order and around
the map file, by their other names, with their value attached or not, flags given twice, values given twice (the last
one counts), format names in other case, defaults written out, and with options added that the documentation declares
without effect on this report. Exit status, report and (unless an added option warns) messages must be the same bytes.
Non-trivial: the report shows something or is refused, and at least two rewritings apply.
"""

import os

from .. import cli, fw, render, reports
from ..core import check, same
from ..gen import composite

FORMATS = ['table', 'csv', 'json2', 'raw', 'tree', 'dot', 'text']
VIEWS = ['summary', 'archives', 'files', 'symbols', 'deps']
SORTS = ['1', '2', '-1', '3', '-2', '0', '99', 'Total Size', 'Used [bytes]', 'Used [%]', 'DRAM', '.bss', 'nothing', ' 1', '01']
FILTERS = ['*', '*lib*', 'lib?*', '[a-m]*', '*.o*', 'none', '[!l]*', 'main']

NAMES = {
    '--archive-dependencies': ['--archive-dependencies', '--archive-deps'],
    '--dep-symbols': ['--dep-symbols', '--dep-syms'],
    '--dep-reverse': ['--dep-reverse', '--dep-rev'],
    '--archive-details': ['--archive-details', '--archive_details'],
    '--sort': ['--sort', '-s'],
    '--filter': ['--filter', '-F'],
}
FLAGS = [
    '--archives', '--files', '--archive-dependencies', '--dep-symbols', '--dep-reverse', '--no-abbrev', '--unify',
    '--show-unused', '--show-unchanged', '--use-flash-size', '--no-lto', '--lto', '--sort-diff', '--sort-reverse', '--no-color',
]  # fmt: skip

_nontrivial = False


@composite
def gen(d):
    kw = {'osecs': 4, 'regions': 4, 'rich': d.chance(50)}
    elf = d.chance(75)
    if d.chance(35):
        cur, ref = fw.gen_pair(d, elf=elf, **kw)
    else:
        cur, ref = fw.gen_firmware(d, elf=elf, **kw), None
    if cur['elf'] and d.chance(80):
        cur['crt'] = fw.gen_crt(d, cur)
    fmt = d.pick(FORMATS)
    view = 'deps' if fmt == 'dot' and d.chance(90) else d.pick(VIEWS)
    return {
        'cur': cur,
        'ref': ref,
        'fmt': fmt,
        'view': view,
        'opts': reports.gen_opts(d),
        'pick': d.int(0, 5),
        'flags': d.sublist(['--sort-diff', '--sort-reverse', '--dep-symbols', '--dep-reverse', '--no-lto', '--lto', '--no-color'], 0, 4),
        'sort': d.pick(SORTS) if d.chance(40) else None,
        'filter': d.sublist(FILTERS, 0, 2) if d.chance(40) else [],
        'variants': [
            {
                'order': [d.int(0, 99) for _ in range(30)],
                'spell': [d.int(0, 59) for _ in range(30)],
                'map': d.int(0, 19),
                'dashes': d.chance(20),
                'extra': [d.int(0, 59) for _ in range(d.int(0, 4))],
            }
            for _ in range(2)
        ],
        'debug': d.chance(20),
        'eager': d.pick(['--help', '-h', '--doc']) if d.chance(10) else None,
    }


def strategy(tier):
    return gen()


def options(case, d):
    """[(name, value or None)]"""
    res = [('--format', case['fmt'])]
    if case['fmt'] == 'table' and case['pick'] % 2:
        res = []
    if case['view'] == 'symbols':
        names = sorted({os.path.basename(s['archive']) for o in case['cur']['osecs'] if o['name'] in fw.counted_names(case['cur'])
                        for s in fw.counted_isecs(o) if s['size']})  # fmt: skip
        res.append(('--archive-details', names[case['pick'] % len(names)] if names else 'none'))
    elif case['view'] == 'deps':
        res.append(('--archive-dependencies', None))
    elif case['view'] != 'summary':
        res.append(('--' + case['view'], None))
    if case['ref']:
        res.append(('--diff', d + '/ref/app.map'))
    res += [(o, None) for o in reports.argv(case['opts'])]
    flags = list(case['flags'])
    if '--lto' in flags and '--no-lto' in flags:
        flags.remove('--lto')
    res += [(f, None) for f in flags]
    if case['sort'] is not None:
        res.append(('--sort', case['sort']))
    res += [('--filter', f) for f in case['filter']]
    return res


def irrelevant(case, given, d):
    """Options which the documentation says have no effect on this report: [(option, expected warning or None)]"""
    fmt, view = case['fmt'], case['view']
    names = {n for n, _ in given}
    raw = fmt == 'raw' and view != 'deps'
    res = []
    if view != 'deps':
        res += [(('--dep-symbols', None), None), (('--dep-reverse', None), None)]
    elif fmt in ('json2', 'raw'):
        res += [(('--dep-symbols', None), None)]
    if fmt in ('json2', 'raw', 'tree', 'dot') or view == 'deps':
        res += [(('--sort', s), None) for s in ('0', '77', 'nothing', '-1')]
    if view == 'deps' or raw:
        res += [(('--sort-diff', None), None), (('--sort-reverse', None), None)]
    if fmt in ('json2', 'raw', 'tree') or (view == 'summary' and fmt != 'dot'):
        res += [(('--filter', f), None) for f in ('none', '*a*', '[')]
    if '--diff' not in names or view == 'deps' or raw:
        res += [(('--show-unchanged', None), None)]
    if '--unify' in names:
        res += [(('--no-abbrev', None), '--no-abbrev')]
    elif fmt == 'raw':
        res += [(('--no-abbrev', None), None)]
    if raw:
        res += [(('--archives', None), None), (('--files', None), None), (('--archive-details', 'none.a'), None)]
    if view == 'deps' and '--diff' not in names:
        res += [(('--diff', d + '/cur/app.map'), '--diff')]
        res += [(('--diff', d + '/ref/none.map'), '--diff')]
    res += [(('--no-color', None), None)]
    return res


def spell(opt, value, k):
    names = NAMES.get(opt, [opt])
    name = names[k % len(names)]
    k //= len(names)
    if value is None:
        return [name] * (2 if k % 5 == 4 else 1)
    if opt == '--format':
        value = [value, value.upper(), value.capitalize()][k % 3]
        k //= 3
        if value.lower() in ('table', 'text') and k % 2:
            value = {'table': 'text', 'text': 'table'}[value.lower()]
        k //= 2
    if name.startswith('--'):
        out = [f'{name}={value}'] if k % 2 else [name, value]
    else:
        out = [name + value] if k % 2 and not value.startswith('=') else [name, value]
    if opt in ('--format', '--sort') and k // 2 % 4 == 3:
        other = 'csv' if opt == '--format' else '0'
        out = [name, other, *out]
    return out


def command(case, fn, opts, variant):
    opts = list(opts)
    for i, k in enumerate(variant['order'][: len(opts)]):
        j = i + k % (len(opts) - i)
        opts[i], opts[j] = opts[j], opts[i]
    if variant['spell'][-1] % 3 == 1 and not any(n == '--sort' for n, _ in opts):
        opts.append(('--sort', '1'))  # the default
    if variant['spell'][-2] % 3 == 1 and not any(n == '--format' for n, _ in opts):
        opts.append(('--format', 'table'))  # the default
    groups = [spell(n, v, variant['spell'][i % 30]) for i, (n, v) in enumerate(opts)]
    if variant['dashes']:
        return [a for g in groups for a in g] + ['--', fn]
    k = variant['map'] % (len(groups) + 1)
    return [a for g in groups[:k] for a in g] + [fn] + [a for g in groups[k:] for a in g]


def judge(case):
    global _nontrivial
    d = cli.fresh_dir()
    fn = render.project(case['cur'], d + '/cur')
    if case['ref']:
        render.project(case['ref'], d + '/ref')
    opts = options(case, d)
    argv = [a for n, v in opts for a in ([n] if v is None else [n, v])] + [fn]
    r = cli.run(argv)
    check(not r.exc, 'unhandled exception', repr(r))
    labels = [case['fmt'], case['view'], 'success' if r.code == 0 else 'refused']
    applied = 0
    for variant in case['variants']:
        given, warns, added = list(opts), False, set()
        for k in variant['extra']:
            extra = irrelevant(case, opts, d)
            option, warning = extra[k % len(extra)]
            if option[0] == '--sort' and any(n == '--sort' for n, _ in given):
                continue
            if option[0] in ('--archives', '--files', '--archive-details') and any(n in ('--archives', '--files', '--archive-details') for n, _ in given):
                continue
            if option[0] in added:
                continue
            given.append(option)
            added.add(option[0])
            warns = warns or bool(warning)
            labels.append('added ' + option[0])
        v2 = command(case, fn, given, variant)
        x = cli.run(v2)
        check(not x.exc, 'unhandled exception', repr(x))
        what = f'of the same command written as {v2} instead of {argv}'
        same(x.code, r.code, f'exit status {what}', repr(x))
        same(x.out, r.out, f'report {what}')
        if warns:
            for word in ('ERROR', 'Traceback'):
                check((word in x.err) == (word in r.err), f'messages {what}', x.err)
        else:
            same(x.err, r.err, f'messages {what}')
        applied += v2 != argv
    if case['debug']:
        x = cli.run(['-d' if case['pick'] % 2 else '--debug', *argv])
        check(not x.exc, 'unhandled exception', repr(x))
        same(x.code, r.code, 'exit status with --debug', repr(x))
        check(x.out.endswith(r.out), 'the report with --debug', repr(x))
        same(x.err, r.err, 'messages with --debug')
    if case['eager']:
        outs = [cli.run([case['eager']])]
        outs.append(cli.run([*argv, case['eager']]))
        outs.append(cli.run([case['eager'], d + '/none.map']))
        for x in outs:
            check(not x.exc, 'unhandled exception', repr(x))
            same(x.code, 0, f'exit status of {case["eager"]}', repr(x))
            check(x.out.strip(), f'output of {case["eager"]}', repr(x))
            same((x.out, x.err), (outs[0].out, outs[0].err), f'output of {case["eager"]} with other arguments', repr(x))
    _nontrivial = applied > 1 and (r.code != 0 or r.out.count('\n') > 2)
    return labels


def nontrivial(case):
    return _nontrivial
