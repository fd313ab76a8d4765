"""C26: streams, exit status, quiet mode and colours."""

RULE = """
Random projects (many that cause warnings, some damaged or with options that cannot be satisfied) and random command
lines, run plainly, with --quiet, with a forced terminal (by option or environment), without colour and in some cases
as a fresh process or interrupted at some call; streams, exit status and the text without control codes are compared. Non-trivial: the run prints
a warning, note or error, or fails.
"""

import os
import re
import subprocess

from .. import cli, env, fw, render, reports, server
from ..core import check, same
from ..gen import composite

FORMATS = ['table', 'csv', 'json2', 'raw', 'tree', 'dot', 'text']
VIEWS = ['summary', 'archives', 'files', 'symbols', 'deps']
FAULTS = ['archive', 'sort', 'sort name', 'no map', 'bad map', 'no target', 'diff', 'bad diff', 'dot', 'no crt', 'option', 'format', 'no argument']
SGR = re.compile(r'\x1b\[([0-9;]*)m')
LINK = re.compile(r'\x1b\]8;[^\x1b]*\x1b\\')

_servers = {}
_scratch = None
_noisy = False


def init(cfg):
    global _scratch
    _scratch = cfg['scratch']


def get_server(name):
    if name not in _servers:
        extra = {'TERM': 'xterm-256color'}
        if name != 'plain':
            extra['ESP_IDF_SIZE_FORCE_TERMINAL'] = name
        _servers[name] = server.Server('0', _scratch, **extra)
    return _servers[name]


@composite
def gen(d):
    fault = d.pick(FAULTS) if d.chance(35) else None
    kw = {'osecs': 4, 'regions': 4, 'unknown': True, 'rich': d.chance(50)}
    diff = d.chance(30)
    if diff:
        cur, ref = fw.gen_pair(d, elf=d.chance(70), **kw)
    else:
        cur, ref = fw.gen_firmware(d, elf=d.chance(70), **kw), None
    if cur['elf'] and d.chance(80):
        cur['crt'] = fw.gen_crt(d, cur)
    fmt, view = d.pick(FORMATS), d.pick(VIEWS)
    if fmt == 'dot' and fault != 'dot':
        view = 'deps'
    if fault == 'dot':
        fmt, view = 'dot', d.pick(VIEWS[:4])
    elif fault == 'archive':
        fmt, view = d.pick(['table', 'csv', 'json2']), 'symbols'
    elif fault in ('sort', 'sort name'):
        fmt, view = d.pick(['table', 'text', 'csv']), d.pick(VIEWS[:4])
    elif fault == 'no crt':
        view = 'deps'
        cur['crt'] = None
    elif fault in ('diff', 'bad diff') and view == 'deps':
        view, fmt = 'files', d.pick(['table', 'csv', 'json2', 'raw', 'tree'])
    return {
        'cur': cur,
        'ref': ref,
        'fault': fault,
        'fmt': fmt,
        'view': view,
        'opts': reports.gen_opts(d),
        'flags': d.sublist(['--sort-reverse', '--sort-diff', '--dep-symbols', '--dep-reverse', '--no-lto'], 0, 3),
        'filter': d.weighted((5, None), (1, '*lib*'), (1, 'none')),
        'upper': d.chance(10),
        'first': d.chance(50),
        'pick': d.int(0, 7),
        'bad_elf': d.chance(8),
        'crash': d.chance(3),
        'interrupt': d.int(1, 1 << 20) if d.chance(30) else 0,
        'env': d.chance(50),
        'position': d.int(0, 9),
    }


def strategy(tier):
    return gen()


def setup(case, d):
    fault = case['fault']
    fn = render.project(case['cur'], d + '/cur')
    fmt = case['fmt'].upper() if case['upper'] else case['fmt']
    args = ['--format', fmt, *reports.argv(case['opts']), *case['flags']]
    if case['filter']:
        args += ['-F', case['filter']]
    if case['ref']:
        args += ['--diff', render.project(case['ref'], d + '/ref')]
    if case['bad_elf'] and case['cur']['elf']:
        render.write(d + '/cur/app.elf', b'no ELF file')
    if fault == 'archive':
        args += ['--archive-details', 'no such archive.a']
    elif case['view'] == 'symbols':
        names = sorted({os.path.basename(s['archive']) for o in case['cur']['osecs'] if o['name'] in fw.counted_names(case['cur'])
                        for s in fw.counted_isecs(o) if s['size']})  # fmt: skip
        args += ['--archive-details', names[case['pick'] % len(names)] if names else 'none']
    elif case['view'] == 'deps':
        args += ['--archive-dependencies']
    elif case['view'] != 'summary':
        args += ['--' + case['view']]
    if fault == 'sort':
        args += ['--sort', '999']
    elif fault == 'sort name':
        args += ['--sort', 'no such column']
    elif fault == 'no map':
        os.unlink(fn)
    elif fault == 'bad map':
        render.write(fn, 'not a map file\n')
    elif fault == 'no target':
        with open(fn) as f:
            text = f.read()
        render.write(fn, text.replace('IDF_TARGET', 'IDF_TRAGET'))
        pd = d + '/cur/project_description.json'
        if os.path.exists(pd):
            os.unlink(pd)
    elif fault == 'diff':
        args += ['--diff', d + '/ref/none.map']
    elif fault == 'bad diff':
        render.write(d + '/ref/none.map', 'not a map file\n')
        args += ['--diff', d + '/ref/none.map']
    elif fault == 'option':
        args += ['--no-such-option']
    elif fault == 'format':
        args += ['--format', 'html']
    if fault == 'no argument':
        return args
    return [fn, *args] if case['first'] else [*args, fn]


def parse(fmt, out):
    """The output is one complete report and nothing else."""
    if fmt in ('json2', 'raw'):
        cli.parse_json(out)
    elif fmt == 'csv':
        cli.parse_csv(out)
    elif fmt in ('table', 'text'):
        title, _, _ = cli.parse_table(out)
        check(title.count('\n') == 0, 'text before the table', title)
    elif fmt == 'tree':
        cli.parse_tree(out)
    else:
        cli.parse_dot(out)


def strip(text):
    text = SGR.sub('', LINK.sub('', text))
    check('\x1b' not in text, 'unknown control code', repr(text[max(0, text.find('\x1b') - 20) :][:100]))
    return text


def coloured(text):
    for m in SGR.finditer(text):
        codes = [int(c or 0) for c in m[1].split(';')]
        if any(30 <= c <= 49 or 90 <= c <= 107 for c in codes):
            return True
    return False


def usage(case):
    return case['fault'] in ('option', 'format', 'no argument')


def judge(case):
    global _noisy
    d = cli.fresh_dir()
    argv = setup(case, d)
    r = cli.run(argv)
    check(not r.exc, 'unhandled exception', repr(r))
    fault = case['fault']
    if fault in ('sort', 'sort name') and r.code == 0:
        fault = None  # an empty report has nothing to sort
    if fault:
        check(r.code not in (0, None), f'success in spite of the fault ({fault})', repr(r))
    if r.code == 0:
        parse(case['fmt'], r.out)
    else:
        same(r.out, '', 'stdout of a failing run', repr(r))
        check(r.err.strip(), 'failure without an error message', repr(r))
    check('\x1b' not in r.out + r.err, 'control codes without a terminal', repr(r))
    for word in ('WARNING:', 'ERROR:', 'Note:', 'Total image size', 'project file:'):
        check(word not in r.out, f'message {word!r} on stdout', repr(r))
    _noisy = bool(r.err.strip())

    def where(opt):
        k = case['position'] % (len(argv) + 1)
        # not between an option and its value
        while k and argv[k - 1] in ('--format', '--diff', '--archive-details', '--sort', '-F'):
            k -= 1
        return argv[:k] + opt + argv[k:]

    # quiet
    if not usage(case):
        q = cli.run(where((['-q'] if case['pick'] % 2 else ['--quiet']) + (['-d'] if case['pick'] % 5 == 0 else [])))
        check(not q.exc, 'unhandled exception', repr(q))
        same(q.code, r.code, 'exit status with --quiet', repr(q))
        same((q.out, q.err), ('', ''), 'output with --quiet')

    def same_text(x, what):
        check(not x.exc, 'unhandled exception', repr(x))
        same(x.code, r.code, f'exit status {what}', repr(x))
        same(strip(x.out), r.out, f'report {what}')
        if not usage(case):
            same(strip(x.err), r.err, f'messages {what}')

    # a terminal which can show colours
    term = get_server('plain')
    x = term.run(argv)
    same_text(x, 'with TERM set')
    check('\x1b' not in x.out + x.err, 'control codes without a terminal', repr(x))
    forced = get_server(['1', 'yes'][case['pick'] % 2])
    f = forced.run(argv) if case['env'] else term.run(where(['--force-terminal']))
    same_text(f, 'on a forced terminal')
    if r.code == 0 and case['fmt'] in ('table', 'text', 'tree') and r.out.count('\n') >= (2 if case['fmt'] == 'tree' else 6):
        check(coloured(f.out), 'no colour on a forced terminal', repr(f))
    n = forced.run(where(['--no-color'])) if case['env'] else term.run(where(['--no-color', '--force-terminal']))
    same_text(n, 'without colour')
    if not usage(case):
        check(not coloured(n.out + n.err), 'colour in spite of --no-color', repr(n))
    n = term.run(where(['--no-color']))
    same_text(n, 'without colour')
    check('\x1b' not in n.out, 'control codes without a terminal', repr(n))

    if case['interrupt']:
        n = cli.run(argv, interrupt=0).calls
        if n:
            x = cli.run(argv, interrupt=1 + case['interrupt'] % n)
            check(not x.exc, 'unhandled exception after an interrupt', repr(x))
            check(x.calls < 1 + case['interrupt'] % n or x.code not in (0, None), 'success in spite of an interrupt', repr(x))

    if case['crash']:
        p = subprocess.run(
            [env.PYTHON, '-m', 'esp_idf_size', *argv], cwd=d, env={**env.child_env('0'), 'PYTHONPATH': env.REPO},
            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        )  # fmt: skip
        same(p.returncode, r.code, 'exit status of the process', p.stderr.decode()[-500:])
        same(p.stdout.decode(), r.out, 'stdout of the process')
        if not usage(case):
            same(p.stderr.decode(), r.err, 'stderr of the process')
    return [case['fmt'], 'success' if r.code == 0 else 'failure', 'messages' if _noisy else 'no messages', 'fault ' + str(fault)]


def nontrivial(case):
    return _noisy
