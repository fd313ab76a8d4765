"""C16: the output file."""

RULE = """
Random project, report, format and output path (new, existing, in missing directories, relative, odd names), and in
a part of the cases a fault (report cannot be produced, the run is interrupted at some call, or the file cannot be
written), or a locale that cannot represent the names. The file must hold the bytes
a run without -o prints, or be untouched after a fault. Non-trivial: the file existed before, or its directory did
not, or a fault was injected.
"""

import os
import shutil
import subprocess
from unittest import mock

from .. import cli, fw, render, reports, server
from ..core import check, same
from ..gen import ARCHIVES, OBJECTS, composite, wild

FORMATS = ['table', 'text', 'csv', 'json2', 'raw', 'tree', 'dot']
FAULTS = ['archive', 'sort', 'sort name', 'map', 'no target', 'diff', 'diff map', 'dot', 'no crt', 'dir', 'parent', 'deep parent',
          'interrupt', 'interrupt', 'busy', 'dangling', 'loop', 'long name']
UNWRITABLE = ('dir', 'parent', 'deep parent', 'busy', 'dangling', 'loop', 'long name')  # fmt: skip
VIEWS = ['summary', 'archives', 'files', 'symbols', 'deps']
FOREIGN = (['esp-idf/ж/libж.a', 'esp-idf/é/libé.a'], ['ß.c.obj', '中 [x].o', 'e\u0301.o'])

_server = None
_scratch = None


def init(cfg):
    global _scratch
    _scratch = cfg['scratch']


def ascii_server():
    """The tool in a locale without any letters but the English ones."""
    global _server
    if _server is None:
        _server = server.Server('0', _scratch, LC_ALL='C', LANG='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    return _server


@composite
def gen(d):
    fault = d.pick(FAULTS) if d.chance(45) else None
    ascii_only = fault is None and d.chance(15)
    diff = d.chance(25)
    kw = {'osecs': 4, 'regions': 3, 'elf': True, 'unknown': d.chance(10), 'rich': d.chance(60), 'gap': False}
    if ascii_only:
        kw['pool'] = fw.gen_pool(d, archives=FOREIGN[0] + ARCHIVES[:3], objects=FOREIGN[1] + OBJECTS[:2], lo=2)
    if diff:
        cur, ref = fw.gen_pair(d, **kw)
    else:
        cur, ref = fw.gen_firmware(d, crt=True, **kw), None
    if cur['elf'] and cur['crt'] is None:
        cur['crt'] = fw.gen_crt(d, cur)
    view = d.pick(VIEWS)
    fmt = d.pick(FORMATS)
    if fmt == 'dot' and fault != 'dot':
        view = 'deps'
    if fault in ('sort', 'sort name'):
        fmt, view = d.pick(['table', 'text', 'csv']), d.pick(VIEWS[:4])
    elif fault == 'archive':
        fmt, view = d.pick(['table', 'text', 'csv', 'json2']), 'symbols'
    elif fault == 'dot':
        fmt, view = 'dot', d.pick(VIEWS[:4])
    elif fault == 'no crt':
        view = 'deps'
        cur['crt'] = None
    elif fault in ('diff', 'diff map') and view == 'deps':
        view, fmt = 'archives', d.pick(['table', 'csv', 'json2', 'raw', 'tree'])
    name = d.weighted((3, 'out.txt'), (1, 'app.map.txt'), (1, ' x y .csv'), (1, '-'), (1, 'ж[b]x[/b].json'), (1, None))
    if name is None:
        name = wild(d, exclude='/') + '.o'
    if ascii_only:
        name = 'out.txt'
    return {
        'cur': cur,
        'ref': ref,
        'fault': fault,
        'fmt': fmt,
        'view': view,
        'opts': reports.gen_opts(d),
        'old': d.weighted((2, None), (1, ''), (2, 'previous content\n'), (1, 'long')),
        'dirs': d.weighted((3, []), (2, ['new']), (1, ['new', 'a b', 'c'])),
        'link': d.chance(15),
        'relative': d.chance(30),
        'long_option': d.chance(50),
        'first': d.chance(50),
        'force': d.chance(25),
        'nocolor': d.chance(15),
        'tty': d.chance(15),
        'quiet': d.chance(8),
        'name': name,
        'pick': d.int(0, 7),
        'ascii': ascii_only,
        'at': d.int(0, 1 << 20) if fault == 'interrupt' else 0,
    }


def strategy(tier):
    return gen()


def setup(case, d):
    """Writes the project; returns the arguments without the output file, and the output path."""
    fault = case['fault']
    fn = render.project(case['cur'], d + '/cur')
    args = ['--format', case['fmt'], *reports.argv(case['opts'])]
    if case['ref']:
        args += ['--diff', render.project(case['ref'], d + '/ref')]
    if fault == 'archive':
        args += ['--archive-details', 'no such archive.a']
    elif case['view'] == 'symbols':
        names = sorted({os.path.basename(s['archive']) for o in case['cur']['osecs'] if o['name'] in fw.counted_names(case['cur'])
                        for s in fw.counted_isecs(o) if s['size']})  # fmt: skip
        args += ['--archive-details', names[case['pick'] % len(names)] if names else 'none']
    elif case['view'] == 'deps':
        args += ['--archive-dependencies']
    elif case['view'] != 'summary':
        args += ['--' + case['view']]
    if fault == 'sort':
        args += ['--sort', '999']
    elif fault == 'sort name':
        args += ['--sort', 'no such column']
    elif fault == 'map':
        os.unlink(fn)
    elif fault == 'no target':
        with open(fn) as f:
            text = f.read()
        render.write(fn, text.replace('IDF_TARGET', 'IDF_TRAGET'))
        pd = d + '/cur/project_description.json'
        if os.path.exists(pd):
            os.unlink(pd)
    elif fault == 'diff':
        args += ['--diff', d + '/ref/none.map']
    elif fault == 'diff map':
        render.write(d + '/ref/none.map', 'not a map file\n')
        args += ['--diff', d + '/ref/none.map']
    if case['force']:
        args += ['--force-terminal']
    if case['nocolor']:
        args += ['--no-color']
    if case.get('quiet'):
        args += ['--quiet']
    return fn, args


def judge(case):
    d = cli.fresh_dir()
    fault = case['fault']
    fn, args = setup(case, d)
    outdir = os.path.join(d, 'out', *case['dirs'])
    path = os.path.join(outdir, case['name'])
    os.makedirs(d + '/out')
    old = case['old']
    if old == 'long':
        old = 'x' * 200000
    if fault == 'dir':
        os.makedirs(path)
    elif fault in ('parent', 'deep parent'):
        render.write(d + '/out/file', 'a file')
        path = os.path.join(d, 'out', 'file', *(['x'] if fault == 'deep parent' else []), case['name'])
        old = None
    elif fault in ('dangling', 'loop'):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        os.symlink(path if fault == 'loop' else d + '/none/target', path)
        old = None
    elif fault == 'long name':
        path = os.path.join(outdir, 'n' * 256 + case['name'])
        old = None
    elif fault == 'busy':
        # a program that runs cannot be opened for writing, even by root
        os.makedirs(os.path.dirname(path), exist_ok=True)
        shutil.copy('/bin/sleep', path)
        busy = subprocess.Popen([path, '60'], executable=path, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            with open(path, 'rb') as f:
                old = f.read()
            return outcome(case, d, fault if not openable(path) else None, fn, args, path, old)
        finally:
            busy.kill()
            busy.wait()
    elif old is not None:
        if case.get('link'):
            # FILE is another name of a file elsewhere
            os.makedirs(os.path.dirname(path), exist_ok=True)
            render.write(d + '/elsewhere', old)
            os.symlink(d + '/elsewhere', path)
        else:
            render.write(path, old)
    return outcome(case, d, fault, fn, args, path, old)


def openable(path):
    try:
        os.close(os.open(path, os.O_WRONLY))
    except OSError:
        return False
    return True


def outcome(case, d, fault, fn, args, path, old):
    cwd = None
    given = path
    if case['relative']:
        cwd = d + '/cur' if case['pick'] % 2 else d + '/out'
        os.makedirs(cwd, exist_ok=True)
        given = os.path.relpath(path, cwd)
        if case['pick'] % 3 == 0:
            given = './' + given
    if given.startswith('-'):
        given = './' + given

    run = ascii_server().run if case['ascii'] else cli.run
    kw = {'encoding': 'ascii'} if case['ascii'] else {'interrupt': 0} if fault == 'interrupt' else {}
    plain = run([a for a in args if a != '--force-terminal'] + [fn], cwd=cwd, **kw)
    check(not plain.exc, 'unhandled exception', repr(plain))
    if fault in ('sort', 'sort name') and plain.code == 0:
        fault = None  # an empty report has nothing to sort (C12 decides which columns are refused)
    o = [f'--output-file={given}'] if case['long_option'] else ['-o', given]
    argv = o + args + [fn] if case['first'] else args + [fn] + o
    kw = {'interrupt': 1 + case['at'] % plain.calls} if fault == 'interrupt' else {}
    # a terminal that knows control codes must make no difference to the file
    with mock.patch.dict(os.environ, {'TERM': 'xterm-256color'} if case['force'] or case['tty'] else {}):
        r = run(argv, cwd=cwd, tty=case['tty'], **kw)
    if fault == 'interrupt' and r.calls < kw['interrupt']:
        fault = None  # finished before
    check(not r.exc, 'unhandled exception', repr(r))
    failing = fault is not None and fault not in UNWRITABLE
    if failing and fault != 'interrupt' or fault is None:
        same(r.code, plain.code, 'exit status with -o and without', repr(r))
    if failing and fault != 'interrupt':
        check(plain.code != 0, f'the fault ({fault}) went unnoticed', repr(plain))
    check(r.out == '', 'text on stdout in spite of -o', repr(r))
    if fault is None and plain.code == 0:
        check(os.path.isfile(path), 'no output file', repr(r))
        with open(path, 'rb') as f:
            data = f.read()
        same(data, plain.out.encode(), 'content of the output file')
        check(b'\x1b' not in data, 'control codes in the output file', repr(data[:500]))
        check(plain.out.strip() or case.get('quiet'), 'empty report', repr(plain))
        if case['ascii'] and case['fmt'] not in ('table', 'text', 'tree'):
            full = cli.run([a for a in args if a != '--force-terminal'] + [fn], cwd=cwd)
            same(data, full.out.encode('ascii', 'backslashreplace'), 'content of the output file in a locale without the letters')
        return [case['fmt'], 'written', 'old' if old is not None else 'new']
    check(r.code not in (0, None), f'success in spite of the fault ({fault})', repr(r))
    check(r.err.strip() or fault == 'interrupt' or case.get('quiet'), 'failure without an error message', repr(r))
    if fault == 'dir':
        check(os.path.isdir(path) and not os.listdir(path), 'the directory in the place of the output file changed')
    elif fault in ('parent', 'deep parent'):
        with open(d + '/out/file') as f:
            same(f.read(), 'a file', 'file in the place of the output directory')
    elif fault in ('dangling', 'loop'):
        check(os.path.islink(path) and not os.path.exists(path) and not os.path.lexists(d + '/none'), 'the link in the place of the output file changed')
    elif old is None:
        check(fault == 'long name' or not os.path.lexists(path), f'output file created although the report failed ({fault})', repr(r))
    else:
        with open(path, 'rb') as f:
            same(f.read(), old if isinstance(old, bytes) else old.encode(), f'previous content of the output file after a failure ({fault})')
    return ['fault ' + str(fault), 'old' if old is not None else 'new']


def nontrivial(case):
    return bool(case['fault'] or case['old'] is not None or case['dirs'])
