"""C21: the report depends on the content of the project only."""

RULE = """
Random project (some with LTO and DWARF information, some compared with a reference) and random command line, run
several times: twice in this process, in other interpreters with other hash seeds, histories and locales, from other working
directories with relative paths, from a directory the project was moved or copied to (with another build in the
original place), and in some cases as a fresh process.
All outputs must be the same bytes, except for the recorded path. Non-trivial: the report has at least five lines.
"""

import json
import os
import shutil
import subprocess

from .. import cli, env, fw, render, reports, server
from ..core import check, same
from ..gen import composite
from . import c20

FORMATS = ['table', 'csv', 'json2', 'raw', 'tree', 'dot', 'text']
VIEWS = ['summary', 'archives', 'files', 'symbols', 'deps', 'deps']
SEEDS = ['1', '2', 'random']
MOVED = ['moved', 'a b (c)/d', 'ž/app.map', 'deep/er/still', '[bold]/x', "it's"]

_servers = {}
_scratch = None
_lines = 0


def init(cfg):
    global _scratch
    _scratch = cfg['scratch']


def get_server(seed):
    if seed not in _servers:
        extra = {'LC_ALL': 'C', 'LANG': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'} if seed == 'ascii' else {}
        _servers[seed] = server.Server('0' if seed == 'ascii' else seed, _scratch, **extra)
    return _servers[seed]


@composite
def gen(d):
    lto = d.chance(20)
    case = {'lto': None, 'ref': None}
    kw = {'osecs': 5, 'regions': 4, 'rich': d.chance(70), 'unknown': d.chance(20)}
    if lto:
        case['lto'] = c20.gen()(d)
        case['cur'] = case['lto'].pop('fw')
    elif d.chance(30):
        case['cur'], case['ref'] = fw.gen_pair(d, elf=d.chance(80), **kw)
    else:
        case['cur'] = fw.gen_firmware(d, elf=d.chance(85), **kw)
    if case['cur']['elf'] and d.chance(80):
        case['cur']['crt'] = fw.gen_crt(d, case['cur'])
    fmt, view = d.pick(FORMATS), d.pick(VIEWS)
    if fmt == 'dot':
        view = 'deps'
    case.update(
        fmt=fmt,
        view=view,
        opts=reports.gen_opts(d),
        rev=d.chance(30),
        syms=d.chance(50),
        sort=d.weighted((3, None), (2, '1'), (1, '2'), (1, '-1')),
        sort_reverse=d.chance(30),
        sort_diff=d.chance(30),
        filter=d.weighted((5, None), (1, '*lib*'), (1, '[a-m]')),
        lto_opt=d.weighted((3, '--lto'), (1, '--no-lto'), (1, None)) if lto else None,
        pick=d.int(0, 7),
        seed=d.pick(SEEDS),
        seed2=d.pick(SEEDS),
        rel=d.pick(['', './', '../cur/', '../cur/../cur/']),
        moved=d.pick(MOVED),
        copied=d.chance(50),
        decoy=None,
        locale=d.chance(25),
        fresh=d.chance(3),
    )
    if case['copied'] and d.chance(60):
        case['decoy'] = fw.gen_variant(d, case['cur'])
    return case


def strategy(tier):
    return gen()


def write(case, d):
    if case['lto']:
        c20.write({**case['lto'], 'fw': case['cur'], 'missing': None}, d + '/cur')
    else:
        render.project(case['cur'], d + '/cur')
    if case['ref']:
        render.project(case['ref'], d + '/cur/ref')
    pd = d + '/cur/project_description.json'
    if case['locale'] and os.path.exists(pd):
        with open(pd) as f:
            desc = json.load(f)
        desc['project_name'] = 'žluťoučký kůň'
        render.write(pd, json.dumps(desc, ensure_ascii=False))


def command(case):
    args = ['--format', case['fmt'], *reports.argv(case['opts'])]
    if case['view'] == 'symbols':
        names = sorted({os.path.basename(s['archive']) for o in case['cur']['osecs'] if o['name'] in fw.counted_names(case['cur'])
                        for s in fw.counted_isecs(o) if s['size']})  # fmt: skip
        args += ['--archive-details', names[case['pick'] % len(names)] if names else 'none']
    elif case['view'] == 'deps':
        args += ['--archive-dependencies']
        args += ['--dep-reverse'] if case['rev'] else []
        args += ['--dep-symbols'] if case['syms'] else []
    elif case['view'] != 'summary':
        args += ['--' + case['view']]
    if case['sort']:
        args += ['--sort', case['sort']]
    args += ['--sort-reverse'] if case['sort_reverse'] else []
    args += ['--sort-diff'] if case['sort_diff'] else []
    args += ['--filter', case['filter']] if case['filter'] else []
    args += [case['lto_opt']] if case['lto_opt'] else []
    return args


def full(case, args, prefix):
    return args + (['--diff', prefix + 'ref/app.map'] if case['ref'] else []) + [prefix + 'app.map']


def judge(case):
    d = cli.fresh_dir()
    write(case, d)
    args = command(case)
    home = d + '/cur/'
    first = cli.run(full(case, args, home))
    check(not first.exc, 'unhandled exception', repr(first))
    if case['fmt'] == 'raw' and case['view'] != 'deps' and first.code == 0:
        m = json.loads(first.out)
        same(m['project_path'], home + 'app.map', 'recorded path')
        same(m['project_path_diff'], home + 'ref/app.map' if case['ref'] else '', 'recorded path of the reference')

    def compare(r, what, where=home, messages=True):
        check(not r.exc, 'unhandled exception', repr(r))
        same(r.code, first.code, f'exit status {what}', repr(r))
        out = r.out
        if where != home and case['fmt'] == 'raw':
            out = out.replace(json.dumps(where)[1:-1], json.dumps(home)[1:-1])
        if out != first.out:
            a, b = first.out.split('\n'), out.split('\n')
            k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            same('\n'.join(b[k : k + 3]), '\n'.join(a[k : k + 3]), f'report {what}, line {k}')
        if messages:
            same(r.err, first.err, f'messages {what}')

    compare(cli.run(full(case, args, home)), 'of the second run')
    compare(get_server(case['seed']).run(full(case, args, home)), f'with hash seed {case["seed"]}')
    if case['locale']:
        compare(get_server('ascii').run(full(case, args, home)), 'in another locale', messages=False)
    rel = case['rel']
    compare(get_server(case['seed2']).run(full(case, args, rel), cwd=d + '/cur'), 'with a relative path', messages=False)
    # as a fresh process, from another working directory
    if case['fresh']:
        os.makedirs(d + '/elsewhere')
        p = subprocess.run(
            [env.PYTHON, '-m', 'esp_idf_size', *full(case, args, '../cur/')],
            cwd=d + '/elsewhere', env={**env.child_env('random'), 'PYTHONPATH': env.REPO}, stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        )  # fmt: skip
        r = cli.Result(p.args, p.returncode, p.stdout.decode(), p.stderr.decode(), None)
        compare(r, 'of a fresh process', messages=False)
    # elsewhere
    new = d + '/' + case['moved'] + '/'
    os.makedirs(os.path.dirname(new[:-1]), exist_ok=True)
    if case['copied']:
        shutil.copytree(home[:-1], new[:-1])
        if case['decoy']:
            # meanwhile something else was built in the original place
            shutil.rmtree(home[:-1])
            render.project(case['decoy'], home[:-1], sdkconfig={'COMPILER_LTO_LINKTIME': not case['lto']})
            compare(cli.run(full(case, args, new), cwd=home), 'of a copy, after the original changed', new, messages=False)
    else:
        os.rename(home[:-1], new[:-1])
    compare(cli.run(full(case, args, new)), 'after moving the project', new, messages=False)
    global _lines
    _lines = first.out.count('\n')
    return [case['fmt'], case['view'], 'ok' if first.code == 0 else 'refused', 'lines>=5' if _lines >= 5 else 'short'] + (
        ['fresh process'] if case['fresh'] else []
    )


def nontrivial(case):
    return _lines >= 5
