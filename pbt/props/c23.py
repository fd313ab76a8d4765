"""C23: library and command line."""

RULE = """
Random project (some with LTO and DWARF information) and a random sequence of library calls on it, sharing map file
and ELF objects, with files replaced or removed in between; every result is compared with the raw report or the
reference memory map and then overwritten by the caller. Non-trivial: at least three calls, one with a passed object.
"""

import json
import os
import shutil

from .. import cli, fw, oracle, render
from ..core import check, same
from ..gen import composite
from . import c20

TOP = {'version', 'target', 'target_diff', 'image_size', 'image_size_diff', 'project_path', 'project_path_diff', 'memory_types'}
CALLS = ['plain', 'map', 'elf', 'both', 'positional', 'other map', 'other elf', 'gone', 'diff', 'unify', 'raw', 'raw diff', 'raw unify']


@composite
def gen(d):
    lto = c20.gen()(d) if d.chance(25) else None
    if lto:
        cur = lto.pop('fw')
        ref = fw.gen_variant(d, cur)
    else:
        cur, ref = fw.gen_pair(d, osecs=4, regions=4, elf=d.chance(75), unknown=d.chance(20))
    ops = []
    for _ in range(d.int(1, 7)):
        op = d.pick(CALLS)
        ops.append([op, d.chance(40), d.weighted((3, None), (2, False), (3 if lto else 0, True)), d.chance(60)])
    return {'cur': cur, 'ref': ref, 'lto': lto, 'ops': ops, 'desc': not d.chance(15)}


def strategy(tier):
    return gen()


def write(case, d):
    if case['lto']:
        a = c20.write({**case['lto'], 'fw': case['cur'], 'missing': None}, d + '/cur')
    else:
        a = render.project(case['cur'], d + '/cur')
    b = render.project(case['ref'], d + '/ref')
    return a, b


def plain_data(x, where):
    """Only dictionaries with string keys, strings and integers."""
    if type(x) is dict:
        for k, v in x.items():
            check(type(k) is str, f'key {k!r} in {where} is not a string')
            plain_data(v, f'{where}/{k}')
    else:
        check(type(x) in (str, int), f'{where} is {x!r}')


def check_shape(mm):
    plain_data(mm, 'memory map')
    same(set(mm), TOP, 'keys of the memory map')
    item = {'abbrev_name', 'size', 'size_diff'}
    for t, ti in mm['memory_types'].items():
        same(set(ti), {'size', 'size_diff', 'used', 'used_diff', 'sections'}, f'keys of {t}')
        for si in ti['sections'].values():
            same(set(si), item | {'archives'}, 'keys of a section')
            for ai in si['archives'].values():
                same(set(ai), item | {'object_files'}, 'keys of an archive')
                for oi in ai['object_files'].values():
                    same(set(oi), item | {'symbols'}, 'keys of an object file')
                    for yi in oi['symbols'].values():
                        same(set(yi), item, 'keys of a symbol')
    same(json.loads(json.dumps(mm)), mm, 'memory map read back from JSON')


def no_symbols(x):
    if isinstance(x, dict):
        return {k: ({} if k == 'symbols' else no_symbols(v)) for k, v in x.items()}
    return x


def trash(x):
    """What a caller may do with its result."""
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], dict):
                trash(x[k])
            else:
                x[k] = 'trash'
        x['trash'] = 'trash'


def judge(case):
    from esp_idf_size import elf as elfmod
    from esp_idf_size import mapfile, memorymap

    d = cli.fresh_dir()
    fn, ref_fn = write(case, d)
    lto = case['lto']
    sdk = bool(lto and lto['sdk'] is True)
    expanded = {**case['cur']}
    if lto and lto['dwarf'] is not None:
        expanded, _ = c20.expand({**lto, 'fw': case['cur']})
    with_desc = case['desc']
    if not with_desc and case['cur']['elf']:
        os.unlink(d + '/cur/project_description.json')

    def model(use, elf):
        active = use if use is not None else sdk
        base = expanded if active and elf and with_desc else case['cur']
        return {**base, 'elf': case['cur']['elf'] if elf else None}

    with cli.library():
        mf = mapfile.MapFile(fn)
        elf = elfmod.Elf(d + '/cur/app.elf') if case['cur']['elf'] else None
        other_mf = mapfile.MapFile(ref_fn)
        other_elf = elfmod.Elf(d + '/ref/app.elf') if case['ref']['elf'] else None
    labels = []
    for op, nosym, use, wreck in case['ops']:
        has_elf = bool(with_desc and case['cur']['elf'])
        load = not nosym
        flags = {True: ['--lto'], False: ['--no-lto'], None: []}[use]
        opts = ['--show-unused', '--use-flash-size', *flags]
        want = None
        if op == 'plain':
            got, _ = cli.get(fn, load_symbols=load, use_dwarf=use)
            want = oracle.memmap(model(use, has_elf), fn, load)
        elif op in ('map', 'both', 'positional', 'gone'):
            e = elf if op != 'map' else None
            if op == 'gone':
                # nothing is left to be loaded again
                if not with_desc or not elf:
                    continue
                shutil.copytree(d + '/cur', d + '/saved', symlinks=True)
                os.unlink(fn)
                os.unlink(d + '/cur/app.elf')
            if op == 'positional':
                with cli.library():
                    got = memorymap.get(fn, load, use, mf, e)
            else:
                got, _ = cli.get(fn, load_symbols=load, use_dwarf=use, map_file=mf, elf=e)
            if op == 'gone':
                shutil.rmtree(d + '/cur')
                os.rename(d + '/saved', d + '/cur')
            want = oracle.memmap(model(use, has_elf or e is not None), fn, load)
        elif op == 'elf':
            got, _ = cli.get(fn, load_symbols=load, use_dwarf=use, elf=elf)
            want = oracle.memmap(model(use, has_elf or elf is not None), fn, load)
        elif op == 'other map':
            if lto:
                continue
            # another map file object at the same path, with its own ELF file
            if not other_elf or not with_desc:
                continue
            got, _ = cli.get(fn, load_symbols=load, map_file=other_mf, elf=other_elf)
            target = case['cur']['chip'] if has_elf else case['ref']['chip']
            if target != case['ref']['chip']:
                continue
            want = oracle.memmap(case['ref'], fn, load)
        elif op == 'other elf':
            if lto or not other_elf:
                continue
            # the ELF object decides which sections count and gives the image size
            cur = {**case['cur'], 'elf': case['ref']['elf']}
            got, _ = cli.get(fn, load_symbols=False, elf=other_elf)
            want = oracle.memmap(cur, fn, False)
        elif op == 'diff':
            a, _ = cli.get(fn, load_symbols=load, use_dwarf=use)
            b, _ = cli.get(ref_fn, load_symbols=load, use_dwarf=False)
            with cli.library():
                got = memorymap.diff(a, b)
            want = oracle.diff(oracle.memmap(model(use, has_elf), fn, load), oracle.memmap(case['ref'], ref_fn, load))
            if wreck:
                trash(a)
                trash(b)
                same(got, want, 'difference after its operands were changed')
        elif op == 'unify':
            got, _ = cli.get(fn, load_symbols=load, use_dwarf=use)
            with cli.library():
                memorymap.unify(got)
            want = oracle.unify(oracle.memmap(model(use, has_elf), fn, load))
        elif op == 'raw':
            got = cli.raw(fn, *opts)
            lib, _ = cli.get(fn, use_dwarf=use)
            same(lib, got, 'memory map of the library and raw report')
            want = oracle.memmap(model(use, has_elf), fn)
        elif op == 'raw diff':
            flags2 = ['--no-lto'] if lto else []
            got = cli.raw(fn, *opts, *flags2, '--diff', ref_fn)
            a, _ = cli.get(fn, use_dwarf=False if lto else use)
            b, _ = cli.get(ref_fn, use_dwarf=False if lto else use)
            with cli.library():
                lib = memorymap.diff(a, b)
            same(lib, got, 'difference by the library and raw report')
            if not lto:
                want = oracle.diff(oracle.memmap(model(False, has_elf), fn), oracle.memmap(case['ref'], ref_fn))
        else:
            got = cli.raw(fn, *opts, '--unify')
            lib, _ = cli.get(fn, use_dwarf=use)
            with cli.library():
                memorymap.unify(lib)
            same(lib, got, 'unified memory map of the library and raw report')
        if want is not None:
            same(got, want, f'result of {op}' + ('' if load else ' without symbols') + (f' with use_dwarf={use}' if use is not None else ''))
        check_shape(got)
        if nosym and op in ('plain', 'unify'):
            full, _ = cli.get(fn, use_dwarf=use)
            if op == 'unify':
                with cli.library():
                    memorymap.unify(full)
            same(got, no_symbols(full), 'memory map without symbols')
        if wreck:
            trash(got)
        labels.append(op)
    return labels


def nontrivial(case):
    return len(case['ops']) >= 3 and any(o[0] in ('map', 'elf', 'both', 'positional', 'other map', 'other elf', 'gone') for o in case['ops'])
