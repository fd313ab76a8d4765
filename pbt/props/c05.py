"""C05: symbols under the object file that owns their bytes."""

RULE = """
Random firmware with random symbol tables (functions, objects, other kinds, empty, aliases, ROM symbols); the
complete symbol tree compared with the one computed from the layout. Non-trivial: at least 2 sized function or
object symbols.
"""

from .. import cli, fw, oracle, render
from ..core import check, same
from ..gen import composite


@composite
def gen(d):
    case = fw.gen_firmware(d, elf=d.chance(85), osecs=4, regions=4, alloc=95)
    case['grow'] = [d.int(0, 20), d.weighted((3, 1), (1, d.int(1, 100)))] if d.chance(6) else None
    if case['elf'] and case['elf']['syms'] and d.chance(4):
        d.pick(case['elf']['syms'])[0] = ''  # a symbol without name
    return case


def grow(case):
    """A symbol that reaches over the end of its input section."""
    inside = []
    isecs = [s for o in case['osecs'] if o['name'] in fw.counted_names(case) for s in fw.counted_isecs(o) if s['size']]
    isecs.sort(key=lambda s: s['addr'])
    if any(a['addr'] + a['size'] > b['addr'] for a, b in zip(isecs, isecs[1:])):
        return None
    for k, (_name, value, size, typ, *_) in enumerate(case['elf']['syms']):
        for s in isecs:
            if typ in (1, 2) and size and s['addr'] <= value < s['addr'] + s['size']:
                inside.append((k, s['addr'] + s['size'] - value))
    if not inside:
        return None
    k, room = inside[case['grow'][0] % len(inside)]
    new = {**case, 'elf': {**case['elf'], 'syms': [list(s) for s in case['elf']['syms']]}}
    new['elf']['syms'][k][2] = room + case['grow'][1]
    return new, new['elf']['syms'][k][0]


def strategy(tier):
    return gen()


def without_symbols(types):
    return {
        t: {
            **ti,
            'sections': {
                s: {
                    **si,
                    'archives': {
                        a: {**ai, 'object_files': {o: {**oi, 'symbols': {}} for o, oi in ai['object_files'].items()}}
                        for a, ai in si['archives'].items()
                    },
                }
                for s, si in ti['sections'].items()
            },
        }
        for t, ti in types.items()
    }


def judge(case):
    d = cli.fresh_dir()
    fn = render.project(case, d)
    mm, _ = cli.get(fn)
    want, _, _ = oracle.memory_types(case)
    same(mm['memory_types'], want, 'memory types with symbols', repr(case['elf'] and case['elf']['syms']))
    no, _ = cli.get(fn, load_symbols=False)
    same(no, {**mm, 'memory_types': without_symbols(mm['memory_types'])}, 'memory map without symbols')
    if case['grow'] and case['elf']:
        bad = grow(case)
        if bad:
            fn = render.project(bad[0], cli.fresh_dir())
            r = cli.run(['--format', 'raw', fn])
            check(not r.exc and r.code not in (0, None), 'a symbol that does not fit its input section is accepted', repr(r))
            check(bad[1] in r.err, 'the error does not name the symbol that does not fit', repr(r))
            return ['symbol that does not fit']
    return ['ELF' if case['elf'] else 'no ELF']


def nontrivial(case):
    if not case['elf']:
        return False
    return len([s for s in case['elf']['syms'] if s[2] and s[3] in (1, 2)]) >= 2
