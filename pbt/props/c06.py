"""C06: which sections count, and the image size."""

RULE = """
Random section names around the counting rules, random ELF types, flags and sizes; counted sections and image
size compared with the rules. Non-trivial: some sections count and some do not.
"""

from .. import cli, fw, oracle, render
from ..core import check, same
from ..gen import OSECS, OSECS_OTHER, composite, wild

ENDS = ['.text', '.data', '.bss', '.rodata', 'noinit', '.vectors', 'dummy', 'reserved_for_iram', 'noload', '_text', 'text',
        '.noload', '.flash', '.eh_frame', 'x', '.textx', '.Text', 'bss', 'data']  # fmt: skip


def gen_name(d, used):
    k = d.int(0, 3)
    if k == 0:
        n = '.' + ''.join(d.pick('abxyz01_') for _ in range(d.int(0, 5))) + d.pick(ENDS)
    elif k == 1:
        n = d.pick(ENDS) + d.pick(['', '.x', '_end', '.1', '.dummy', '_noload']) + d.pick(ENDS + [''])
        if not n.startswith('.'):
            n = '.' + n
    elif k == 2:
        n = '.' + wild(d, exclude=' ()*/\\', maxlen=8) + d.pick(ENDS)
    else:
        n = d.pick(OSECS + OSECS_OTHER)
    # The linker does not emit .debug_* style names with addresses; the map reader treats all names alike.
    return n if n not in used else None


@composite
def gen(d):
    chip = d.pick(fw.CHIP_NAMES)
    regs = fw.gen_regions(d, chip, 2, unknown=False)
    names = []
    for _ in range(d.int(2, 9)):
        n = gen_name(d, names)
        if n:
            names.append(n)
    case = {'chip': chip, 'w': 8, 'regions': regs, 'crt': None, 'elf': None}
    with_elf = d.chance(60)
    case['osecs'] = [
        fw.mend(o)
        for o in fw.gen_osecs(d, chip, regs, fw.gen_pool(d), len(names), names=names, overlap_ok=not with_elf)
    ]
    if d.chance(10):
        # a section without address
        n = gen_name(d, names)
        if n and n.endswith(tuple(ENDS)):
            case['osecs'].append({'name': n, 'addr': 0, 'size': d.int(1, 99), 'load': None, 'blank': True, 'e': []})
    if with_elf:
        fw.gen_elf(d, case, symbols=False, alloc=d.pick([70, 100, 0, 90]))
        for s in case['elf']['secs']:
            if d.chance(10):
                s[4] = 0 if d.chance(50) else s[4] + d.int(1, 9)
        if d.chance(15):
            case['elf']['secs'] = d.sublist(case['elf']['secs'])
    return case


def strategy(tier):
    return gen()


def judge(case):
    d = cli.fresh_dir()
    fn = render.project(case, d)
    mm, err = cli.get(fn, load_symbols=False)
    want = oracle.memmap(case, fn, False)
    listed = set()
    for ti in mm['memory_types'].values():
        for s in ti['sections']:
            listed.add(s)
    counted = fw.counted_names(case)
    for o in case['osecs']:
        if o['name'] not in counted:
            check(o['name'] not in listed, f'section {o["name"]} must not count', repr(case['elf'] and case['elf']['secs']))
    same(
        {t: {s: si['size'] for s, si in ti['sections'].items()} for t, ti in mm['memory_types'].items()},
        {t: {s: si['size'] for s, si in ti['sections'].items()} for t, ti in want['memory_types'].items()},
        'counted sections',
        repr(case['elf'] and case['elf']['secs']),
    )
    same(mm['image_size'], want['image_size'], 'image size', repr([[o['name'], o['size']] for o in case['osecs']]),
         repr(case['elf'] and case['elf']['secs']))  # fmt: skip
    r = cli.ok(['--format', 'json2', fn])
    same(cli.parse_json(r.out)['total_size'], want['image_size'], 'total_size of the JSON report')
    return ['ELF' if case['elf'] else 'no ELF']


def nontrivial(case):
    n = len(fw.counted_names(case))
    return 0 < n < len(case['osecs'])
