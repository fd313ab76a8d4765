"""C01: MapFile reads back what the map says."""

RULE = """
Linker maps written from random layouts (regions, output sections, input sections on one or two lines, fill,
data, superseded, overlaid, outside and empty entries, wild paths, cross references), parsed and compared with
the layout. Non-trivial: at least 3 input sections and some padding or data.
"""

from .. import cli, fw, render
from ..core import check, fail, same
from ..gen import ARCHIVES, ISECS, OBJECTS, balanced, composite, wild

PATH = 'abzAZ01_-+.~@#%=[]{},;:!\'"éЖ中/\\ ()'


def gen_path(d, member=False):
    """A path as it may appear in a map: no leading or trailing space; a member name has balanced parentheses."""
    s = wild(d, exclude='', maxlen=14, alphabet=PATH)
    if member and not balanced(s):
        s = s.replace('(', '_').replace(')', '_')
    return s


@composite
def gen(d):
    chip = d.pick(fw.CHIP_NAMES)
    regs = fw.gen_regions(d, chip, 5, free_zero=True)
    archives = d.sublist(ARCHIVES, 1, 4) + [gen_path(d) + '.a' for _ in range(d.int(0, 2))]
    objects = d.sublist(OBJECTS, 1, 4) + [gen_path(d, True) + '.o' for _ in range(d.int(0, 2))]
    isecs = d.sublist(ISECS, 1, 6) + ['.' + wild(d, exclude=' ', maxlen=20) for _ in range(d.int(0, 2))]
    case = {
        'chip': chip,
        'w': 16 if d.chance(30) else 8,
        'regions': regs,
        'osecs': [
            fw.mend(o, strict=False)
            for o in fw.gen_osecs(d, chip, regs, (archives, objects, isecs), 5, hole=True, overlap_ok=True, big=True)
        ],
        'crt': None,
        'elf': None,
    }
    for o in case['osecs']:
        if d.chance(6):
            # superseded by an empty input section
            at = [i for i, x in enumerate(o['e']) if x[0] == 'i' and x[3] and o['addr'] <= x[2] < o['addr'] + o['size']]
            if at:
                i = d.pick(at)
                o['e'].insert(i + 1, ['i', d.pick(isecs), o['e'][i][2], 0, d.pick(archives), d.pick(objects), 0])
                fw.mend(o, strict=False)
        # the last input section as listed reaches past the end of the output section (relaxation)
        last = [x for x in o['e'] if x[0] == 'i' and x[3] and o['addr'] <= x[2] < o['addr'] + o['size']][-1:]
        if last and o['addr'] and d.chance(8):
            last[0][3] += d.int(1, 64)
    if d.chance(1, of=2000) and case['osecs']:
        # a long file
        case['osecs'][0]['e'][:0] = [['n', d.pick(fw.NOISE)] for _ in range(d.int(6000, 12000))]
    if d.chance(15) and case['osecs']:
        # a section name of the length where the linker starts to wrap
        case['osecs'][0]['name'] = '.' + 'n' * d.int(12, 17)
    if d.chance(60):
        case['crt'] = fw.gen_crt(d, case)
        for entry in case['crt']:
            if d.chance(20):
                entry[0] = 's' * d.int(46, 54)
            elif d.chance(10):
                # a long name with spaces is told from the file only if that has none
                entry[0] = ('Foo<int, char>::' + 'g' * d.int(15, 40))[: d.int(46, 52)] + d.pick(['(int, char const*)', '() const', ''])
                if ' ' in entry[1][0][0] + entry[1][0][1]:
                    entry[1][0] = ['liba.a', 'a.o']
        seen = set()
        case['crt'] = [x for x in case['crt'] if not (x[0] in seen or seen.add(x[0]))]
    return case


def strategy(tier):
    return gen()


def judge(case):
    from esp_idf_size.mapfile import MapFile, MapFileException

    d = cli.fresh_dir()
    fn = d + '/app.map'
    render.write(fn, render.map_text(case))
    with cli.library():
        m = MapFile(fn)
        try:
            m.validate()
            valid = True
        except MapFileException:
            valid = False

    same([[r['name'], r['origin'], r['length'], r['attrs']] for r in m.memory_regions], case['regions'], 'memory regions')
    same(
        [[o['name'], o['address'] or 0, o['size'] or 0] for o in m.sections],
        [[o['name'], o['addr'], o['size']] for o in case['osecs']],
        'output sections',
    )
    labels = []
    expect_valid = True
    for got, o in zip(m.sections, case['osecs']):
        want = fw.counted_isecs(o)
        for s in want:
            s['fill'] = s['fill'] if s['size'] else None
        have = [
            {
                'name': s['name'],
                'addr': s['address'],
                'size': s['size'],
                'archive': s['archive'],
                'object': s['object_file'],
                'fill': s['fill'] if s['size'] else None,
            }
            for s in got['input_sections']
        ]
        same(have, want, f'input sections of {o["name"]}')
        counted = [s for s in want if s['size']]
        for a, b in zip(counted, counted[1:]):
            if a['addr'] + a['size'] + a['fill'] != b['addr']:
                expect_valid = False
    check(valid == expect_valid, f'layout check {"accepts" if valid else "rejects"} the map', repr(m.sections)[:1500])
    labels.append('layout with hole' if not expect_valid else 'layout without hole')
    crt = {sym: [tuple(x) for x in files] for sym, files in case['crt'] or []}
    got = {k: [tuple(x) for x in v] for k, v in (m.cross_reference_table or {}).items()}
    same(got, crt, 'cross reference table')
    if list(got) != list(crt):
        fail('order of the cross reference table', repr(list(got)), repr(list(crt)))
    return labels


def nontrivial(case):
    isecs = sum(1 for o in case['osecs'] for x in o['e'] if x[0] == 'i')
    pads = sum(1 for o in case['osecs'] for x in o['e'] if x[0] in 'fd')
    return isecs >= 3 and pads >= 1
