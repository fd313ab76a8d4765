"""C29: listings of the ELF inspection utility."""

RULE = """
Random ELF files with sections, symbols and DWARF information (encoders of C18 and C19) listed by the utility
(esp_idf_size.elf run as a program) with each of its options; every line compared with what was encoded.
Non-trivial: the listing has three lines or more.
"""

import contextlib
import io
import re
import runpy
import sys
import warnings

from .. import cli, dwarfnames, render
from ..core import check, fail, same
from ..dwarfgen import Encoder, walk
from ..gen import composite
from . import c18, c19

WHAT = [['-S'], ['--sections'], ['-s'], ['--symbols'], ['-d', 'info'], ['-d', 'abbrev'], ['-d', 'files'], ['--debug', 'info'],
        ['--debug=files']]  # fmt: skip
SECTIONS = ['.text', '.data', '.bss', '.x', '.rodata', '.note.gnu', '.ünï', '.a_very_long_section_name.with_parts.and_more']
SHT = {0: 'NULL', 1: 'PROGBITS', 2: 'SYMTAB', 3: 'STRTAB', 4: 'RELA', 5: 'HASH', 6: 'DYNAMIC', 7: 'NOTE', 8: 'NOBITS', 9: 'REL',
       11: 'DYNSYM', 14: 'INIT_ARRAY', 15: 'FINI_ARRAY', 16: 'PREINIT_ARRAY', 17: 'GROUP'}  # fmt: skip
STT = {0: 'NOTYPE', 1: 'OBJECT', 2: 'FUNC', 3: 'SECTION', 4: 'FILE', 5: 'COMMON', 6: 'TLS', 10: r'\S*GNU_IFUNC\S*'}
STB = {0: 'LOCAL', 1: 'GLOBAL', 2: 'WEAK'}
STV = ['DEFAULT', 'INTERNAL', 'HIDDEN', 'PROTECTED']


@composite
def gen(d):
    case = c19.gen()(d)
    while case.get('gcc'):
        case = c19.gen()(d)
    case.pop('first'), case.pop('no_str')
    cls = case['cls']
    case['what'] = d.pick(WHAT)
    case['method'] = d.chance(25)
    case['secs'] = [['.text', 1, 6, 0x1000, 64]]
    for _ in range(d.int(0, 4)):
        typ = d.pick([1, 8, 7, 14, 3, 15, 16, 17, 9, 4, 5, 6, 0x70000003, 0x60000001, 19])
        case['secs'].append([d.pick(SECTIONS), typ, c18.word(d, cls), c18.word(d, cls), d.int(0, 300)])
    for s in case['syms']:
        if case['what'][-1][-5:] != 'files' and d.chance(40):
            s[1:3] = c18.word(d, cls), c18.word(d, cls)
            s[3] = d.weighted((6, d.pick([0, 1, 2, 3, 4, 6, 10])), (1, d.pick([11, 12, 13, 14, 15])))
        if d.chance(20):
            s[4] = d.weighted((4, d.int(0, 2)), (1, d.pick([10, 11, 12, 13, 14, 15])))
        if d.chance(30):
            s[5] = d.int(0, 3)
        if s[6] == 1 and d.chance(30):
            s[6] = d.weighted((3, d.int(1, len(case['secs']))), (1, 0), (1, 0xFFF2), (1, 0xFF00))
        if d.chance(20):
            s[0] = d.pick(['_ZN3fooC1Ev', 'main', 'a.1', 'ünïcode', '$d', 'very_long_symbol_name_' * 4])
    tags, attrs, forms = list(dwarfnames.TAGS), list(dwarfnames.ATTRS), list(dwarfnames.FORMS)
    for u in case['dwarf']['units']:
        if d.chance(40):
            u['unused'] = [
                [d.pick(tags) if not d.chance(10) else d.int(0x4080, 0xFFFF), d.int(0, 1),
                 [[d.pick(attrs) if not d.chance(10) else d.int(0x2000, 0x3FFF), d.pick(forms)] for _ in range(d.int(0, 3))]]
                for _ in range(d.int(1, 3))
            ]  # fmt: skip
    return case


def strategy(tier):
    return gen()


def run(argv):
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ['elf', *argv]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            runpy.run_module('esp_idf_size.elf', run_name='__main__')
        code = 0
    except SystemExit as e:
        code = e.code or 0
    finally:
        sys.argv = old
    return code, out.getvalue(), err.getvalue()


def call(kind, fn):
    """The same listing from the method of the class."""
    from esp_idf_size.elf import Elf

    name = {'S': 'sections', 's': 'symbol_table', 'symbols': 'symbol_table', 'info': 'debug_info', 'abbrev': 'abbrev_table', 'files': 'symbol_cu'}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        getattr(Elf(fn), 'dump_' + name.get(kind, kind))()
    return out.getvalue()


def either(known, number):
    """Pattern for the name of a number."""
    return known.get(number) or r'\S(?:.*\S)?'


def judge(case):
    enc = Encoder(case['dwarf'], case['cls'], case['end'])
    fn = cli.fresh_dir() + '/x.elf'
    data, hdrs = render.elf_file({k: case[k] for k in ('cls', 'end', 'secs', 'syms')}, enc.sections())
    render.write(fn, data)
    what = case['what']
    kind = what[-1].lstrip('-').split('=')[-1]
    if case['method']:
        out = call(kind, fn)
    else:
        code, out, err = run([*what, fn])
        same(code, 0, 'exit status', err)
    lines = out.split('\n')
    check(lines.pop() == '', 'last line is not ended')
    if kind in ('S', 'sections'):
        sections(hdrs, lines)
    elif kind in ('s', 'symbols'):
        symbols(hdrs, lines, [render.NULL_SYM, *case['syms']])
    elif kind == 'files':
        files(case, hdrs, lines)
    elif kind == 'abbrev':
        abbrev(enc, lines)
    else:
        info(case, enc, lines)
    return [kind]


def sections(hdrs, lines):
    same(len(lines), len(hdrs) + 1, 'lines of the section listing')
    for i, (ln, h) in enumerate(zip(lines[1:], hdrs)):
        m = re.fullmatch(rf'{i} +{re.escape(h["name"])} *{either(SHT, h["sh_type"])} +(\w+) +(\w+) +(\w+)', ln)
        check(m, f'line of section {i}', ln, h)
        same([int(x, 16) for x in m.groups()], [h[k] for k in ('sh_addr', 'sh_offset', 'sh_size')], f'address, offset and size of section {i}')


def symbol_line(hdrs, i, sym, cu):
    name, _value, size, typ, bind, other, shndx = sym
    sec = re.escape(hdrs[shndx]['name']) if shndx < len(hdrs) else r'\S+'
    return rf'{i} +(0x[0-9a-f]+) +{size} +{either(STT, typ)} +{either(STB, bind)} +{STV[other & 3]} +{shndx} +{sec} *{re.escape(name)} +{cu}'


def symbols(hdrs, lines, syms):
    same(len(lines), len(syms) + 1, 'lines of the symbol listing')
    for i, (ln, s) in enumerate(zip(lines[1:], syms)):
        m = re.fullmatch(symbol_line(hdrs, i, s, r'\S+'), ln)
        check(m, f'line of symbol {i}', ln, s)
        same(int(m[1], 16), s[1], f'value of symbol {i}')


def files(case, hdrs, lines):
    want = dict(map(tuple, case['attr']))
    table = {}
    for s in case['syms']:
        if s[2] and s[3] in (1, 2) and s[6] != 0xFFF1:
            table.setdefault(s[1], []).append(s)
    same(len(lines), len(table) + 1, 'lines of the listing of units')
    seen = set()
    for i, ln in enumerate(lines[1:]):
        m = re.match(r'\d+ +(0x[0-9a-f]+) ', ln)
        check(m, 'line of a symbol', ln)
        a = int(m[1], 16)
        check(a in table and a not in seen, f'address {a:#x}', ln)
        seen.add(a)
        cu = re.escape(want[a]) if a in want else r'(?!/|rel|<)\S+'
        check(any(re.fullmatch(symbol_line(hdrs, i, s, cu), ln) for s in table[a]), f'line of the symbol at {a:#x}', ln, want.get(a), table[a])


def abbrev(enc, lines):
    rows = []
    for ln in lines:
        m = re.fullmatch(r'<(\w+)> CU<(\d+)> at offset (\w+)', ln)
        if m:
            rows.append(['unit', int(m[2]), int(m[1], 16), int(m[3], 16)])
            continue
        m = re.fullmatch(r'<(\w+)> +(\d+) (\S.*) \[(\d+)\]', ln)
        if m:
            rows.append(['entry', int(m[1], 16), int(m[2]), int(m[4]), m[3]])
            continue
        m = re.fullmatch(r'<(\w+)> +(\S+|UNKNOWN \d+) +(\S+|UNKNOWN \d+)', ln)
        check(m, 'line of the abbreviations', ln)
        if m[2] != 'DW_AT_end':
            rows.append(['attr', int(m[1], 16), m[2], m[3]])
    want = []
    for i, (unit, (at, table)) in enumerate(zip(enc.unit_at, enc.tables)):
        want.append(['unit', i, at, unit])
        for code, tag, kids, off, attrs in table:
            want.append(['entry', off, code, kids, dwarfnames.TAGS.get(tag)])
            for a, f, o in attrs:
                want.append(['attr', o, dwarfnames.ATTRS.get(a), dwarfnames.FORMS.get(f)])
    same(len(rows), len(want), 'lines of the abbreviations')
    for r, w in zip(rows, want):
        r = [w[k] if w[k] is None else r[k] for k in range(min(len(w), len(r)))]  # names of vendors are not judged
        same(r, w, 'line of the abbreviations')


def info(case, enc, lines):
    dies = {}
    for u in case['dwarf']['units']:
        for x in walk(u['die']):
            dies[enc.where[x['id']]] = x
    want = []
    for exp in enc.expected:
        for at, e in exp.items():
            want.append(['entry', e['level'], at, e['code'], dwarfnames.TAGS.get(e['tag']), e['size']])
            for (a, x), (_n, form, v) in zip(e['attrs'].items(), dies[at]['attrs']):
                want.append(['attr', x['offset'], dwarfnames.ATTRS.get(a), 'DW_FORM_' + form, text(x, form, v, _n)])
    rows = []
    for ln in '\n'.join(lines).split('\n'):
        m = re.fullmatch(r'<(\d+)> <(\w+)> Abbrev Number: <(\d+)> \((\S.*)\) size: (\w+)', ln)
        if m:
            if m[3] != '0':
                rows.append(['entry', int(m[1]), int(m[2], 16), int(m[3]), m[4], int(m[5], 16)])
            continue
        m = re.fullmatch(r' +<(\w+)> (UNKNOWN \d+|\S+) +(DW_FORM_\w+) *(.*)', ln)
        check(m, 'line of an entry', ln)
        rows.append(['attr', int(m[1], 16), m[2], m[3], m[4].strip()])
    same(len(rows), len(want), 'lines of the entries')
    for r, w in zip(rows, want):
        if w[0] == 'attr' and isinstance(w[4], int) and r[0] == 'attr':
            try:
                r[4] = int(r[4], 16)
            except ValueError:
                fail(f'value {r[4]!r} of an attribute', w)
        same([b if b is None else a for a, b in zip(r, w)], w, 'line of the entries')


def text(x, form, v, attr):
    """Value as listed: number or text."""
    if form in ('string', 'strp', 'line_strp'):
        return v.strip()
    if isinstance(v, (list, tuple)):
        if v[0] == 'addr' and (form == 'exprloc' or attr == 'location'):
            return v[1]
        return x['value'].hex()
    if isinstance(x['value'], bytes):
        return x['value'].hex()
    return int(x['value'])


def nontrivial(case):
    kind = case['what'][-1]
    if kind in ('-s', '--symbols'):
        return len(case['syms']) > 1
    if kind.endswith('files'):
        return len({a for a, _ in case['attr']} & {s[1] for s in case['syms']}) > 1
    if kind.endswith(('info', 'abbrev')):
        return sum(1 for u in case['dwarf']['units'] for _ in walk(u['die'])) > 2
    return True
