"""Generated DWARF debugging information and its encoder.

dwarf: {'units': [unit]}; the byte order and address size are those of the ELF file
unit: {'version', 'fmt' (32 or 64), 'die': die, 'share' (use the abbreviations of the unit before), 'pad' (null bytes),
       'unused' (abbreviations no entry uses: [tag, children, [[attribute, form]]], as numbers)}
die: {'id', 'tag', 'attrs': [[attribute, form, value]], 'kids': [die] or None (no children)}

Values: numbers; byte strings as hex text; strings; references as the id of a die; locations as ['addr', address],
['hex', text].
"""

import struct

TAG = {
    'compile_unit': 0x11, 'subprogram': 0x2E, 'variable': 0x34, 'lexical_block': 0x0B, 'inlined_subroutine': 0x1D,
    'formal_parameter': 0x05, 'base_type': 0x24, 'structure_type': 0x13, 'member': 0x0D, 'namespace': 0x39, 'call_site': 0x48,
    'partial_unit': 0x3C, 'vendor': 0x4101,
}  # fmt: skip
AT = {
    'name': 0x03, 'low_pc': 0x11, 'high_pc': 0x12, 'location': 0x02, 'abstract_origin': 0x31, 'byte_size': 0x0B, 'type': 0x49,
    'decl_file': 0x3A, 'decl_line': 0x3B, 'external': 0x3F, 'const_value': 0x1C, 'stmt_list': 0x10, 'comp_dir': 0x1B, 'producer': 0x25,
    'inline': 0x20, 'declaration': 0x3C, 'sibling': 0x01, 'linkage_name': 0x6E, 'signature': 0x69, 'ranges': 0x55, 'language': 0x13,
    'frame_base': 0x40, 'vendor': 0x2116, 'vendor0': 0x2100, 'vendor1': 0x3FFF, 'alignment': 0x88, 'str_offsets': 0x72, 'import': 0x18, 'upper_bound': 0x2F,
}  # fmt: skip
FORM = {
    'addr': 0x01, 'block2': 0x03, 'block4': 0x04, 'data2': 0x05, 'data4': 0x06, 'data8': 0x07, 'string': 0x08, 'block': 0x09,
    'block1': 0x0A, 'data1': 0x0B, 'flag': 0x0C, 'sdata': 0x0D, 'strp': 0x0E, 'udata': 0x0F, 'ref_addr': 0x10, 'ref1': 0x11,
    'ref2': 0x12, 'ref4': 0x13, 'ref8': 0x14, 'ref_udata': 0x15, 'sec_offset': 0x17, 'exprloc': 0x18, 'flag_present': 0x19,
    'strx': 0x1A, 'ref_sup4': 0x1C, 'strp_sup': 0x1D, 'data16': 0x1E, 'line_strp': 0x1F, 'ref_sig8': 0x20, 'implicit_const': 0x21,
    'loclistx': 0x22, 'rnglistx': 0x23, 'ref_sup8': 0x24, 'strx1': 0x25, 'strx2': 0x26, 'strx3': 0x27, 'strx4': 0x28,
}  # fmt: skip
# first version that has the form
SINCE = {
    'sec_offset': 4, 'exprloc': 4, 'flag_present': 4, 'ref_sig8': 4, 'strx': 5, 'ref_sup4': 5, 'strp_sup': 5, 'data16': 5, 'line_strp': 5,
    'implicit_const': 5, 'loclistx': 5, 'rnglistx': 5, 'ref_sup8': 5, 'strx1': 5, 'strx2': 5, 'strx3': 5, 'strx4': 5,
}  # fmt: skip
FIXED = {'data1': 1, 'data2': 2, 'data4': 4, 'data8': 8, 'data16': 16, 'flag': 1, 'ref_sig8': 8, 'ref_sup4': 4, 'ref_sup8': 8,
         'strx1': 1, 'strx2': 2, 'strx3': 3, 'strx4': 4}  # fmt: skip
REFS = {'ref1': 1, 'ref2': 2, 'ref4': 4, 'ref8': 8, 'ref_udata': 5, 'ref_addr': None}
ULEB = ('udata', 'strx', 'loclistx', 'rnglistx')
BLOCKS = {'block1': 1, 'block2': 2, 'block4': 4, 'block': 0, 'exprloc': 0}


def uleb(v, pad=0):
    out = bytearray()
    while True:
        b = v & 0x7F
        v >>= 7
        if v or len(out) + 1 < pad:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def sleb(v):
    out = bytearray()
    while True:
        b = v & 0x7F
        v >>= 7
        if (v == 0 and not b & 0x40) or (v == -1 and b & 0x40):
            out.append(b)
            return bytes(out)
        out.append(b | 0x80)


def walk(die):
    yield die
    for k in die['kids'] or ():
        yield from walk(k)


class Encoder:
    def __init__(self, dwarf, cls, end):
        self.cls, self.end = cls, end
        self.units = dwarf['units']
        self.strs, self.line_strs = b'\0', b'\0'
        self.stroff, self.lineoff = {'': 0}, {'': 0}
        self.abbrev = b''
        self.where = {}  # id of a die -> offset in .debug_info
        self.unit_at = []
        self.expected = []  # per unit: {offset: {...}}
        self.tables = []  # per unit: (offset, abbreviations)
        self.encode()

    def int(self, v, n):
        return v.to_bytes(n, 'little' if self.end == '<' else 'big')

    def string(self, s, line=False):
        offs = self.lineoff if line else self.stroff
        if s not in offs:
            offs[s] = len(self.line_strs if line else self.strs)
            data = s.encode() + b'\0'
            if line:
                self.line_strs += data
            else:
                self.strs += data
        return offs[s]

    def location(self, v):
        if v[0] == 'addr':
            return b'\x03' + self.int(v[1], self.cls // 8)
        return bytes.fromhex(v[1])

    def value(self, unit, form, v):
        """-> (encoded bytes, value as decoded); references are looked up in self.where (0 in the first pass)"""
        off = 8 if unit['fmt'] == 64 else 4
        if form in ('addr',):
            return self.int(v, self.cls // 8), v
        if form == 'sec_offset' or form == 'strp_sup':
            return self.int(v, off), v
        if form in FIXED:
            return self.int(v, FIXED[form]), v
        if form in ULEB:
            return uleb(v), v
        if form == 'sdata':
            return sleb(v), v
        if form == 'implicit_const':
            return b'', v
        if form == 'flag_present':
            return b'', True
        if form in BLOCKS:
            data = self.location(v) if isinstance(v, (list, tuple)) else bytes.fromhex(v)
            n = BLOCKS[form]
            return (self.int(len(data), n) if n else uleb(len(data))) + data, data
        if form == 'string':
            return v.encode() + b'\0', v.encode()
        if form in ('strp', 'line_strp'):
            o = self.string(v, form == 'line_strp')
            return self.int(o, off), o
        if form in REFS:
            target = self.where.get(v, 0)
            if form == 'ref_addr':
                n = self.cls // 8 if unit['version'] == 2 else off
                return self.int(target, n), target
            u_at = unit['_at']
            rel = max(0, target - u_at)
            if form == 'ref_udata':
                return uleb(rel, 5), target
            n = REFS[form]
            rel &= (1 << 8 * n) - 1
            return self.int(rel, n), u_at + rel
        raise ValueError(form)

    def shape(self, die):
        return (
            die['tag'], die['kids'] is not None,
            tuple((a, f, v if f == 'implicit_const' else None) for a, f, v in die['attrs']),
        )  # fmt: skip

    def abbreviations(self, shapes, unused=()):
        out = b''
        table = []  # as listed: code, tag, children, offset, [attribute, form, offset]
        rows = [(TAG[t], int(k), [(AT[a], FORM[f], v) for a, f, v in attrs]) for t, k, attrs in shapes]
        for code, (tag, kids, attrs) in enumerate(rows + [(t, k, [(a, f, 0) for a, f in attrs]) for t, k, attrs in unused], 1):
            row = [code, tag, kids, len(self.abbrev) + len(out), []]
            table.append(row)
            out += uleb(code) + uleb(tag) + bytes([kids])
            for a, f, v in attrs:
                row[4].append([a, f, len(self.abbrev) + len(out)])
                out += uleb(a) + uleb(f)
                if f == FORM['implicit_const']:
                    out += sleb(v)
            out += b'\0\0'
        return out + b'\0', table

    def encode(self):
        # abbreviation tables; units may share the table of the unit before
        groups = []
        for u in self.units:
            if u.get('share') and groups:
                groups[-1].append(u)
            else:
                groups.append([u])
        for g in groups:
            shapes = {}
            for u in g:
                for die in walk(u['die']):
                    shapes.setdefault(self.shape(die), len(shapes) + 1)
            at = len(self.abbrev)
            data, table = self.abbreviations(shapes, g[0].get('unused', ()))
            self.abbrev += data
            for u in g:
                u['_codes'], u['_abbrev'] = shapes, at
                self.tables.append((at, table))
        for _ in range(2):  # sizes do not depend on the targets of references
            self.info = b''
            self.expected = []
            self.unit_at = []
            for u in self.units:
                self.unit(u)
        for u in self.units:
            for k in ('_codes', '_abbrev', '_at'):
                u.pop(k)

    def unit(self, u):
        u['_at'] = len(self.info)
        self.unit_at.append(u['_at'])
        off = 8 if u['fmt'] == 64 else 4
        asize = bytes([self.cls // 8])
        ab = self.int(u['_abbrev'], off)
        head = self.int(u['version'], 2) + (b'\x01' + asize + ab if u['version'] == 5 else ab + asize)
        first = 4 if u['fmt'] == 32 else 12
        base = u['_at'] + first + len(head)
        exp = {}
        body = self.die(u, u['die'], base, None, 0, exp) + bytes(u.get('pad', 0))
        length = len(head) + len(body)
        self.info += (self.int(length, 4) if u['fmt'] == 32 else b'\xff' * 4 + self.int(length, 8)) + head + body
        self.expected.append(exp)

    def die(self, u, die, at, parent, level, exp):
        self.where[die['id']] = at
        out = uleb(u['_codes'][self.shape(die)])
        attrs = {}
        e = {'tag': TAG[die['tag']], 'code': u['_codes'][self.shape(die)], 'parent': parent, 'level': level, 'attrs': attrs, 'offset': at}
        exp[at] = e
        for a, f, v in die['attrs']:
            data, val = self.value(u, f, v)
            attrs[AT[a]] = {'form': FORM[f], 'value': val, 'offset': at + len(out), 'size': len(data)}
            out += data
        if die['kids'] is not None:
            for k in die['kids']:
                out += self.die(u, k, at + len(out), at, level + 1, exp)
            out += b'\0'
        e['size'] = len(out)
        return out

    def sections(self, extra=b''):
        res = [
            {'name': '.debug_info', 'type': 1, 'data': self.info},
            {'name': '.debug_abbrev', 'type': 1, 'data': self.abbrev},
            {'name': '.debug_str', 'type': 1, 'data': self.strs},
            {'name': '.debug_line_str', 'type': 1, 'data': self.line_strs},
        ]
        return res


# ---------------------------------------------------------------- generator


def gen_number(d, bits):
    k = d.int(0, 4)
    if k == 0:
        return d.pick([0, 1, 0x3F, 0x40, 0x7F, 0x80, 0xFF]) & (1 << bits) - 1
    if k == 1:
        return d.pick([(1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1])
    if k == 2:
        return d.int(0, (1 << bits) - 1)
    return d.int(0, min((1 << bits) - 1, 300))


NAMES = ['main', 'x', '', 'a.c', '/src/main/app.c', 'ünïcode', 'very long name ' * 5, 'int', 'GNU C17 13.2.0 -g']


class Gen:
    """Builds units around given symbols: plan is a list of (address, 'FUNC' or 'OBJECT', size) to describe."""

    def __init__(self, d, cls):
        self.d, self.cls = d, cls
        self.n = 0
        self.dies = {}  # id -> unit index
        self.tags = {}

    def new(self, tag, kids=None):
        self.n += 1
        die = {'id': self.n, 'tag': tag, 'attrs': [], 'kids': kids}
        return die

    def extra(self, die, unit, hi=3):
        """Attributes which do not matter for symbols, in every form of the version."""
        d = self.d
        used = {a for a, _, _ in die['attrs']}
        free = [a for a in AT if a not in used and a not in ('low_pc', 'location', 'abstract_origin', 'name', 'sibling', 'import')]
        for _ in range(d.int(0, hi)):
            if not free:
                break
            a = free.pop(d.int(0, len(free) - 1))
            forms = [f for f in FORM if SINCE.get(f, 2) <= unit['version'] and f not in REFS and f != 'addr']
            f = d.pick(forms)
            if f == 'exprloc':
                v = d.pick([['hex', ''], ['hex', '9c'], ['addr', 0x1000], ['hex', '91fc7e'], ['hex', '96' * d.pick([127, 128, 256, 400])]])
            elif f in BLOCKS:
                v = bytes(d.int(0, 255) for _ in range(d.weighted((6, d.int(0, 6)), (1, 130), (1, 255 if f == 'block1' else d.pick([255, 256, 300]))))).hex()
            elif f in FIXED:
                v = gen_number(d, 8 * FIXED[f]) if f != 'flag' else d.int(0, 1)
            elif f in ULEB:
                v = gen_number(d, d.pick([7, 8, 14, 32, 64]))
            elif f in ('sdata', 'implicit_const'):
                v = gen_number(d, d.pick([6, 7, 13, 14, 32, 63])) * d.pick([1, -1]) - d.pick([0, 1])
            elif f in ('sec_offset', 'strp_sup'):
                v = gen_number(d, 32)
            elif f == 'flag_present':
                v = True
            else:
                v = d.pick(NAMES)
            die['attrs'].append([a, f, v])
        if d.chance(20):
            die['attrs'].append(['import', 'addr', gen_number(d, self.cls)])

    def name(self, die, unit, text=None):
        d = self.d
        forms = ['string', 'strp'] + (['line_strp'] if unit['version'] == 5 else [])
        die['attrs'].append(['name', d.pick(forms), d.pick(NAMES) if text is None else text])

    def loc(self, unit, v):
        """A location in the form of the version."""
        f = 'exprloc' if unit['version'] >= 4 else self.d.pick(['block1', 'block1', 'block2', 'block4', 'block'])
        return ['location', f, v]

    def define(self, unit, item, origin=None):
        """The entry which defines a symbol."""
        d = self.d
        addr, kind = item[0], item[1]
        die = self.new('subprogram' if kind == 'FUNC' else 'variable', [] if d.chance(50 if kind == 'FUNC' else 5) else None)
        key = ['low_pc', 'addr', addr] if kind == 'FUNC' else self.loc(unit, ['addr', addr])
        parts = [key]
        if origin is not None:
            parts.append(['abstract_origin', d.pick(['ref_addr', 'ref4', 'ref8', 'ref_udata', 'ref2']), origin])
        else:
            self.name(die, unit)
            parts += die['attrs']
            die['attrs'] = []
        die['attrs'] = d.shuffle(parts)
        self.extra(die, unit, 2)
        return die

    def noise(self, unit, depth=0):
        """An entry which defines no symbol."""
        d = self.d
        tag = d.pick(['base_type', 'structure_type', 'subprogram', 'variable', 'lexical_block', 'inlined_subroutine', 'formal_parameter',
                      'namespace', 'vendor'])  # fmt: skip
        die = self.new(tag, [] if d.chance(40) else None)
        if d.chance(60):
            self.name(die, unit)
        if tag == 'variable' and d.chance(60):
            die['attrs'].append(self.loc(unit, ['hex', d.pick(['', '9110', '56', '9f', '0391'[:0] + '91fc7e'])]))
            if unit['version'] >= 4 and d.chance(20):
                die['attrs'][-1] = ['location', 'sec_offset', d.int(0, 500)]
            elif d.chance(10):
                die['attrs'][-1] = ['location', 'data4', d.int(0, 500)]
        if tag in ('inlined_subroutine', 'lexical_block') and d.chance(70):
            die['attrs'].append(['low_pc', 'addr', gen_number(d, self.cls)])
        self.extra(die, unit)
        if die['kids'] is None and depth and d.chance(25):
            die['kids'] = []
        if die['kids'] is not None and depth < 12:
            for _ in range(d.int(0, 3) if depth < 3 else 1):
                die['kids'].append(self.noise(unit, depth + 1))
        return die


def gen_dwarf(d, cls, plan, sources, units=(1, 4), noise=4, versions=(2, 3, 4, 5)):
    """-> (dwarf, {address: source file of the unit})

    plan: [(address, kind)] to be described; sources: names of source files to pick from
    """
    g = Gen(d, cls)
    us, attr = [], {}
    n = d.int(*units)
    for k in range(n):
        u = {'version': d.pick(versions), 'fmt': 64 if d.chance(20) else 32, 'share': d.chance(20), 'pad': d.weighted((4, 0), (1, d.int(1, 4)))}
        cu = g.new('compile_unit', [])
        u['src'] = d.pick(sources)
        g.name(cu, u, u['src'])
        g.extra(cu, u)
        cu['attrs'] = d.shuffle(cu['attrs'])
        u['die'] = cu
        u['abstract'] = {'FUNC': [], 'OBJECT': []}
        us.append(u)
        for _ in range(d.int(0, noise)):
            cu['kids'].append(g.noise(u))
        for _ in range(d.weighted((2, 0), (1, 1), (1, 2))):
            # an abstract instance: no address
            kind = d.pick(['FUNC', 'FUNC', 'OBJECT'])
            a = g.new('subprogram' if kind == 'FUNC' else 'variable', None)
            g.name(a, u)
            g.extra(a, u, 1)
            cu['kids'].append(a)
            u['abstract'][kind].append(a['id'])
    for item in plan:
        k = d.int(0, n - 1)
        u = us[k]
        src = u['src']
        origin = None
        if d.chance(30):
            # the abstract origin may lie in another unit (link-time optimisation)
            k2 = d.int(0, n - 1)
            pool = us[k2]['abstract'][item[1]]
            if pool:
                origin = d.pick(pool)
                src = us[k2]['src']
        die = g.define(u, item, origin)
        if origin is not None:
            for a in die['attrs']:
                if a[0] == 'abstract_origin' and (k2 != k):
                    a[1] = 'ref_addr'
        # at the top, or inside another entry
        place = u['die']
        while d.chance(30):
            inner = [x for x in place['kids'] if x['kids'] is not None]
            if not inner:
                break
            place = d.pick(inner)
        place['kids'].insert(d.int(0, len(place['kids'])), die)
        attr[item[0]] = src
    for u in us:
        ids = [x['id'] for x in walk(u['die'])]
        for x in walk(u['die']):
            if d.chance(10) and all(a[0] != 'sibling' for a in x['attrs']):
                x['attrs'].insert(d.int(0, len(x['attrs'])), ['sibling', d.pick(['ref1', 'ref2', 'ref4', 'ref8', 'ref_udata', 'ref_addr']), d.pick(ids)])
        u.pop('abstract')
        u.pop('src')
    return {'units': us}, attr
