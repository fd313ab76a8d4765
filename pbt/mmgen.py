"""Random memory maps in the shape memorymap.get() returns."""

import os

TYPES = ['DRAM', 'IRAM', 'Flash Code', 'Flash', 'RTC SLOW']
SECTIONS = ['.dram0.bss', '.dram1.bss', '.iram0.text', '.flash.text', '.text', '.noinit', 'x', '.a.b.c']
ARCHIVES = ['libmain.a', 'one/libmain.a', 'two/libmain.a', '(exe)', 'lib[x].a', '/opt/libc.a', 'C:\\x\\libw.a']
OBJECTS = ['main.c.obj', 'sub/main.c.obj', 'x y.o', 'o']
SYMBOLS = ['main()', 'buf', '.rodata.str1.4', 'size', 'a/b']

LEVELS = ('memory_types', 'sections', 'archives', 'object_files', 'symbols')
POOLS = dict(zip(LEVELS, (TYPES, SECTIONS, ARCHIVES, OBJECTS, SYMBOLS)))
CHILD = dict(zip(LEVELS, LEVELS[1:]))


def abbrev(level, name):
    if level == 'sections':
        return '.' + name.split('.')[-1]
    if level == 'symbols':
        return name
    return os.path.basename(name)


def gen_items(d, level, additive, pools):
    res = {}
    pool = pools[level]
    for name in d.sublist(pool, 1 if additive else 0, d.int(1, 4)):
        child = CHILD.get(level)
        info = {} if level == 'memory_types' else {'abbrev_name': abbrev(level, name)}
        kids = gen_items(d, child, additive, pools) if child else None
        n = sum(k['size'] for k in kids.values()) if kids else 0
        if not (additive and kids):
            n = d.weighted((3, d.int(0, 20)), (3, d.int(0, 100000)), (1, 0), (1, (1 << 32) - 1))
        if level == 'memory_types':
            info.update(size=d.weighted((1, 0), (3, n + d.int(0, 1000)), (1, d.int(0, 1 << 24))), size_diff=0, used=n, used_diff=0)
        else:
            info.update(size=n, size_diff=0)
        if child:
            info[child] = kids
        res[name] = info
    return res


def gen_map(d, pools=POOLS):
    return {
        'version': '1.0',
        'target': d.pick(['esp32', 'esp32c3', 'esp32s3']),
        'target_diff': '',
        'image_size': d.int(0, 1 << 20),
        'image_size_diff': 0,
        'project_path': d.pick(['/a/app.map', '/b/app.map']),
        'project_path_diff': '',
        'memory_types': gen_items(d, 'memory_types', d.chance(60), pools),
    }


def variant(d, items, level='memory_types'):
    """A map close to the given one: entries dropped, added, resized."""
    res = {}
    for name, info in items.items():
        k = d.weighted((6, 'keep'), (2, 'size'), (2, 'drop'))
        if k == 'drop':
            continue
        new = dict(info)
        if k == 'size':
            for key in ('size', 'used'):
                if key in new:
                    new[key] = max(0, new[key] + d.int(-50, 50))
        child = CHILD.get(level)
        if child:
            new[child] = variant(d, info[child], child)
        res[name] = new
    if d.chance(25):
        for name, info in gen_items(d, level, False, POOLS).items():
            res.setdefault(name, info)
    return res


def entries(mm):
    """Number of entries of the map."""

    def count(items, level):
        child = CHILD.get(level)
        return sum(1 + (count(i[child], child) if child else 0) for i in items.values())

    return count(mm['memory_types'], 'memory_types')
