"""Frozen copy of the chips' memory types (the specification the checks use).

chip -> [(name shown to the user, primary address, length, secondary address or 0)], in lookup order.
"""

CHIPS = {
    'esp32': [
        ('DRAM', 0x3ffae000, 0x52000, 0x0),
        ('IRAM', 0x40070000, 0x50000, 0x0),
        ('Flash Code', 0x400c2000, 0xb3e000, 0x0),
        ('Flash Data', 0x3f400000, 0x400000, 0x0),
        ('SPI DRAM', 0x3f800000, 0x400000, 0x0),
        ('RTC FAST', 0x3ff80000, 0x2000, 0x400c0000),
        ('RTC SLOW', 0x50000000, 0x2000, 0x0),
    ],
    'esp32c2': [
        ('DIRAM', 0x3fca0000, 0x40000, 0x40380000),
        ('IRAM', 0x4037c000, 0x4000, 0x0),
        ('Flash Code', 0x42000000, 0x400000, 0x0),
        ('Flash Data', 0x3c000000, 0x400000, 0x0),
    ],
    'esp32c3': [
        ('DRAM', 0x3fc80000, 0x60000, 0x40380000),
        ('IRAM', 0x4037c000, 0x4000, 0x0),
        ('Flash Code', 0x42000000, 0x800000, 0x0),
        ('Flash Data', 0x3c000000, 0x800000, 0x0),
        ('RTC SLOW', 0x50000000, 0x2000, 0x0),
    ],
    'esp32c5': [
        ('HP SRAM', 0x40800000, 0x60000, 0x40800000),
        ('Flash', 0x42000000, 0x2000000, 0x0),
        ('CACHE_D', 0x42000000, 0x2000000, 0x0),
        ('External RAM', 0x42000000, 0x2000000, 0x0),
        ('LP SRAM', 0x50000000, 0x4000, 0x0),
    ],
    'esp32c6': [
        ('DIRAM', 0x40800000, 0x80000, 0x40800000),
        ('Flash Code', 0x42000000, 0x1000000, 0x0),
        ('Flash Data', 0x42000000, 0x1000000, 0x0),
        ('LP SRAM', 0x50000000, 0x4000, 0x0),
    ],
    'esp32c61': [
        ('DIRAM', 0x40800000, 0x50000, 0x40800000),
        ('Flash Code', 0x42000000, 0x2000000, 0x0),
        ('Flash Data', 0x42000000, 0x2000000, 0x0),
        ('External RAM', 0x42000000, 0x2000000, 0x0),
        ('LP SRAM', 0x50000000, 0x4000, 0x0),
    ],
    'esp32h2': [
        ('DIRAM', 0x40800000, 0x50000, 0x40800000),
        ('Flash Code', 0x42000000, 0x1000000, 0x0),
        ('Flash Data', 0x42000000, 0x1000000, 0x0),
        ('LP SRAM', 0x50000000, 0x1000, 0x0),
    ],
    'esp32h21': [
        ('DIRAM', 0x40800000, 0x50000, 0x40800000),
        ('Flash', 0x42000000, 0x1000000, 0x0),
        ('LP SRAM', 0x50000000, 0x1000, 0x0),
    ],
    'esp32h4': [
        ('DIRAM', 0x40808000, 0x60000, 0x40808000),
        ('Flash', 0x42000020, 0x2000000, 0x0),
        ('External RAM', 0x42000020, 0x2000000, 0x0),
    ],
    'esp32p4': [
        ('DIRAM', 0x4ff00000, 0xc0000, 0x4ff00000),
        ('Flash', 0x40000000, 0x4000000, 0x0),
        ('CACHE_D_1', 0x40000000, 0x4000000, 0x0),
        ('External RAM', 0x48000000, 0x4000000, 0x0),
        ('CACHE_D_2', 0x48000000, 0x4000000, 0x0),
        ('HP core RAM', 0x30100000, 0x2000, 0x30100000),
        ('LP RAM', 0x50108000, 0x8000, 0x50108000),
    ],
    'esp32s2': [
        ('DIRAM', 0x3ffb2000, 0x4e000, 0x40022000),
        ('Flash Data', 0x3f000000, 0x400000, 0x0),
        ('SPI DRAM', 0x3f500000, 0xa80000, 0x0),
        ('Flash Code', 0x40080000, 0x780000, 0x0),
        ('RTC FAST', 0x40070000, 0x2000, 0x3ff9e000),
        ('RTC SLOW', 0x50000000, 0x2000, 0x0),
    ],
    'esp32s3': [
        ('IRAM', 0x40370000, 0x8000, 0x0),
        ('DIRAM', 0x3fc88000, 0x68000, 0x40378000),
        ('DRAM', 0x3fcf0000, 0x10000, 0x0),
        ('Flash Code', 0x42000000, 0x2000000, 0x0),
        ('Flash Data', 0x3c000000, 0x2000000, 0x0),
        ('External RAM', 0x3c000000, 0x2000000, 0x0),
        ('RTC FAST', 0x3ff80000, 0x2000, 0x600fe000),
        ('RTC SLOW', 0x50000000, 0x2000, 0x0),
    ],
    'esp32s31': [
        ('DIRAM', 0x2f000000, 0x80000, 0x2f000000),
        ('Flash', 0x40000000, 0x4000000, 0x0),
        ('External RAM', 0x50000000, 0x4000000, 0x0),
        ('LP SRAM', 0x2e000000, 0x8000, 0x0),
    ],
}

EXT_RAM = ('External RAM', 'SPI DRAM')


def windows(chip):
    """Address windows in lookup order: (type name, start, length, offset base)"""
    res = []
    for name, prim, length, sec in CHIPS[chip]:
        res.append((name, prim, length))
        if sec:
            res.append((name, sec, length))
    return res


def window_at(chip, addr):
    for name, start, length in windows(chip):
        if start <= addr < start + length:
            return name, start, length
    return None
