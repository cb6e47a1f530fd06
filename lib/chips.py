"""Reference chip memory layouts, transcribed once from the technical documentation state of the
pinned commit.  Independent of /repo at run time: an edit of a chip_info YAML file that moves a
memory window is observable only against such a copy.

Each entry: (alias, primary address, length, secondary address or 0), in YAML order.
"""

CHIPS = {
    'esp32': [
        ('DRAM', 0x3FFAE000, 17 * 0x2000 + 4 * 0x8000 + 4 * 0x4000, 0),
        ('IRAM', 0x40070000, 0x50000, 0),
        ('Flash Code', 0x400C2000, 0xB3E000, 0),
        ('Flash Data', 0x3F400000, 0x400000, 0),
        ('SPI DRAM', 0x3F800000, 0x400000, 0),
        ('RTC FAST', 0x3FF80000, 0x2000, 0x400C0000),
        ('RTC SLOW', 0x50000000, 0x2000, 0),
    ],
    'esp32c2': [
        ('DIRAM', 0x3FCA0000, 0x40000, 0x40380000),
        ('IRAM', 0x4037C000, 0x4000, 0),
        ('Flash Code', 0x42000000, 0x400000, 0),
        ('Flash Data', 0x3C000000, 0x400000, 0),
    ],
    'esp32c3': [
        ('DRAM', 0x3FC80000, 0x60000, 0x40380000),
        ('IRAM', 0x4037C000, 0x4000, 0),
        ('Flash Code', 0x42000000, 0x800000, 0),
        ('Flash Data', 0x3C000000, 0x800000, 0),
        ('RTC SLOW', 0x50000000, 0x2000, 0),
    ],
    'esp32c5': [
        ('HP SRAM', 0x40800000, 0x60000, 0x40800000),
        ('Flash', 0x42000000, 0x2000000, 0),
        ('CACHE_D', 0x42000000, 0x2000000, 0),
        ('External RAM', 0x42000000, 0x2000000, 0),
        ('LP SRAM', 0x50000000, 0x4000, 0),
    ],
    'esp32c6': [
        ('DIRAM', 0x40800000, 0x80000, 0x40800000),
        ('Flash Code', 0x42000000, 0x1000000, 0),
        ('Flash Data', 0x42000000, 0x1000000, 0),
        ('LP SRAM', 0x50000000, 0x4000, 0),
    ],
    'esp32c61': [
        ('DIRAM', 0x40800000, 0x50000, 0x40800000),
        ('Flash Code', 0x42000000, 0x2000000, 0),
        ('Flash Data', 0x42000000, 0x2000000, 0),
        ('External RAM', 0x42000000, 0x2000000, 0),
        ('LP SRAM', 0x50000000, 0x4000, 0),
    ],
    'esp32h2': [
        ('DIRAM', 0x40800000, 0x50000, 0x40800000),
        ('Flash Code', 0x42000000, 0x1000000, 0),
        ('Flash Data', 0x42000000, 0x1000000, 0),
        ('LP SRAM', 0x50000000, 0x1000, 0),
    ],
    'esp32h21': [
        ('DIRAM', 0x40800000, 0x50000, 0x40800000),
        ('Flash', 0x42000000, 0x1000000, 0),
        ('LP SRAM', 0x50000000, 0x1000, 0),
    ],
    'esp32h4': [
        ('DIRAM', 0x40808000, 0x60000, 0x40808000),
        ('Flash', 0x42000020, 0x2000000, 0),
        ('External RAM', 0x42000020, 0x2000000, 0),
    ],
    'esp32p4': [
        ('DIRAM', 0x4FF00000, 0xC0000, 0x4FF00000),
        ('Flash', 0x40000000, 0x4000000, 0),
        ('CACHE_D_1', 0x40000000, 0x4000000, 0),
        ('External RAM', 0x48000000, 0x4000000, 0),
        ('CACHE_D_2', 0x48000000, 0x4000000, 0),
        ('HP core RAM', 0x30100000, 0x2000, 0x30100000),
        ('LP RAM', 0x50108000, 0x8000, 0x50108000),
    ],
    'esp32s2': [
        ('DIRAM', 0x3FFB2000, 3 * 0x2000 + 18 * 0x4000, 0x40022000),
        ('Flash Data', 0x3F000000, 0x400000, 0),
        ('SPI DRAM', 0x3F500000, 0xA80000, 0),
        ('Flash Code', 0x40080000, 0x780000, 0),
        ('RTC FAST', 0x40070000, 0x2000, 0x3FF9E000),
        ('RTC SLOW', 0x50000000, 0x2000, 0),
    ],
    'esp32s3': [
        ('IRAM', 0x40370000, 0x8000, 0),
        ('DIRAM', 0x3FC88000, 0x8000 + 6 * 0x10000, 0x40378000),
        ('DRAM', 0x3FCF0000, 0x10000, 0),
        ('Flash Code', 0x42000000, 0x2000000, 0),
        ('Flash Data', 0x3C000000, 0x2000000, 0),
        ('External RAM', 0x3C000000, 0x2000000, 0),
        ('RTC FAST', 0x3FF80000, 0x2000, 0x600FE000),
        ('RTC SLOW', 0x50000000, 0x2000, 0),
    ],
    'esp32s31': [
        ('DIRAM', 0x2F000000, 0x80000, 0x2F000000),
        ('Flash', 0x40000000, 0x4000000, 0),
        ('External RAM', 0x50000000, 0x4000000, 0),
        ('LP SRAM', 0x2E000000, 0x8000, 0),
    ],
}

EXT_RAM_ALIASES = ('External RAM', 'SPI DRAM')
EXT_RAM_PREFIXES = ('.ext_ram.bss', '.ext_ram_noinit')


def windows(chip):
    """[(lo, hi, type index)] in lookup order: per type the primary window, then the secondary one."""
    res = []
    for idx, (_alias, prim, length, sec) in enumerate(CHIPS[chip]):
        res.append((prim, prim + length, idx))
        if sec and sec != prim:
            res.append((sec, sec + length, idx))
    return res


def type_at(chip, addr):
    """(type index, end of the matching window) or None."""
    for lo, hi, idx in windows(chip):
        if lo <= addr < hi:
            return idx, hi
    return None


def ext_ram_alias(chip):
    for alias, *_ in CHIPS[chip]:
        if alias in EXT_RAM_ALIASES:
            return alias
    return None
