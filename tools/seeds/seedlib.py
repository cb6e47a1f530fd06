"""Helper of a demonstration: writes link maps and ELF files into a scratch directory and runs the tool on them."""
import csv, io, json, os, shutil, struct, subprocess, sys, tempfile

PY = sys.executable
TMP = tempfile.mkdtemp(prefix='seed_demo_')
import atexit
atexit.register(shutil.rmtree, TMP, True)

S3 = [('iram0_0_seg', 0x40374000, 0x57700), ('iram0_2_seg', 0x42000020, 0x7fffe0), ('dram0_0_seg', 0x3fc88000, 0x53700),
      ('drom0_0_seg', 0x3c000020, 0x7fffe0), ('rtc_slow_seg', 0x50000000, 0x2000)]


def mapf(sections, regions=S3, target='ESP32S3', crt=None, name='app', sub=''):
    """sections: [(name, addr, size, [lines or (isec, addr, size, path)])]"""
    d = os.path.join(TMP, sub)
    os.makedirs(d, exist_ok=True)
    o = ['Archive member included to satisfy reference by file (symbol)', '', 'Memory Configuration', '',
         'Name             Origin             Length             Attributes']
    for r in regions:
        o.append('%-16s 0x%016x 0x%016x %s' % (r[0], r[1], r[2], r[3] if len(r) > 3 else 'xrw'))
    o += ['*default*        0x0000000000000000 0xffffffffffffffff', '', 'Linker script and memory map', '']
    if target:
        o += ['                0x0000000000000000                IDF_TARGET_%s = 0x0' % target]
    for s in sections:
        o += ['', '%-15s 0x%016x %10s' % (s[0], s[1], hex(s[2]))] if len(s[0]) < 16 else ['', s[0], '                0x%016x %10s' % (s[1], hex(s[2]))]
        for i in s[3]:
            if isinstance(i, str):
                o.append(i)
            elif len(i[0]) < 15:
                o.append(' %-14s 0x%016x %10s %s' % (i[0], i[1], hex(i[2]), i[3]))
            else:
                o += [' ' + i[0], '                0x%016x %10s %s' % (i[1], hex(i[2]), i[3])]
    o += ['', 'OUTPUT(app.elf elf32-littlearm)', '']
    if crt is not None:
        o += ['Cross Reference Table', '', 'Symbol                                            File']
        for sym, files in crt:
            o.append('%-49s %s' % (sym, files[0]))
            o += [' ' * 50 + f for f in files[1:]]
    fn = os.path.join(d, name + '.map')
    with open(fn, 'w') as f:
        f.write('\n'.join(o) + '\n')
    return fn


def fill(addr, size):
    return ' *fill*         0x%016x %10s' % (addr, hex(size))


def desc(fn, app_elf, target='esp32s3', **kw):
    d = dict(app_elf=app_elf, target=target, build_dir='/build', build_component_info={})
    d.update(kw)
    with open(os.path.join(os.path.dirname(fn), 'project_description.json'), 'w') as f:
        json.dump(d, f)


def elf(path, sections, symbols, extra=()):
    """sections: [(name, addr, size, type, flags)]; symbols: [(name, value, size, type, shndx)]; extra: [(name, data)]"""
    def tab(names):
        b, ix = bytearray(b'\0'), {}
        for n in names:
            ix[n] = len(b)
            b += n.encode() + b'\0'
        return bytes(b), ix
    names = [s[0] for s in sections] + [e[0] for e in extra] + ['.symtab', '.strtab', '.shstrtab']
    shs, shi = tab(names)
    sts, sti = tab([s[0] for s in symbols])
    st = b'\0' * 16 + b''.join(struct.pack('<IIIBBH', sti[n], v, sz, 16 | t, 0, x) for n, v, sz, t, x in symbols)
    body, hd = bytearray(), [struct.pack('<10I', *[0] * 10)]
    def put(name, typ, flags, addr, data, size, link=0, info=0, ent=0):
        hd.append(struct.pack('<10I', shi[name], typ, flags, addr, 52 + len(body), size, link, info, 1, ent))
        if typ != 8:
            body.extend(data)
    for n, a, sz, t, fl in sections:
        put(n, t, fl, a, b'\0' * (sz if t != 8 else 0), sz)
    for n, data in extra:
        put(n, 1, 0, 0, data, len(data))
    put('.symtab', 2, 0, 0, st, len(st), len(hd) + 1, 1, 16)
    put('.strtab', 3, 0, 0, sts, len(sts))
    put('.shstrtab', 3, 0, 0, shs, len(shs))
    eh = b'\x7fELF\1\1\1' + b'\0' * 9 + struct.pack('<HHIIIIIHHHHHH', 2, 94, 1, 0, 0, 52 + len(body), 0, 52, 0, 0, 40, len(hd), len(hd) - 1)
    with open(path, 'wb') as f:
        f.write(eh + body + b''.join(hd))


def dwarf(units):
    """Debug sections (DWARF 4, 32 bit) with one unit for each [(source file, [(function, address)])]"""
    ab = bytes([1, 0x11, 1, 3, 8, 0, 0, 2, 0x2e, 0, 3, 8, 0x11, 1, 0, 0, 0])
    info = b''
    for name, funcs in units:
        b = struct.pack('<HIB', 4, 0, 4) + b'\1' + name.encode() + b'\0'
        for fn, addr in funcs:
            b += b'\2' + fn.encode() + b'\0' + struct.pack('<I', addr)
        b += b'\0'
        info += struct.pack('<I', len(b)) + b
    return [('.debug_info', info), ('.debug_abbrev', ab)]


def run(*args, env=None, cwd=None):
    e = dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    return subprocess.run([PY, '-m', 'esp_idf_size', *args], capture_output=True, text=True, env=e, cwd=cwd)


def raw(*args):
    r = run('--format', 'raw', *args)
    assert r.returncode == 0, r.stderr
    return json.loads(r.stdout)


def rows(*args):
    r = run('--format', 'csv', *args)
    assert r.returncode == 0, r.stderr
    return list(csv.reader(io.StringIO(r.stdout)))
