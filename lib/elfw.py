"""Minimal ELF writer (32/64 bit, little/big endian) with an optional DWARF 2-5 .debug_info producer."""

import struct
from typing import List, Optional, Tuple

SHT = {'NULL': 0, 'PROGBITS': 1, 'SYMTAB': 2, 'STRTAB': 3, 'NOTE': 7, 'NOBITS': 8, 'DYNSYM': 11}
STT = {'NOTYPE': 0, 'OBJECT': 1, 'FUNC': 2, 'SECTION': 3, 'FILE': 4, 'COMMON': 5, 'TLS': 6, 'IFUNC': 10, 'PROC': 13}
STB = {'LOCAL': 0, 'GLOBAL': 1, 'WEAK': 2}
SHF_WRITE, SHF_ALLOC, SHF_EXEC = 1, 2, 4
SHN_ABS = 0xFFF1


class Strtab:
    def __init__(self):
        self.data = bytearray(b'\0')
        self.idx = {'': 0}

    def add(self, s) -> int:
        if s not in self.idx:
            self.idx[s] = len(self.data)
            self.data += (s if isinstance(s, bytes) else s.encode()) + b'\0'
        return self.idx[s]


class ElfWriter:
    def __init__(self, bits=32, little=True, machine=243, phdrs=()):
        self.bits, self.little, self.machine = bits, little, machine
        self.en = '<' if little else '>'
        self.sections: List[dict] = [dict(name='', type=0, flags=0, addr=0, data=b'', size=0, link=0, info=0, align=0, entsize=0)]
        self.phdrs = list(phdrs)  # (type, offset, vaddr, paddr, filesz, memsz, flags, align)
        self.nphdr = len(self.phdrs)

    def add(self, name, type_, flags=0, addr=0, data=b'', size=None, link=0, info=0, align=1, entsize=0) -> int:
        self.sections.append(dict(name=name, type=type_, flags=flags, addr=addr, data=bytes(data),
                                  size=len(data) if size is None else size, link=link, info=info, align=align, entsize=entsize))
        return len(self.sections) - 1

    def add_symtab(self, syms: List[Tuple[str, int, int, int, int, int, int]], type_=2, name='.symtab', strname='.strtab') -> None:
        """syms: (name, value, size, type, bind, shndx, visibility)"""
        st = Strtab()
        out = bytearray()
        ent = 16 if self.bits == 32 else 24
        out += b'\0' * ent
        ordered = [s for s in syms if s[4] == 0] + [s for s in syms if s[4] != 0]
        for nm, val, size, typ, bind, shndx, vis in ordered:
            info = (bind << 4) | typ
            if self.bits == 32:
                out += struct.pack(self.en + 'IIIBBH', st.add(nm), val, size, info, vis, shndx)
            else:
                out += struct.pack(self.en + 'IBBHQQ', st.add(nm), info, vis, shndx, val, size)
        link = len(self.sections) + 1
        self.add(name, type_, data=out, link=link, info=1 + sum(1 for s in syms if s[4] == 0), align=4, entsize=ent)
        self.add(strname, 3, data=st.data)

    def write(self) -> bytes:
        shstr = Strtab()
        for s in self.sections:
            shstr.add(s['name'])
        shstr.add('.shstrtab')
        shstrndx = self.add('.shstrtab', 3, data=shstr.data)
        is32 = self.bits == 32
        ehsize, phent, shent = (52, 32, 40) if is32 else (64, 56, 64)
        off = ehsize + self.nphdr * phent
        body = bytearray()
        hdrs = []
        for s in self.sections:
            off_here = off + len(body)
            if s['type'] not in (0, 8):
                body += s['data']
                while len(body) % 4:
                    body += b'\0'
            hdrs.append((shstr.idx[s['name']], s['type'], s['flags'], s['addr'], off_here if s['type'] else 0, s['size'],
                         s['link'], s['info'], s['align'], s['entsize']))
        shoff = off + len(body)
        ident = b'\x7fELF' + bytes([1 if is32 else 2, 1 if self.little else 2, 1, 0]) + b'\0' * 8
        fmt = self.en + ('HHIIIIIHHHHHH' if is32 else 'HHIQQQIHHHHHH')
        eh = ident + struct.pack(fmt, 2, self.machine, 1, 0x40000000, ehsize if self.nphdr else 0, shoff, 0, ehsize,
                                 phent if self.nphdr else 0, self.nphdr, shent, len(self.sections), shstrndx)
        ph = bytearray()
        for h in self.phdrs:
            if is32:
                ph += struct.pack(self.en + '8I', *h)
            else:
                ph += struct.pack(self.en + 'IIQQQQQQ', h[0], h[6], *h[1:6], h[7])
        sh = bytearray()
        for h in hdrs:
            sh += struct.pack(self.en + ('10I' if is32 else 'IIQQQQIIQQ'), *h)
        self.shoff, self.headers = shoff, hdrs
        return bytes(eh + ph + body + sh)


# --------------------------------------------------------------------------------------------
# DWARF

def uleb(v: int) -> bytes:
    out = bytearray()
    while True:
        b = v & 0x7F
        v >>= 7
        if v:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def sleb(v: int) -> bytes:
    out = bytearray()
    while True:
        b = v & 0x7F
        v >>= 7
        if (v == 0 and not b & 0x40) or (v == -1 and b & 0x40):
            out.append(b)
            return bytes(out)
        out.append(b | 0x80)


FORM = dict(addr=0x01, block2=0x03, block4=0x04, data2=0x05, data4=0x06, data8=0x07, string=0x08, block=0x09, block1=0x0A,
            data1=0x0B, flag=0x0C, sdata=0x0D, strp=0x0E, udata=0x0F, ref_addr=0x10, ref1=0x11, ref2=0x12, ref4=0x13, ref8=0x14,
            ref_udata=0x15, sec_offset=0x17, exprloc=0x18, flag_present=0x19, ref_sig8=0x20, line_strp=0x1F,
            implicit_const=0x21, loclistx=0x22, rnglistx=0x23, data16=0x1E, strx=0x1A, ref_sup4=0x1C, strp_sup=0x1D, ref_sup8=0x24, strx1=0x25,
            strx2=0x26, strx3=0x27, strx4=0x28, addrx=0x1B, addrx1=0x29, addrx2=0x2A, addrx3=0x2B, addrx4=0x2C)
TAG = dict(compile_unit=0x11, subprogram=0x2E, variable=0x34, lexical_block=0x0B, base_type=0x24, namespace=0x39,
           formal_parameter=0x05, inlined_subroutine=0x1D, structure_type=0x13, member=0x0D, typedef=0x16, type_unit=0x41,
           GNU_call_site=0x4109, partial_unit=0x3C, array_type=0x01, label=0x0A)
AT = dict(name=0x03, low_pc=0x11, high_pc=0x12, location=0x02, abstract_origin=0x31, specification=0x47, decl_line=0x3B,
          external=0x3F, producer=0x25, comp_dir=0x1B, language=0x13, byte_size=0x0B, inline=0x20, declaration=0x3C,
          const_value=0x1C, type=0x49, ranges=0x55, stmt_list=0x10, encoding=0x3E, signature=0x69, upper_bound=0x2F, decl_file=0x3A,
          prototyped=0x27, frame_base=0x40, sibling=0x01, MIPS_linkage_name=0x2007, GNU_all_call_sites=0x2117, data_member_location=0x38, entry_pc=0x52, str_offsets_base=0x72, addr_base=0x73)


BASE = object()  # the start of the unit's part of a table


class Die:
    def __init__(self, tag, attrs=(), children=None):
        self.tag = tag
        self.attrs = list(attrs)  # (attr, form, value); reference values are Die objects
        self.children = children  # None: no children
        self.offset = None
        self.cu_offset = None


class DwarfWriter:
    def __init__(self, little=True, addr_size=4):
        self.little, self.addr_size = little, addr_size
        self.en = '<' if little else '>'
        self.info = bytearray()
        self.abbrev = bytearray()
        self.str = Strtab()
        self.line_str = Strtab()
        self.later = []  # references to entries of units which are not written yet
        self.str_offsets = bytearray()
        self.addr = bytearray()

    def i(self, v, n):
        return (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little' if self.little else 'big')

    def index(self, kind, v):
        """Index of a string or address in the tables of the current unit"""
        tab = self.tables[kind]
        if kind == 'addr' and isinstance(v, tuple):
            return v[0]  # an index without a table
        if v not in tab:
            tab.append(v)
        return tab.index(v)

    def contribution(self, out, entries, size, tail, dwarf64):
        body = tail + b''.join(self.i(e, size) for e in entries)
        out += (self.i(0xFFFFFFFF, 4) + self.i(len(body) + 2, 8) if dwarf64 else self.i(len(body) + 2, 4)) + self.i(5, 2) + body

    def enc(self, attr, die, form, v, version, osz, cu_off, patches, pos) -> bytes:
        if form == 'addr':
            return self.i(v, self.addr_size)
        if v is BASE:
            return self.i(self.bases[attr], osz)
        if form.startswith('addrx') or form.startswith('strx') and isinstance(v, str):
            v = self.index('addr' if form[0] == 'a' else 'str', v)
            die.raw[attr] = v
            return uleb(v) if form[-1] == 'x' else self.i(v, int(form[-1]))
        if form == 'exprloc' and isinstance(v, int):
            v = die.raw[attr] = b'\xa1' + uleb(self.index('addr', v))
        if form in ('data1', 'data2', 'data4', 'data8', 'data16'):
            return self.i(v, int(form[4:]))
        if form in ('udata', 'loclistx', 'rnglistx', 'strx'):
            return uleb(v)
        if form == 'sdata':
            return sleb(v)
        if form == 'implicit_const' or form == 'flag_present':
            return b''
        if form == 'flag':
            return self.i(v, 1)
        if form == 'string':
            return v.encode() + b'\0'
        if form == 'strp':
            return self.i(self.str.add(v), osz)
        if form == 'line_strp':
            return self.i(self.line_str.add(v), osz)
        if form == 'sec_offset':
            return self.i(v, osz)
        if form in ('strx1', 'strx2', 'strx3', 'strx4', 'ref_sup4', 'ref_sup8'):
            return self.i(v, int(form[-1]))
        if form == 'strp_sup':
            return self.i(v, osz)
        if form == 'ref_sig8':
            return self.i(v, 8)
        if form == 'block1':
            return self.i(len(v), 1) + v
        if form == 'block2':
            return self.i(len(v), 2) + v
        if form == 'block4':
            return self.i(len(v), 4) + v
        if form in ('block', 'exprloc'):
            return uleb(len(v)) + v
        if form in ('ref1', 'ref2', 'ref4', 'ref8', 'ref_addr', 'ref_udata'):
            n = {'ref1': 1, 'ref2': 2, 'ref4': 4, 'ref8': 8, 'ref_addr': osz if version > 2 else self.addr_size, 'ref_udata': 5}[form]
            patches.append((pos, n, form, v, cu_off))
            return b'\0' * n
        raise KeyError(form)

    def add_cu(self, root: Die, version=5, dwarf64=False, unit_type=1, pad=0, share=False, codes=None, fillers=((), ())) -> None:
        """share: use the abbreviation table of the preceding unit, extended; codes: abbreviation code of the n-th entry; fillers: unused strings and addresses at the start of the tables"""
        osz = 8 if dwarf64 else 4
        if share:
            abbrev_off, table, ab, codes = self.last
            del self.abbrev[abbrev_off:]
            ab.pop()  # end of table
        else:
            abbrev_off, table, ab = len(self.abbrev), {}, bytearray()
            codes = codes or (lambda n: n + 1)
        self.last = (abbrev_off, table, ab, codes)
        self.tables = {'str': list(fillers[0]), 'addr': list(fillers[1])}
        self.bases = {'str_offsets_base': len(self.str_offsets) + (16 if dwarf64 else 8), 'addr_base': len(self.addr) + (16 if dwarf64 else 8)}
        cu_off = len(self.info)
        body = bytearray()
        body += self.i(version, 2)
        if version >= 5:
            body += bytes([unit_type, self.addr_size]) + self.i(abbrev_off, osz)
            if unit_type in (4, 5):
                body += self.i(0x1122334455667788, 8)
            elif unit_type in (2, 6):
                body += self.i(0x8877665544332211, 8) + self.i(0x20, osz)
        else:
            body += self.i(abbrev_off, osz) + bytes([self.addr_size])
        hdr_len = (12 if dwarf64 else 4)
        patches = []
        self.dies = []

        def emit(die: Die, parent=None, level=0):
            die.offset = cu_off + hdr_len + len(body)
            die.cu_offset = cu_off
            die.parent, die.level = parent, level
            self.dies.append(die)
            key = (die.tag, die.children is not None, tuple((a, f, v if f == 'implicit_const' else None) for a, f, v in die.attrs))
            if key not in table:
                table[key] = codes(len(table))
                ab.extend(uleb(table[key]) + uleb(TAG[die.tag]) + bytes([1 if die.children is not None else 0]))
                for a, f, v in die.attrs:
                    ab.extend(uleb(AT[a]) + uleb(FORM[f]))
                    if f == 'implicit_const':
                        ab.extend(sleb(v))
                ab.extend(b'\0\0')
            die.code = table[key]
            die.raw = {a: self.bases[a] for a, _f, v in die.attrs if v is BASE}
            body.extend(uleb(table[key]))
            for a, f, v in die.attrs:
                body.extend(self.enc(a, die, f, v, version, osz, cu_off, patches, len(body)))
            if die.children is not None:
                for c in die.children:
                    emit(c, die.offset, level + 1)
                body.extend(b'\0')
            die.end = cu_off + hdr_len + len(body)

        emit(root)
        for pos, n, form, die, cuo in patches:
            off = die.offset
            if off is None:
                assert form == 'ref_addr'
                self.later.append((cu_off + hdr_len + pos, n, die))
                continue
            val = off if form == 'ref_addr' else off - cuo
            if form == 'ref_udata':
                enc = bytearray()
                for k in range(5):
                    enc.append((val >> (7 * k)) & 0x7F | (0x80 if k < 4 else 0))
                body[pos:pos + 5] = enc
            else:
                body[pos:pos + n] = self.i(val, n)
        if self.tables['str']:
            self.contribution(self.str_offsets, [self.str.add(x) for x in self.tables['str']], osz, bytes(2), dwarf64)
        if self.tables['addr']:
            self.contribution(self.addr, self.tables['addr'], self.addr_size, bytes([self.addr_size, 0]), dwarf64)
        body.extend(bytes(pad))
        ab.extend(b'\0')
        self.abbrev += ab
        if dwarf64:
            self.info += self.i(0xFFFFFFFF, 4) + self.i(len(body), 8) + body
        else:
            self.info += self.i(len(body), 4) + body

    def add_to(self, ew: ElfWriter) -> None:
        for pos, n, die in self.later:
            self.info[pos:pos + n] = self.i(die.offset, n)
        self.later = []
        ew.add('.debug_info', 1, data=self.info)
        ew.add('.debug_abbrev', 1, data=self.abbrev)
        ew.add('.debug_str', 1, data=self.str.data)
        ew.add('.debug_line_str', 1, data=self.line_str.data)
        if self.str_offsets:
            ew.add('.debug_str_offsets', 1, data=self.str_offsets)
        if self.addr:
            ew.add('.debug_addr', 1, data=self.addr)
