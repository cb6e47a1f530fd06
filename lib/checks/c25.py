"""Reports do not depend on the locale or the encoding of standard output."""

import json
import os
import random
import re

import driver
import model
import reports
import view
from checks import c16
from checks.c12 import report_args
from checks.common import put, seeds, shape

RULE = ('One case is a project with names in several scripts (map and ELF file, project description written as UTF-8 without escapes, with and without LTO), reported in this process with UTF-8 and in a process of its '
        'own with another encoding of standard output (PYTHONIOENCODING) or in the C locale without UTF-8 mode, on standard output or with -o. The bytes have to be those of the UTF-8 report with characters which '
        'the encoding lacks written as backslash escapes; box drawing characters of tables and trees are compared after normalisation. Non-trivial: distinct (project, report, encoding).')
REQUIRED = {'processes': 150, 'enc_ascii': 40, 'enc_cp1252': 8, 'enc_latin-1': 8, 'enc_shift_jis': 8, 'c_locale': 40, 'output_files': 30, 'escaped': 60, 'unescaped': 20, 'lto': 15, 'json': 20, 'tables': 20, 'trees': 10, 'csv': 20,
            'doc': 3, 'dependency': 5, 'diffs': 20}
ASSUMPTIONS = ['file names of the projects themselves are ASCII: the C locale cannot name other files', 'only the C and C.UTF-8 locales are installed here; other encodings are set for standard output']
WORDS = ['Ünï', 'größe', '日本', 'Ω', 'é', 'naïve', '😀', 'дом', 'ｶﾅ', '€', 'ﬁ', 'x', 'main', 'foo_bar', 'ß', '部品']
C_LOCALE = {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'PYTHONIOENCODING': ''}
ENCODINGS = ['ascii', 'cp1252', 'latin-1', 'shift_jis', 'koi8-r', 'cp437', 'utf-8', 'iso8859-15']


def cases(tier, seed):
    n = 1 if tier == 'quick' else 12
    res = [('gen', s) for s in seeds('C25', seed, 280 * n)] + [('lto', s) for s in seeds('C25l', seed, 90 * n)] + [('doc', s) for s in seeds('C25d', seed, 4)]
    random.Random(seed).shuffle(res)
    return res


def word(rng):
    return rng.choice(['', '_', '-']).join(rng.choice(WORDS) for _ in range(rng.choice([1, 2, 3])))


def rename(rng, p):
    """Names in other scripts, consistently"""
    arch, objs, files = {}, {}, {}
    used = set()

    def fresh(f):
        while True:
            n = f()
            if n not in used:
                used.add(n)
                return n

    for o in p.osecs:
        if p.with_elf and o.alloc and rng.random() < 0.3 and not o.name.startswith('.ext_ram') and not o.name.endswith(('dummy', 'reserved_for_iram', 'noload')):
            o.name = fresh(lambda: f'.{word(rng)}.{word(rng)}')
        for i in o.isecs:
            old = model.file_of(i)
            if i.archive is not None:
                if i.archive not in arch:
                    arch[i.archive] = fresh(lambda: rng.choice(['', '/x/', f'{word(rng)}/']) + f'lib{word(rng)}.a') if rng.random() < 0.6 else i.archive
                a = arch[i.archive]
            else:
                a = None
            if (i.archive, i.obj) not in objs:
                objs[i.archive, i.obj] = fresh(lambda: ('d/' if a is None else '') + word(rng) + '.c.obj') if rng.random() < 0.6 else i.obj
            i.archive, i.obj = a, objs[i.archive, i.obj]
            files[old] = model.file_of(i)
            for y in i.syms:
                if rng.random() < 0.3 and not any(y.name == c[0] for c in p.crt):
                    y.name = fresh(lambda: f'{word(rng)}{rng.randrange(1000)}')
    p.crt = [(s, files.get(d, d), [files.get(r, r) for r in rr]) for s, d, rr in p.crt]


def depth(m):
    return f'{len(m.group(0)) // 4}:'


def normal(fmt, text):
    """The report without the characters that draw boxes and guides."""
    lines = []
    for x in text.split('\n'):
        if fmt in ('table', 'text'):
            if not x.strip() or re.fullmatch(r'[┏┳┓┃┡╇┩│├┼┤└┴┘━─+|=\- ]*', x):
                continue
            lines.append(re.sub(r' *[┃│|] *', '|', x).strip())
        else:
            lines.append(re.sub(r'^(?:[│|] {3}| {4})*(?:├── |└── |\+-- |`-- )?', depth, x))
    return lines


def compare(ctx, fmt, want, got, enc, what, **detail):
    if fmt in ('table', 'text', 'tree') and not enc.startswith('utf'):
        ctx.equal([x.encode(enc, 'backslashreplace').decode(enc) for x in normal(fmt, want)], normal(fmt, got.decode(enc)), what, **detail)
    else:
        ctx.equal(want.encode(enc, 'backslashreplace'), got, what, **detail)


def case(ctx, c):
    kind, s = c
    rng = random.Random(s)
    if kind == 'doc':
        return doc(ctx, rng)
    q = fq = None
    if kind == 'lto':
        L = c16.Lto(s)
        p = L.p
        p.style['desc_utf8'] = True
        fn = L.write(ctx, 'prj', sdkconfig={'COMPILER_LTO_LINKTIME': True, 'TEXT': 'Größe'})
        ctx.count('lto')
        if view.archive_names(view.from_project(L.q)) and rng.random() < 0.8:
            fmt = rng.choice(['table', 'csv', 'json2', 'tree', 'raw'])
            opts = rng.choice([['--archives'], ['--files'], ['--archives', '--no-abbrev']])
        else:
            fmt, opts = 'raw', []
    else:
        p = model.generate(s)
        rename(rng, p)
        p.style['desc_utf8'] = True
        if rng.random() < 0.5:
            q = model.mutate(p, s)
        fn = put(ctx, p, proj_desc={'project_path': '/home/日本/ü', 'git': word(rng)} if p.with_elf else None)
        fq = put(ctx, q, 'ref') if q else None
        fmt, opts = report_args(rng, p, q, fn, fq)
        ctx.count('diffs', '--diff' in opts)
    if '--archive-details' in opts and not opts[opts.index('--archive-details') + 1].isascii():
        opts = ['--archives', '--no-abbrev']  # the C locale cannot pass the name
    args = ['--format', fmt, *opts, fn]
    r = reports.run_ok(ctx, args)
    ctx.count('dependency', '--archive-dependencies' in opts)
    ctx.count({'table': 'tables', 'text': 'tables', 'tree': 'trees', 'csv': 'csv', 'json2': 'json', 'raw': 'json'}.get(fmt, 'other'))
    mode = rng.choice(['io', 'io', 'c', 'file', 'io-file'])
    if mode in ('io', 'io-file'):
        enc = rng.choice(ENCODINGS)
        env = {'LC_ALL': 'C.UTF-8', 'PYTHONIOENCODING': enc}
    else:
        enc, env = 'ascii', C_LOCALE
        ctx.count('c_locale')
    if mode.endswith('file'):
        out = os.path.join(ctx.sub('out'), 'report')
        e = driver.child(['-o', out, *args], env)
        ctx.equal((0, b''), (e.returncode, e.stdout), f'status and standard output with -o ({mode}, {enc})', args=args, err=e.stderr[-1500:])
        with open(out, 'rb') as f:
            got = f.read()
        ctx.count('output_files')
        if mode == 'io-file':
            enc = 'utf-8'
    else:
        e = driver.child(args, env)
        ctx.equal(0, e.returncode, f'status ({mode}, {enc})', args=args, err=e.stderr[-1500:])
        got = e.stdout
    ctx.count('processes')
    ctx.count('enc_' + enc)
    ctx.count('escaped' if rb'\u' in got or rb'\x' in got else 'unescaped')
    compare(ctx, fmt, r.out, got, enc, f'report in {enc} ({mode})', args=args)
    if fmt in ('json2', 'raw') and enc != 'utf-16':
        ctx.equal(json.loads(r.out), json.loads(got.decode(enc)), f'JSON in {enc} ({mode})', args=args)
    eenc = 'utf-8' if mode.startswith('io') and enc == 'utf-8' and mode != 'io-file' else env['PYTHONIOENCODING'] or 'ascii'
    ctx.equal(r.err.encode(eenc, 'backslashreplace'), e.stderr, f'messages in {eenc} ({mode})', args=args)
    ctx.nontrivial(shape(p), fmt, tuple(opts), enc, mode)
    ctx.sample({'args': args, 'encoding': enc, 'mode': mode, 'first': got[:120].decode(enc, 'replace')})


def doc(ctx, rng):
    """--doc is available everywhere"""
    for env in (C_LOCALE, {'PYTHONIOENCODING': rng.choice(ENCODINGS)}):
        e = driver.child(['--doc'], env)
        ctx.check(e.returncode == 0 and b'--archives' in e.stdout, '--doc', code=e.returncode, err=e.stderr[-1000:])
    ctx.count('doc')
    ctx.nontrivial('doc', rng.random())
