"""Target and ELF file are taken from the right place."""

import copy
import json
import os
import random
import shutil

import driver
import model
import render
import reports
import truth
import view
from chips import CHIPS
from checks.common import describe, put, seeds, shape

RULE = ('One case is a directory layout: a map file naming a chip in one of three ways or not at all; a project description that belongs to it, to another executable with a similar name, is missing, '
        'unreadable or incomplete; ELF files where they belong and decoys (other symbols, other image size, other chip) in build_dir, the working directory, next to the map and below other names; the '
        'directory is then moved and named by absolute and relative paths. The chip and every number of the raw report and of memorymap.get() are compared with the model of the file that has to be '
        'used, for the map file and for the reference. Non-trivial: distinct (layout, project).')
REQUIRED = {'desc_used': 300, 'desc_other': 200, 'desc_missing': 80, 'desc_unreadable': 80, 'desc_without_target': 50, 'elf_used': 250, 'elf_ignored': 250, 'elf_absent': 50, 'relocated': 150,
            'relative_path': 150, 'decoy_target': 200, 'decoy_build_dir': 100, 'decoy_cwd': 100, 'subdir_elf': 40, 'near_name': 100, 'refused_unknown': 60, 'refused_none': 30, 'refused_path': 40, 'reference': 150,
            'target_by_cmake4': 40, 'target_by_make': 15, 'api': 150, 'multi_exec': 60, 'other_suffix': 150, 'linked_elf': 80, 'linked_map': 80}
NAMES = ['app', 'app.v2', 'boot-loader', 'my fw', 'bootloader', 'fw-1.2.3', 'x', 'ünï']
UNKNOWN = ['esp99', 'esp32x', 'esp', 'linux', 'esp32-c3', 'esp32s', 'chip_info', 'esp8266', '.', '..', 'esp32.yaml', ' esp32', 'esp32 ']


def cases(tier, seed):
    n = 1 if tier == 'quick' else 15
    res = [('one', s) for s in seeds('C20', seed, 2400 * n)] + [('ref', s) for s in seeds('C20r', seed, 600 * n)] + [('refuse', s) for s in seeds('C20u', seed, 500 * n)]
    res += [('multi', s) for s in seeds('C20m', seed, 250 * n)]
    random.Random(seed).shuffle(res)
    return res


def case(ctx, c):
    kind, s = c
    {'one': one, 'ref': ref, 'refuse': refuse, 'multi': multi}[kind](ctx, random.Random(s), s)


def near(rng, name):
    """The name of another executable."""
    c = [name + '2', name + '_test', name[:-1] or 'y', name.upper() if name.upper() != name else name + 'X', name + '.v3', 'z' + name, name + ' ', name.split('.')[0] if '.' in name else name + '.1', 'other', '', '.elf',
         name + '.map', name + '.elf']
    return rng.choice([x for x in c if x != name])


def decoy_elf(p):
    """An ELF file of the same project that must not be used."""
    e = copy.deepcopy(p)
    for o in e.osecs:
        o.nobits = not o.nobits
        for i in o.isecs:
            for y in i.syms:
                y.name = 'decoy_' + y.name
    return render.elf_bytes(e)


class Layout:
    """One project directory and what has to be used of it."""

    def __init__(self, ctx, rng, s, d, full=None):
        self.ctx, self.rng = ctx, rng
        self.name = rng.choice(NAMES)
        self.desc = rng.choice(['used', 'used', 'used', 'used', 'other', 'other', 'missing', 'unreadable', 'no_target'])
        used = self.desc in ('used', 'no_target')
        by = rng.choice(['IDF_TARGET', 'IDF_TARGET', 'cmake4', 'make', 'none']) if self.desc == 'used' else rng.choice(['IDF_TARGET', 'IDF_TARGET', 'cmake4', 'make'])
        chip = rng.choice(['esp32', 'esp32s2', 'esp32s3']) if by == 'make' else rng.choice(sorted(CHIPS))
        p = self.p = model.generate(s, chip=chip, elf=True, nsec=rng.choice([2, 4, 6]))
        p.name = self.name
        other = rng.choice([c for c in sorted(CHIPS) if c != chip] + (UNKNOWN[:5] if rng.random() < 0.5 else []))
        p.style['target_by'] = by
        if by == 'none':
            p.style['target_line'] = False
        elif self.desc == 'used' and rng.random() < 0.6:
            # the description has precedence
            p.style['map_target'] = other if '-' not in other else 'esp32h2' if chip != 'esp32h2' else 'esp32'
            ctx.count('decoy_target')
        os.makedirs(d)
        self.dir = d
        with open(os.path.join(d, f'{self.name}.map'), 'w', encoding='utf-8', newline='') as f:
            f.write(render.map_text(p))
        ctx.count(f'target_by_{by}')

        # project description
        sub = rng.choice(['', '', '', 'sub', 'a/b', '../up' + str(s)]) if used else ''
        # the stem tells what it belongs to
        suffix = rng.choice(['.elf', '.elf', '.elf', '.elf', '.out', '.axf', '.ELF', '.e', '' if '.' not in self.name else '.x']) if used else '.elf'
        ctx.count('other_suffix', suffix != '.elf')
        app_elf = os.path.join(sub, self.name + suffix)
        if sub:
            ctx.count('subdir_elf')
        self.build_dir = os.path.join(os.path.dirname(d), 'orig')
        content = {'version': '1.2', 'target': chip, 'app_elf': app_elf, 'build_dir': self.build_dir, 'project_name': self.name, 'build_component_info': {}}
        if self.desc == 'other':
            n = near(rng, self.name)
            content.update(target=other, app_elf=rng.choice(['', '', '', 'sub/']) + n + rng.choice(['.elf', '.elf', '.elf', '']) if n else '')
            if os.path.splitext(os.path.basename(content['app_elf']))[0] == self.name:
                content['app_elf'] = 'quite-different.elf'
            if rng.random() < 0.15:
                del content['app_elf']
            ctx.count('near_name')
            ctx.count('decoy_target')
        elif self.desc == 'no_target':
            if rng.random() < 0.5:
                content['target'] = ''
            else:
                del content['target']
        jf = os.path.join(d, 'project_description.json')
        if self.desc == 'unreadable':
            content['target'] = other
            bad = rng.choice(['truncated', 'list', 'number', 'null', 'dir', 'bytes', 'empty', 'latin', 'utf16', 'deep'])
            t = json.dumps(content).encode()
            if bad == 'dir':
                os.mkdir(jf)
            else:
                with open(jf, 'wb') as f:
                    f.write({'truncated': t[:-1], 'list': b'[' + t + b']', 'number': b'5', 'null': b'null', 'bytes': t + b'\0', 'empty': b'', 'latin': t.replace(b'{', b'{"x": "\xfc\xff", ', 1), 'utf16': t.decode().encode('utf-16'), 'deep': b'[' * 200000}[bad])
        elif self.desc != 'missing':
            with open(jf, 'w') as f:
                json.dump(content, f)
        ctx.count({'used': 'desc_used', 'other': 'desc_other', 'missing': 'desc_missing', 'unreadable': 'desc_unreadable', 'no_target': 'desc_without_target'}[self.desc])
        # A description elsewhere does not matter.
        for x in (os.path.dirname(d), os.path.join(d, 'config')):
            if rng.random() < 0.5:
                os.makedirs(x, exist_ok=True)
                with open(os.path.join(x, 'project_description.json'), 'w') as f:
                    json.dump({**content, 'target': other, 'app_elf': f'{self.name}.elf'}, f)

        # ELF files
        real, decoy = render.elf_bytes(p), decoy_elf(p)
        self.elf_path = os.path.normpath(os.path.join(d, app_elf))
        here = os.path.join(d, f'{self.name}.elf')
        self.elf = used and rng.random() < 0.85
        for x, b in ((here, decoy), (os.path.join(self.build_dir, f'{self.name}.elf'), decoy), (os.path.join(self.build_dir, app_elf), decoy),
                     (os.path.join(d, os.path.basename(content.get('app_elf') or 'none')), decoy), (os.path.join(d, 'app.elf'), decoy), (os.path.join(d, 'sub', f'{self.name}.elf'), decoy)):
            if rng.random() < 0.6 and os.path.normpath(x) != self.elf_path or (x == here and not used):
                os.makedirs(os.path.dirname(x), exist_ok=True)
                if not os.path.isdir(x):
                    with open(x, 'wb') as f:
                        f.write(b)
                if x.startswith(self.build_dir):
                    ctx.count('decoy_build_dir')
        if self.elf:
            os.makedirs(os.path.dirname(self.elf_path), exist_ok=True)
            at = self.elf_path
            if rng.random() < 0.15:
                at = os.path.join(d, rng.choice(['store', 'decoy']) + '.bin')
                os.symlink(os.path.relpath(at, os.path.dirname(self.elf_path)), self.elf_path)
                ctx.count('linked_elf')
            with open(at, 'wb') as f:
                f.write(real)
            ctx.count('elf_used')
        else:
            if used:
                if rng.random() < 0.3:
                    os.makedirs(self.elf_path, exist_ok=True)
                ctx.count('elf_absent')
            ctx.count('elf_ignored')
        p.with_elf = self.elf

    def key(self):
        return (self.desc, self.elf, self.name, shape(self.p))

    def move(self, to):
        if os.path.normpath(self.elf_path).startswith(self.dir + os.sep):
            os.makedirs(os.path.dirname(to), exist_ok=True)
            shutil.move(self.dir, to)
            self.dir = to
            # leave decoys where the project has been before
            if self.rng.random() < 0.5:
                os.makedirs(self.build_dir, exist_ok=True)
                with open(os.path.join(self.build_dir, f'{self.name}.elf'), 'wb') as f:
                    f.write(decoy_elf(self.p))
            self.ctx.count('relocated')

    @property
    def map(self):
        return os.path.join(self.dir, f'{self.name}.map')

    def truth(self):
        return view.clean(view.from_project(self.p)), truth.image_size(self.p)


def cwd_for(ctx, rng, L, top):
    cwd = rng.choice([L.dir, top, os.path.join(top, 'cwd')])
    if cwd.endswith('cwd'):
        os.makedirs(cwd, exist_ok=True)
        with open(os.path.join(cwd, f'{L.name}.elf'), 'wb') as f:
            f.write(decoy_elf(L.p))
        with open(os.path.join(cwd, 'project_description.json'), 'w') as f:
            json.dump({'target': 'esp32' if L.p.target != 'esp32' else 'esp32c3', 'app_elf': f'{L.name}.elf', 'build_dir': cwd, 'build_component_info': {}}, f)
        ctx.count('decoy_cwd')
    return cwd


def one(ctx, rng, s):
    top = ctx.sub('top')
    L = Layout(ctx, rng, s, os.path.join(top, 'build'))
    if rng.random() < 0.5:
        L.move(os.path.join(top, 'moved', 'elsewhere [2]'))
    cwd = cwd_for(ctx, rng, L, top)
    fn = L.map
    if rng.random() < 0.15:
        # the map file itself is somewhere else, with other files around it
        w = os.path.join(top, 'store')
        os.makedirs(w)
        at = os.path.join(w, rng.choice([f'{L.name}.map', 'x.map', '0123abcd']))
        shutil.move(fn, at)
        os.symlink(rng.choice([at, os.path.relpath(at, L.dir)]), fn)
        if rng.random() < 0.5:
            with open(os.path.join(w, 'project_description.json'), 'w') as f:
                json.dump({'target': 'esp32' if L.p.target != 'esp32' else 'esp32c3', 'app_elf': os.path.splitext(os.path.basename(at))[0] + '.elf', 'build_dir': w, 'build_component_info': {}}, f)
        ctx.count('linked_map')
    if rng.random() < 0.6:
        fn = os.path.relpath(fn, cwd)
        ctx.count('relative_path')
    r = reports.run_ok(ctx, ['--format', 'raw', *reports.FULL, fn], cwd=cwd)
    M, img = L.truth()
    j = json.loads(r.out)
    verify(ctx, L, j, M, img)
    if rng.random() < 0.4:
        mm = driver.load()['memorymap']
        ctx.count('api')
        old = os.getcwd()
        os.chdir(cwd)
        try:
            verify(ctx, L, mm.get(fn), M, img)
        finally:
            os.chdir(old)
    ctx.nontrivial(L.key())
    ctx.sample({'description': L.desc, 'elf_used': L.elf, 'target': L.p.target, 'target_by': L.p.style['target_by'], 'map_target': L.p.style.get('map_target')})


def verify(ctx, L, j, M, img, what=''):
    ctx.equal(L.p.target, j['target'], f'{what}chip, description {L.desc}')
    ctx.equal(M, view.from_raw(j), f'{what}memory map, description {L.desc}, ELF file {"used" if L.elf else "ignored"}')
    ctx.equal(img, j['image_size'], f'{what}image size')


def ref(ctx, rng, s):
    top = ctx.sub('top')
    A = Layout(ctx, rng, s, os.path.join(top, 'cur', 'build'))
    B = Layout(ctx, rng, s + 1, os.path.join(top, 'ref', 'build'))
    if rng.random() < 0.5:
        B.move(os.path.join(top, 'x', 'y'))
    cwd = cwd_for(ctx, rng, rng.choice([A, B]), top)
    fa, fb = (os.path.relpath(x.map, cwd) if rng.random() < 0.5 else x.map for x in (A, B))
    r = reports.run_ok(ctx, ['--format', 'raw', *reports.FULL, '--diff', fb, fa], cwd=cwd)
    j = json.loads(r.out)
    (Ma, ia), (Mb, ib) = A.truth(), B.truth()
    ctx.equal((A.p.target, B.p.target), (j['target'], j['target_diff']), 'chips')
    ctx.equal((A.map, B.map), (j['project_path'], j['project_path_diff']), 'paths')
    ctx.equal((ia, ia - ib), (j['image_size'], j['image_size_diff']), 'image sizes')
    ctx.equal(view.clean(view.diff(Ma, Mb)), view.from_raw(j), f'memory map, descriptions {A.desc}/{B.desc}, ELF {A.elf}/{B.elf}')
    ctx.count('reference')
    ctx.nontrivial(A.key(), B.key())


def multi(ctx, rng, s):
    """Two executables in one directory, described by one project description."""
    top = ctx.sub('top')
    A = Layout(ctx, rng, s, os.path.join(top, 'build'))
    p = model.generate(s + 1, elf=True, nsec=4)
    p.name = near(rng, A.name).strip('./ ') or 'second'
    if p.name == A.name:
        p.name = 'second'
    p.style['target_by'] = 'IDF_TARGET'
    jf = os.path.join(A.dir, 'project_description.json')
    if os.path.isfile(jf):
        try:
            with open(jf) as f:
                x = json.load(f)
            if isinstance(x, dict) and os.path.splitext(os.path.basename(x.get('app_elf', '')))[0] == p.name:
                p.name = 'second-executable'
        except (ValueError, RecursionError):
            pass
    fn = os.path.join(A.dir, f'{p.name}.map')
    with open(fn, 'w', encoding='utf-8', newline='') as f:
        f.write(render.map_text(p))
    if not os.path.exists(os.path.join(A.dir, f'{p.name}.elf')):
        with open(os.path.join(A.dir, f'{p.name}.elf'), 'wb') as f:
            f.write(render.elf_bytes(p))
    p.with_elf = False
    r = reports.run_ok(ctx, ['--format', 'raw', *reports.FULL, fn])
    j = json.loads(r.out)
    ctx.equal(p.target, j['target'], 'chip of the second executable')
    ctx.equal(view.clean(view.from_project(p)), view.from_raw(j), 'memory map of the second executable')
    ctx.equal(truth.image_size(p), j['image_size'], 'image size of the second executable')
    M, img = A.truth()
    verify(ctx, A, reports.raw(ctx, A.map, *reports.FULL), M, img, 'first executable: ')
    ctx.count('multi_exec')
    ctx.nontrivial(A.key(), p.name)


def refuse(ctx, rng, s):
    p = model.generate(s, elf=True, nsec=3)
    p.name = rng.choice(NAMES)
    kind = rng.choice(['none', 'desc', 'map', 'path', 'path'])
    d = ctx.sub('prj')
    desc = None
    if kind == 'none':
        p.style['target_line'] = False
        desc = rng.choice([None, {'app_elf': near(rng, p.name) + '_.elf', 'target': p.target}, {'app_elf': f'{p.name}.elf', 'target': ''}])
        ctx.count('refused_none')
    elif kind == 'desc':
        desc = {'app_elf': f'{p.name}.elf', 'target': rng.choice(UNKNOWN), 'build_dir': d, 'build_component_info': {}}
        ctx.count('refused_unknown')
    elif kind == 'map':
        p.style.update(target_by='IDF_TARGET', map_target=rng.choice([u for u in UNKNOWN if ' ' not in u]))
        ctx.count('refused_unknown')
    else:
        # a file that looks like the description of a chip, outside of the tool
        y = os.path.join(ctx.sub('files'), 'esp32.yaml')
        shutil.copy(os.path.join(driver.REPO, 'esp_idf_size', 'chip_info', p.target + '.yaml'), y)
        chips = os.path.join(driver.REPO, 'esp_idf_size', 'chip_info')
        t = rng.choice([y[:-5], os.path.relpath(y[:-5], chips), './' + p.target, '../chip_info/' + p.target])
        desc = {'app_elf': f'{p.name}.elf', 'target': t, 'build_dir': d, 'build_component_info': {}}
        ctx.count('refused_path')
    with open(os.path.join(d, f'{p.name}.map'), 'w', encoding='utf-8', newline='') as f:
        f.write(render.map_text(p))
    with open(os.path.join(d, f'{p.name}.elf'), 'wb') as f:
        f.write(render.elf_bytes(p))
    if desc is not None:
        with open(os.path.join(d, 'project_description.json'), 'w') as f:
            json.dump(desc, f)
    fn = os.path.join(d, f'{p.name}.map')
    good = put(ctx, model.generate(s + 1, nsec=3), 'good')
    for args in (['--format', rng.choice(['raw', 'table', 'csv', 'json2', 'tree']), fn], ['--format', rng.choice(['raw', 'table', 'json2']), '--diff', fn, good]):
        r = driver.cli(args)
        ctx.check(not r.ok and r.code != 0, f'a project with an unknown chip is accepted ({kind})', args=args, out=r.out[:300], target=(desc or {}).get('target'), map_target=p.style.get('map_target'))
        ctx.check(r.out == '', 'output although the chip is unknown', out=r.out[:300])
        ctx.check(r.err.strip() != '' or r.exc is not None, 'no message', args=args)
    mm = driver.load()['memorymap']
    try:
        mm.get(fn)
        ctx.check(False, f'memorymap.get() accepts a project with an unknown chip ({kind})')
    except mm.MemMapException:
        ctx.count('api')
    ctx.nontrivial(kind, s)
