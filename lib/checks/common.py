"""Shared by the checks: projects on disk and case lists."""

import random
from typing import Any, Dict, List, Tuple

import model
import render
import truth
import view


def seeds(tag: str, base: int, n: int) -> List[int]:
    r = random.Random(f'{tag}/{base}')
    return [r.randrange(1 << 40) for _ in range(n)]


def put(ctx, p: model.Project, name: str = 'prj', **kw) -> str:
    for f in p.flags:
        ctx.features[f] += 1
    ctx.features['chip_' + p.target] += 1
    return render.write_project(p, ctx.sub(name), **kw)


def describe(p: model.Project) -> Dict[str, Any]:
    return {'target': p.target, 'elf': p.with_elf, 'regions': [(n, hex(o), hex(ln)) for n, o, ln, _a in p.regions][:6],
            'sections': [(o.name, hex(o.addr), hex(o.size), len(o.isecs)) for o in p.osecs][:8], 'flags': p.flags}


def shape(p: model.Project) -> Tuple:
    """What makes two projects different for the coverage count."""
    return (p.target, p.with_elf, tuple((o.name, o.addr, o.size) for o in p.osecs), tuple(r[1:3] for r in p.regions))
