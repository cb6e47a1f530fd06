"""Parsers for the human readable reports. Written against the documented appearance of the reports."""

import csv
import io
import re
from typing import Any, Dict, List, Optional, Tuple


class ParseError(Exception):
    pass


def table(text: str) -> Tuple[List[str], List[List[str]], List[int]]:
    """rich table -> (header, rows, indent of the first cell). Continuation lines stay separate rows."""
    header: List[str] = []
    rows: List[List[str]] = []
    indents: List[int] = []
    for line in text.splitlines():
        if line.startswith('┃') and line.rstrip().endswith('┃'):
            cells = [c.strip() for c in line.strip()[1:-1].split('┃')]
            if header:
                raise ParseError('more than one header line')
            header = cells
        elif line.startswith('│') and line.rstrip().endswith('│'):
            raw = line.strip()[1:-1].split('│')
            rows.append([c.strip() for c in raw])
            first = raw[0][1:]
            indents.append(len(first) - len(first.lstrip()))
    if not header:
        raise ParseError('no table found')
    for r in rows:
        if len(r) != len(header):
            raise ParseError(f'row {r} has {len(r)} cells, header {len(header)}')
    return header, rows, indents


def csv_rows(text: str) -> Tuple[List[str], List[List[str]]]:
    rows = [r for r in csv.reader(io.StringIO(text)) if r]
    if not rows:
        raise ParseError('empty csv')
    for r in rows:
        if len(r) != len(rows[0]):
            raise ParseError(f'csv row {r} does not match header {rows[0]}')
    return rows[0], rows[1:]


class Node:
    def __init__(self, text: str, depth: int):
        self.text, self.depth = text, depth
        self.children: List['Node'] = []


def tree(text: str) -> Node:
    root: Optional[Node] = None
    stack: List[Node] = []
    for line in text.splitlines():
        if not line.strip():
            continue
        if root is None:
            root = Node(line.strip(), 0)
            stack = [root]
            continue
        m = re.match(r'^((?:[│ ]   )*)(├── |└── )(.*)$', line)
        if not m:
            raise ParseError(f'unexpected tree line {line!r}')
        depth = len(m.group(1)) // 4 + 1
        node = Node(m.group(3).rstrip(), depth)
        while stack[-1].depth >= depth:
            stack.pop()
        if stack[-1].depth != depth - 1:
            raise ParseError(f'unexpected depth at {line!r}')
        stack[-1].children.append(node)
        stack.append(node)
    if root is None:
        raise ParseError('no tree found')
    return root


def num(s: str) -> Any:
    s = s.strip()
    return float(s) if '.' in s or 'e' in s else int(s)


def cell(s: str, diff: bool) -> Optional[Tuple[Any, Any]]:
    """'123' or '123   +4' -> (123, 4); an empty cell is None"""
    parts = s.split()
    if not parts:
        return None
    if len(parts) != (2 if diff else 1):
        raise ParseError(f'unexpected cell {s!r}')
    return num(parts[0]), (num(parts[1]) if diff else 0)


def name_size(s: str, diff: bool) -> Tuple[str, int, int]:
    if diff:
        m = re.match(r'^(.*) (-?\d+) +([+-]?\d+)$', s)
        if not m:
            raise ParseError(f'unexpected tree text {s!r}')
        return m.group(1), int(m.group(2)), int(m.group(3))
    m = re.match(r'^(.*) (-?\d+)$', s)
    if not m:
        raise ParseError(f'unexpected tree text {s!r}')
    return m.group(1), int(m.group(2)), 0


def memtype_text(s: str, diff: bool):
    """'DIRAM 10 / 20' -> (name, used, used_diff, size or None, size_diff)"""
    if ' / ' in s:
        left, right = s.rsplit(' / ', 1)
        n, used, ud = name_size(left, diff)
        c = cell(right, diff)
        assert c is not None
        return n, used, ud, c[0], c[1]
    n, used, ud = name_size(s, diff)
    return n, used, ud, None, 0


def memtree(text: str, diff: bool = False) -> List[Dict[str, Any]]:
    """Tree report as nested lists: [{'name','used','used_diff','size','size_diff','children': [...]}]"""
    root = tree(text)
    if root.text != 'Memory Types':
        raise ParseError(f'unexpected root {root.text!r}')

    def conv(n: Node) -> Dict[str, Any]:
        name, size, d = name_size(n.text, diff)
        return {'name': name, 'size': size, 'size_diff': d, 'children': [conv(c) for c in n.children]}

    res = []
    for n in root.children:
        name, used, ud, size, sd = memtype_text(n.text, diff)
        res.append({'name': name, 'used': used, 'used_diff': ud, 'size': size, 'size_diff': sd, 'children': [conv(c) for c in n.children]})
    return res


def _dot_id(q: str) -> str:
    """A quoted string as identifier. A name is recovered whether or not its backslashes are doubled."""
    return re.sub(r'\\(["\\])', r'\1', q)


def _dot_label(q: str) -> str:
    """A quoted string as shown: escString of the DOT language."""
    def one(m):
        c = m.group(1)
        if c in 'nlr':
            return '\n'
        return f'<{c}>' if c in 'NGETHL' else c
    return re.sub(r'\\(.)', one, q, flags=re.S)


def dot(text: str):
    """-> (nodes {name: (label, size, shape)}, edges {(src, dst): symbols})"""
    t = text.strip()
    if not t.startswith('strict digraph {') or not t.endswith('}'):
        raise ParseError('not a digraph')
    nodes: Dict[str, Any] = {}
    edges: Dict[Tuple[str, str], Any] = {}
    body = t[len('strict digraph {'):-1]
    q = r'"((?:[^"\\]|\\.)*)"'
    item = re.compile(rf'\s*{q}(?:\s*->\s*{q})?\s*(?:\[((?:{q}|[^"\]])*)\])?\s*;?[ \t]*(?=\n|$)', re.S)
    pos = 0
    while pos < len(body.rstrip()):
        m = item.match(body, pos)
        if not m:
            raise ParseError(f'unexpected text in dot output {body[pos:pos + 200]!r}')
        pos = m.end()
        attrs = {k: (w if w else _dot_label(v)) for k, v, w in re.findall(rf'(\w+)\s*=\s*(?:{q}|(\w+))', m.group(3) or '', re.S)}
        a = _dot_id(m.group(1))
        if m.group(2) is not None:
            b = _dot_id(m.group(2))
            if (a, b) in edges:
                raise ParseError(f'duplicate edge {m.group(0)}')
            edges[(a, b)] = attrs['label'].split('\n') if 'label' in attrs else None
        else:
            if a in nodes:
                raise ParseError(f'duplicate node {a}')
            lab = re.fullmatch(r'(.*) \((-?\d+)\)', attrs.get('label', ''), re.S)
            if not lab or set(attrs) != {'shape', 'label', 'style', 'fillcolor'}:
                raise ParseError(f'unexpected node {m.group(0)!r}')
            nodes[a] = (lab.group(1), int(lab.group(2)), attrs['shape'])
    return nodes, edges
