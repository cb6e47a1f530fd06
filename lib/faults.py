"""Line-level monitor of the code under test: counts executed lines, optionally raises at one of them, and watches
what is rendered through rich."""

import contextlib
import sys
from typing import Any, List, Optional

import driver

TOOL = 4


class TooManySteps(BaseException):
    pass


class Steps:
    """sys.monitoring LINE events of files below /repo."""

    def __init__(self, fail_at: Optional[int] = None, exc: Optional[BaseException] = None, limit: Optional[int] = None, record: bool = False, jumps: bool = False):
        self.n = 0
        self.fail_at, self.exc, self.limit = fail_at, exc, limit
        self.sites: Optional[List] = [] if record else None
        self.fired: Any = None
        self.prints: List[int] = []
        self.jumps = jumps

    def _line(self, code, line):
        if not code.co_filename.startswith(driver.REPO + '/'):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.sites is not None:
            self.sites.append((code.co_filename[len(driver.REPO) + 1:], code.co_name, line))
        if self.fail_at == self.n and self.fired is None:
            self.fired = (code.co_filename[len(driver.REPO) + 1:], line)
            raise self.exc
        if self.limit and self.n > self.limit:
            raise TooManySteps(f'{self.n} lines executed')
        return None

    def _jump(self, code, _at, _to):
        # loops which stay on one source line
        return self._line(code, 0)

    @contextlib.contextmanager
    def active(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, 'verif')
        try:
            m.register_callback(TOOL, m.events.LINE, self._line)
            if self.jumps:
                m.register_callback(TOOL, m.events.JUMP, self._jump)
            m.set_events(TOOL, m.events.LINE | (m.events.JUMP if self.jumps else 0))
            m.restart_events()
            yield self
        finally:
            m.set_events(TOOL, 0)
            m.register_callback(TOOL, m.events.LINE, None)
            m.register_callback(TOOL, m.events.JUMP, None)
            m.free_tool_id(TOOL)


@contextlib.contextmanager
def console_hook(fn):
    """fn(is_stderr) is called before every Console.print()."""
    from rich.console import Console

    orig = Console.print

    def hooked(self, *a, **kw):
        fn(self.file is sys.stderr or bool(self.stderr))
        return orig(self, *a, **kw)

    Console.print = hooked
    try:
        yield
    finally:
        Console.print = orig
