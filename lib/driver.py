"""Runs the real esp-idf-size from /repo, in this process or as a child process, and records what it did."""

import contextlib
import io
import os
import subprocess
import sys
import tempfile
import traceback
from dataclasses import dataclass, field
from typing import Any, Dict, List, Optional

REPO = '/repo'
PY = '/opt/venv/bin/python'

if REPO not in sys.path:
    sys.path.insert(0, REPO)

_loaded: Dict[str, Any] = {}


def load() -> Dict[str, Any]:
    """Import the code under test from /repo's working tree. Byte code is never cached: a changed source
    file with an unchanged size and time stamp must be seen."""
    if _loaded:
        return _loaded
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), f'nopyc-{os.getpid()}')
    import esp_idf_size.main as m
    from esp_idf_size import elf, mapfile, memorymap

    assert os.path.realpath(m.__file__).startswith(REPO + '/'), m.__file__
    _loaded.update(main=m, memorymap=memorymap, mapfile=mapfile, elf=elf)
    return _loaded


@dataclass
class Run:
    args: List[str]
    code: Optional[int]
    out: str
    err: str
    exc: Optional[str] = None  # traceback of an exception which left main()
    exc_type: str = ''
    events: List[Any] = field(default_factory=list)

    @property
    def ok(self) -> bool:
        return self.code == 0 and self.exc is None


# ---------------------------------------------------------------- audit log of file system effects
_audit_sink: Optional[List[Any]] = None
_WATCH = {'open', 'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.truncate', 'os.link', 'os.symlink', 'os.chmod',
          'os.chown', 'os.utime', 'shutil.rmtree', 'shutil.move', 'shutil.copyfile', 'subprocess.Popen', 'os.system', 'os.exec',
          'os.posix_spawn', 'os.fork', 'socket.connect', 'socket.__new__', 'tempfile.mkstemp', 'tempfile.mkdtemp', 'os.putenv'}
_hooked = False


def _hook(event: str, args) -> None:
    if _audit_sink is not None and event in _WATCH:
        try:
            _audit_sink.append((event, tuple(a if isinstance(a, (str, int, type(None))) else (os.fsdecode(a) if isinstance(a, (bytes, os.PathLike)) else repr(a)) for a in args)))
        except Exception as e:  # never disturb the program under test
            _audit_sink.append((event, (f'unprintable {e}',)))


@contextlib.contextmanager
def audit(sink: List[Any]):
    global _audit_sink, _hooked
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked = True
    old = _audit_sink
    _audit_sink = sink
    try:
        yield sink
    finally:
        _audit_sink = old


class _Tee(io.StringIO):
    def __init__(self, encoding='utf-8'):
        super().__init__()
        self._enc = encoding

    @property
    def encoding(self):
        return self._enc

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')


def cli(args: List[str], cwd: Optional[str] = None, record: bool = False) -> Run:
    """One run of the command line tool in this process."""
    m = load()['main']
    out, err = _Tee(), _Tee()
    events: List[Any] = []
    old = sys.stdout, sys.stderr, os.getcwd(), sys.argv
    code: Optional[int] = 0
    exc = None
    exc_type = ''
    try:
        sys.stdout, sys.stderr = out, err
        sys.argv = ['esp_idf_size'] + list(args)
        if cwd:
            os.chdir(cwd)
        with (audit(events) if record else contextlib.nullcontext()):
            try:
                m.main(args=list(args), prog_name='esp_idf_size', standalone_mode=True)
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException as e:
                code = 1
                exc_type = type(e).__name__
                exc = traceback.format_exc()
    finally:
        sys.stdout, sys.stderr, sys.argv = old[0], old[1], old[3]
        if cwd:
            os.chdir(old[2])
    return Run(list(args), code, out.getvalue(), err.getvalue(), exc, exc_type, events)


def child_env(env: Optional[Dict[str, str]] = None) -> Dict[str, str]:
    """Environment of a process of its own. Byte code found next to the sources is never used; what is compiled by one process
    of this run is kept for the others in the scratch directory of the run. An empty value unsets a variable."""
    e = dict(os.environ)
    e.update({'PYTHONPATH': REPO, 'PYTHONDONTWRITEBYTECODE': '', 'PYTHONPYCACHEPREFIX': os.path.join(tempfile.gettempdir(), 'pyc')})
    e.pop('ESP_IDF_SIZE_FORCE_TERMINAL', None)
    e.update(env or {})
    return {k: v for k, v in e.items() if v != ''}


def child(args: List[str], env: Optional[Dict[str, str]] = None, cwd: Optional[str] = None, timeout: int = 120, setup: Any = None) -> 'subprocess.CompletedProcess[bytes]':
    """One run in a process of its own."""
    return subprocess.run([PY, '-m', 'esp_idf_size', *args], cwd=cwd or '/', preexec_fn=setup, env=child_env(env), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)


def cli_subprocess(args: List[str], cwd: Optional[str] = None, env: Optional[Dict[str, str]] = None, timeout: int = 120, setup: Any = None) -> Run:
    r = child(args, env, cwd, timeout, setup)
    return Run(list(args), r.returncode, r.stdout.decode('utf-8', 'replace'), r.stderr.decode('utf-8', 'replace'))
