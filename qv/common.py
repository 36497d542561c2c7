"""Paths, processes and file-system helpers shared by all checks."""
import hashlib
import json
import os
import resource
import shutil
import signal
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QLC_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
NODE_MODULES = "/opt/veriftools/node/node_modules"

# A run of the compiler takes milliseconds here. The watchdogs are orders of magnitude above that
# and a run they end is repeated, so machine load does not decide a verdict.
WALL_LIMIT = 60
CPU_LIMIT = 30


class Inconclusive(Exception):
    """The machinery, not the code under test, failed to give an answer for a case."""


class Run:
    """What one execution of a program did."""

    def __init__(self, code, out, err, hang, wall):
        self.code, self.out, self.err, self.hang, self.wall = code, out, err, hang, wall

    @property
    def crashed(self):
        """Ended by a signal, a panic or an abort."""
        return self.hang or self.code < 0 or self.code not in (0, 1, 2)

    def brief(self):
        return {"exit": self.code, "hang": self.hang, "stdout": self.out[-2000:], "stderr": self.err[-2000:]}


def _limits(cpu, mem):
    def apply():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return apply


BASE_ENV = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "LC_ALL": "C.UTF-8"}


def _execute_once(argv, cwd, env, wall, cpu, mem, stdin):
    start = time.time()
    proc = subprocess.Popen(argv, cwd=cwd, env=env, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=_limits(cpu, mem),
                            start_new_session=True)
    hang = False
    try:
        out, err = proc.communicate(stdin, timeout=wall)
    except subprocess.TimeoutExpired:
        hang = True
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = proc.communicate()
    if proc.returncode in (-signal.SIGXCPU,) or (proc.returncode == -signal.SIGKILL and not hang
                                                  and time.time() - start >= cpu * 0.9):
        hang = True
    return Run(proc.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), hang, time.time() - start)


def execute(argv, cwd=None, env=None, wall=WALL_LIMIT, cpu=CPU_LIMIT, mem=None, stdin=None, confirm=True):
    """Runs a program under a watchdog. A run that the watchdog ended is repeated once with a longer
    limit, and only counts as hanging if it hangs again."""
    full_env = dict(BASE_ENV)
    full_env.update(env or {})
    run = _execute_once(argv, cwd, full_env, wall, cpu, mem, stdin)
    if run.hang and confirm:
        run = _execute_once(argv, cwd, full_env, wall * 1.5, cpu * 1.5 if isinstance(cpu, float) else cpu + cpu // 2, mem, stdin)
    return run


def scratch_root():
    return "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()


class Scratch:
    """A scratch directory, removed at the end."""

    def __init__(self, prefix="qv-"):
        self.path = tempfile.mkdtemp(prefix=prefix, dir=scratch_root())

    def __enter__(self):
        return self.path

    def __exit__(self, *_):
        remove_tree(self.path)


def remove_tree(path):
    assert path.startswith((scratch_root() + "/", tempfile.gettempdir() + "/", BUILD + "/")), path
    shutil.rmtree(path, ignore_errors=True)
    if os.path.lexists(path):
        for base, dirs, _ in os.walk(path):
            for d in dirs:
                try:
                    os.chmod(os.path.join(base, d), 0o700)
                except OSError:
                    pass
        shutil.rmtree(path, ignore_errors=True)


def write_file(path, content):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(content if isinstance(content, bytes) else content.encode("utf-8", "surrogatepass"))


def write_tree(root, files):
    for rel, content in files.items():
        write_file(os.path.join(root, rel), content)


def snapshot(root):
    """Every entry below root: its kind and content."""
    result = {}
    for base, dirs, files in os.walk(root):
        for name in dirs + files:
            path = os.path.join(base, name)
            rel = os.path.relpath(path, root)
            if os.path.islink(path):
                result[rel] = ("link", os.readlink(path))
            elif os.path.isdir(path):
                result[rel] = ("dir", None)
            elif not os.path.isfile(path):
                result[rel] = ("special", None)
            else:
                try:
                    with open(path, "rb") as f:
                        result[rel] = ("file", f.read())
                except OSError as e:
                    result[rel] = ("unreadable", str(e.errno))
    return result


def digest(*parts):
    h = hashlib.sha256()
    for part in parts:
        h.update(repr(part).encode("utf-8", "surrogatepass"))
        h.update(b"\0")
    return h.hexdigest()[:16]


def dump_json(value):
    return json.dumps(value, indent=1, ensure_ascii=False, sort_keys=True, default=repr)
