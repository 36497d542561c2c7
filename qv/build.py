"""Builds of the compiler from /repo's current working tree."""
import fcntl
import json
import os
import subprocess
import sys

from .common import BUILD, REPO

STABLE = "stable"
HOOKS = "--cfg qlc_verif"
TRIPLE = "x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def _env(toolchain, rustflags):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTUP_TOOLCHAIN"))
           or k in ("CARGO_HOME",)}
    env.update({"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "CARGO_INCREMENTAL": "0",
                "CARGO_PROFILE_DEV_DEBUG": "line-tables-only" if toolchain != STABLE else "0",
                "RUSTFLAGS": rustflags, "RUSTUP_TOOLCHAIN": toolchain})
    return env


class _Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.file = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.file, fcntl.LOCK_EX)

    def __exit__(self, *_):
        self.file.close()


def _cargo(name, args, toolchain, rustflags):
    target = os.path.join(BUILD, name)
    with _Lock(name):
        proc = subprocess.run(["cargo"] + args + ["--manifest-path", os.path.join(REPO, "Cargo.toml"), "--locked",
                                                  "--offline", "--target-dir", target],
                              env=_env(toolchain, rustflags), cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if proc.returncode != 0:
        sys.stdout.write(proc.stdout.decode("utf-8", "replace")[-6000:])
        raise BuildError(name)
    return target, proc.stdout.decode("utf-8", "replace")


hooks_lost = False


def _with_hooks(build):
    """Where the compiler does not build with the hooks in, as they do not fit the code any more, it is watched without: then there are no
    injected delays and no event log, but everything else that the checks observe is there."""
    global hooks_lost
    if not hooks_lost:
        try:
            return build(HOOKS)
        except BuildError:
            hooks_lost = True
    return build("")


def qlc():
    """The compiler with the (inert unless asked for) hooks in."""
    def build(hooks):
        target, _ = _cargo("hooks" if hooks else "plain", ["build", "--bin", "qlc"], STABLE, hooks)
        return os.path.join(target, "debug", "qlc")
    return _with_hooks(build)


def plain():
    """The compiler as users build it, without hooks."""
    target, _ = _cargo("plain", ["build", "--bin", "qlc"], STABLE, "")
    return os.path.join(target, "debug", "qlc")


def sanitized(kind):
    """kind: thread or address. The standard library is rebuilt with the same instrumentation."""
    def build(hooks):
        target, _ = _cargo("san-" + kind, ["build", "--bin", "qlc", "-Zbuild-std", "--target", TRIPLE], "nightly", f"-Zsanitizer={kind} {hooks}")
        return os.path.join(target, TRIPLE, "debug", "qlc")
    return _with_hooks(build)


def miri():
    """The command and environment which run the compiler in the interpreter."""
    env = _env("nightly", "-Awarnings")
    env.update({"XDG_CACHE_HOME": os.path.join(BUILD, "miri-cache"), "MIRIFLAGS": "-Zmiri-disable-isolation"})
    argv = ["cargo", "miri", "run", "-q", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--locked", "--offline", "--target-dir",
            os.path.join(BUILD, "miri"), "--bin", "qlc", "--"]
    with _Lock("miri"):
        for command in (["cargo", "miri", "setup"], argv + ["--version"]):
            proc = subprocess.run(command, env=env, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if proc.returncode != 0:
                sys.stdout.write(proc.stdout.decode("utf-8", "replace")[-6000:])
                raise BuildError("miri")
    return argv, env


def lock(name):
    return _Lock(name)


def compile_c(name, source, args):
    out = os.path.join(BUILD, name)
    with _Lock("cc-" + name):
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(source):
            proc = subprocess.run(["gcc", "-O1", "-o", out + ".tmp", source] + args, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT)
            if proc.returncode != 0:
                sys.stdout.write(proc.stdout.decode("utf-8", "replace"))
                raise BuildError(name)
            os.rename(out + ".tmp", out)
    return out
