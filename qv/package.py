"""The npm package as a release makes it, and its installer run against a server."""
import hashlib
import io
import json
import os
import shutil
import tarfile

from .common import REPO, VERIF, execute
from .httpd import CERT

PLATFORMS = {("darwin", "x64"): "x86_64-apple-darwin", ("darwin", "arm64"): "aarch64-apple-darwin", ("linux", "x64"): "x86_64-unknown-linux-musl",
             ("linux", "arm64"): "aarch64-unknown-linux-musl"}
STUB = os.path.join(VERIF, "qv", "install_stub.js")


def archive(content, name="qlc", mode=0o755, compress="gz"):
    buffer = io.BytesIO()
    with tarfile.open(fileobj=buffer, mode="w:" + compress) as t:
        info = tarfile.TarInfo(name)
        info.size, info.mode = len(content), mode
        t.addfile(info, io.BytesIO(content))
    return buffer.getvalue()


def package(directory, version, checksums):
    """A copy of pkg/npm with version and checksums filled in"""
    shutil.copytree(os.path.join(REPO, "pkg", "npm"), directory, symlinks=True)
    path = os.path.join(directory, "package.json")
    with open(path) as f:
        config = json.load(f)
    config["version"] = version
    config["checksumConfig"] = checksums
    with open(path, "w") as f:
        json.dump(config, f, indent=2)


def sha256(data):
    return hashlib.sha256(data).hexdigest()


def postinstall(directory, port, platform, arch, env=None, speed=20, wrap=(), **kw):
    """Runs what npm would"""
    with open(os.path.join(directory, "package.json")) as f:
        script = json.load(f)["scripts"]["postinstall"]
    full = {"NODE_OPTIONS": f"--require {STUB}", "NODE_EXTRA_CA_CERTS": CERT, "QV_PLATFORM": platform, "QV_ARCH": arch, "QV_PORT": str(port),
            "QV_SPEED": str(speed), "NODE_NO_WARNINGS": "1", "TMPDIR": os.path.dirname(directory), **(env or {})}
    return execute(list(wrap) + ["sh", "-c", script], cwd=directory, env=full, **kw)
