"""A release's npm package installs exactly the binaries of that release."""
import json
import os
import re
import shutil
import stat
import tarfile

from ..common import REPO, execute, write_file
from ..httpd import Server, response
from ..package import PLATFORMS, postinstall, sha256

LEVEL = "exploration"
TECHNIQUE = "end-to-end monitor over recorded calls of stand-ins"
NOTE = ("The release scripts from the working tree run in a scratch checkout with stand-ins for cargo, ghr and yarn which record what they are given. The "
        "package is packed by npm, and its installer run for every platform against a server which offers what ghr was given. Sampled versions and binaries.")
BUDGET = {"quick": (56, 90), "thorough": (1500, 780)}
RULE = ("A case makes one release: random version (release, alpha or beta, as in past releases), and random binaries for all platforms, of which the "
        "x86_64 Linux one prints the version (sometimes it is the real one), at times with archives of other versions lying about. Evaluations are the publication and the installation on each platform, "
        "and releases for which a binary or checksum is missing, which must not be published. Distinct by version, platform and binary.")
ASSUMPTIONS = ["yarn publish publishes what npm packs", "ghr uploads all of the directory's files under the tag", "CI jobs start from a fresh checkout"]
MUST_OBSERVE = ["releases", "alphas", "betas", "installed", "missing_binary", "missing_checksum", "real_binary", "archives", "leftovers"]
CHUNK = 1

STUBS = {
    "cargo": """#!/bin/sh
exec >> "$QV_LOG.cargo"
echo "$@"
target= mode=debug
while [ $# -gt 0 ]; do
  case "$1" in
    --target=*) target=${1#--target=};;
    --target) target=$2; shift;;
    --release|-r) mode=release;;
  esac
  shift
done
[ -e "$QV_BINARIES/$target" ] || exit 101
mkdir -p "target/$target/$mode" && cp "$QV_BINARIES/$target" "target/$target/$mode/qlc" && chmod 755 "target/$target/$mode/qlc"
""",
    "ghr": """#!/bin/sh
for a in "$@"; do printf '%s\\n' "$a"; done > "$QV_LOG.ghr.$$"
for last in "$@"; do :; done
[ -d "$last" ] && cp -r "$last" "$QV_LOG.uploaded"
exit 0
""",
    "yarn": """#!/bin/sh
for a in "$@"; do printf '%s\\n' "$a"; done > "$QV_LOG.yarn.$$"
cp -r . "$QV_LOG.published"
""",
}
STUBS["npm"] = STUBS["yarn"]


def versions(rng):
    base = ".".join(str(rng.choice([0, 1, 2, 4, 9, 10, 11, 20, 100])) for _ in range(3))
    kind = rng.choice(["release", "release", "alpha", "beta"])
    return kind, base + {"release": "", "alpha": f"-alpha.{rng.randint(0, 12)}", "beta": f"-beta.{rng.randint(0, 12)}"}[kind]


def flags(argv, valued):
    """{flag: value} and the other arguments"""
    found, rest = {}, []
    it = iter(argv)
    for a in it:
        name, eq, value = a.partition("=")
        if a.startswith("-") and name in valued:
            found[name] = value if eq else next(it, None)
        elif a.startswith("-"):
            found[name] = value if eq else True
        else:
            rest.append(a)
    return found, rest


def calls(log, name):
    directory, base = os.path.split(log)
    result = []
    for f in sorted(os.listdir(directory)):
        if f.startswith(f"{base}.{name}."):
            with open(os.path.join(directory, f)) as g:
                result.append(g.read().split("\n")[:-1])
    return result


def checkout(top, name):
    work = os.path.join(top, name)
    os.makedirs(work)
    for part in (".circleci", "pkg"):
        shutil.copytree(os.path.join(REPO, part), os.path.join(work, part), symlinks=True)
    for part in ("Cargo.toml", "README.md"):
        shutil.copy(os.path.join(REPO, part), work)
    return work


def case(ctx, rng, index, out):
    with ctx.scratch() as top:
        kind, version = versions(rng)
        real = rng.random() < 0.12
        binaries = {t: rng.choice([b"\x7fELF", b"\xcf\xfa\xed\xfe", b""]) + rng.randbytes(rng.choice([1, 5000, 60000])) for t in PLATFORMS.values()}
        if rng.random() < 0.2:
            binaries["aarch64-apple-darwin"] = binaries["x86_64-apple-darwin"]
        if real:
            with open(ctx.qlc, "rb") as f:
                binaries["x86_64-unknown-linux-musl"] = f.read()
            with open(os.path.join(REPO, "Cargo.toml")) as f:
                version = re.search(r'^version = "(.*)"', f.read(), re.M).group(1)
            kind = "alpha" if "-alpha" in version else "beta" if "-beta" in version else "release"
        else:
            binaries["x86_64-unknown-linux-musl"] = f'#!/bin/sh\n# {rng.random()}\n[ "$1" = --version ] && echo "QL Compiler {version}"\n'.encode()
        stubs = os.path.join(top, "stubs")
        for name, text in STUBS.items():
            write_file(os.path.join(stubs, name), text)
            os.chmod(os.path.join(stubs, name), 0o755)
        where = os.path.join(top, "binaries")
        for t, b in binaries.items():
            write_file(os.path.join(where, t), b)
        sha, token = f"{rng.getrandbits(160):040x}", f"secret{rng.getrandbits(60):x}"

        leftovers = {}
        if rng.random() < 0.3:
            for other in {versions(rng)[1] for _ in range(rng.randint(1, 3))} - {version}:
                for t in rng.sample(sorted(PLATFORMS.values()), rng.randint(1, 4)):
                    leftovers[f"qlc-{other}-{t}.tar.gz"] = rng.randbytes(100)
        out.count(leftovers=int(bool(leftovers)))

        def script(work, log, name):
            env = {"PATH": stubs + ":" + os.environ.get("PATH", "/usr/bin:/bin"), "CIRCLE_WORKING_DIRECTORY": work, "CIRCLE_SHA1": sha, "GITHUB_TOKEN": token, "QV_LOG": log,
                   "QV_BINARIES": where, "HOME": top}
            return execute([os.path.join(work, ".circleci/bin", name)], cwd=work, env=env)

        def publish(name, without_binary=None, edit=None):
            """The course of the release jobs; (log, work directory, exit status of every script)"""
            work, log = checkout(top, name), os.path.join(top, name + "-log")
            for f, b in leftovers.items():
                write_file(os.path.join(work, "archives", f), b)
            runs = {"build": script(work, log, "build-release-binary.sh")}
            if without_binary:
                os.remove(os.path.join(work, "target", without_binary, "release/qlc"))
            runs["github"] = script(work, log, "make-github-release.sh")
            # The next job gets the checkout, the binaries and the checksums
            archives = os.path.join(work, "archives")
            if os.path.isdir(archives):
                for f in os.listdir(archives):
                    if f != "checksums.txt":
                        os.remove(os.path.join(archives, f))
            if edit:
                edit(work)
            if runs["github"].code == 0:
                runs["npm"] = script(work, log, "make-npm-release.sh")
            return log, work, runs
        log, work, runs = publish("release")
        facts = dict(version=version, real=real, runs={k: r.brief() for k, r in runs.items()}, ghr=[[a for a in c if a != token] for c in calls(log, "ghr")], yarn=calls(log, "yarn"))
        out.ran(("release", version, sha), **{kind + "s": 1}, real_binary=int(real))

        def wrong(signature, message, **more):
            out.violation(signature, f"{version}: {message}", **facts, **more)
        for name, r in runs.items():
            if r.code != 0:
                return wrong("failed", f"the {name} script ends with exit status {r.code}: {r.err[-300:]}")
        # the GitHub release
        ghr = calls(log, "ghr")
        if len(ghr) != 1:
            return wrong("ghr-calls", f"ghr was called {len(ghr)} times")
        options, rest = flags(ghr[0], {"-t", "-u", "-r", "-c", "-n", "-b", "-p", "--token"})
        if len(rest) != 2:
            return wrong("ghr-arguments", f"ghr's arguments are {rest}")
        tag = rest[0]
        if options.get("-t") != token or options.get("-c") != sha:
            return wrong("ghr-commit", f"ghr is told commit {options.get('-c')}, not {sha}, or another token")
        if bool(options.get("-prerelease")) != (kind != "release"):
            return wrong("prerelease", f"the GitHub release is {'' if options.get('-prerelease') else 'not '}marked as a pre-release")
        uploaded = log + ".uploaded"
        archives = {}
        for f in sorted(os.listdir(uploaded)):
            if f.endswith(".tar.gz"):
                with open(os.path.join(uploaded, f), "rb") as g:
                    archives[f] = g.read()
        if set(archives) - set(leftovers) != {f"qlc-{version}-{t}.tar.gz" for t in PLATFORMS.values()}:
            return wrong("archives", f"the archives are {sorted(archives)}")
        for t, b in binaries.items():
            with tarfile.open(os.path.join(uploaded, f"qlc-{version}-{t}.tar.gz")) as a:
                members = a.getmembers()
                content = a.extractfile(members[0]).read() if members and members[0].isfile() else None
            out.count(archives=1)
            if [m.name for m in members] != ["qlc"] or content != b:
                return wrong("archive-content", f"the archive for {t} holds {[m.name for m in members]}, {'another' if content != b else 'its'} binary")
        # the npm package
        yarn = calls(log, "yarn")
        if len(yarn) != 1:
            return wrong("yarn-calls", f"yarn was called {len(yarn)} times")
        options, rest = flags(yarn[0], {"--new-version", "--access", "--tag"})
        if rest[:1] != ["publish"] or options.get("--new-version") != version or options.get("--access") != "public":
            return wrong("yarn-arguments", f"yarn is called with {yarn[0]}")
        if options.get("--tag", "latest") != {"release": "latest"}.get(kind, kind):
            return wrong("dist-tag", f"published under the tag {options.get('--tag', 'latest')}")
        published = log + ".published"
        packed = execute(["npm", "pack", "--ignore-scripts", "--json", "--pack-destination", top], cwd=published,
                         env={"HOME": top, "npm_config_cache": os.path.join(top, "cache"), "npm_config_update_notifier": "false", "npm_config_offline": "true"})
        if packed.code != 0:
            return wrong("not-packable", f"npm can not pack what is published: {packed.err[-300:]}")
        with open(os.path.join(published, "package.json")) as f:
            config = json.load(f)
        if config["version"] != version or config["name"] != "@notarize/qlc-cli" or "@" in "".join(map(str, config["checksumConfig"].values())):
            return wrong("package", f"the package is {config['name']} {config['version']} with the checksums {config['checksumConfig']}")
        tarball = [f for f in os.listdir(top) if f.endswith(".tgz")]
        for f in ("lib/postinstall.js", "lib/download.js", "lib/typed-documentnode.d.ts", "lib/index.js"):
            if not os.path.exists(os.path.join(published, f)):
                return wrong("package-files", f"{f} is not published")

        def answer(q, n):
            m = re.match(r"^/notarize/qlc/releases/download/([^/]+)/([^/]+)$", q.target)
            if q.headers.get("host") == "github.com" and m and m.group(1) == tag and m.group(2) in archives:
                return [response(b"", status="302 Found", headers=[("Location", f"https://objects.githubusercontent.com/x/{m.group(2)}?e=1")])[0]]
            if q.headers.get("host") == "objects.githubusercontent.com":
                return [response(archives[q.target[3:-4]])[0]]
            return [response(b"Not Found", status="404 Not Found")[0]]
        for (platform, arch), target in PLATFORMS.items():
            modules = os.path.join(top, "modules-" + target)
            os.makedirs(modules)
            with tarfile.open(os.path.join(top, tarball[0])) as t:
                t.extractall(modules, filter="data")
            directory = os.path.join(modules, "package")
            for name in (config["bin"] if isinstance(config["bin"], dict) else {}).values():
                if not os.path.exists(os.path.join(directory, name)):
                    return wrong("package-files", f"{name} is not in the package")
            with Server(answer, tls=True) as server:
                r = postinstall(directory, server.port, platform, arch)
            out.ran((version, target, sha256(binaries[target])), installed=1)
            path = os.path.join(directory, config["bin"]["qlc"])
            more = dict(platform=target, install=r.brief(), requests=[(q.headers.get("host"), q.target) for q in server.requests])
            if r.code != 0:
                return wrong("not-installed", f"installing for {target} ends with exit status {r.code}: {r.err[-300:]}", **more)
            with open(path, "rb") as f:
                installed = f.read()
            if installed != binaries[target]:
                of = [t for t, b in binaries.items() if b == installed]
                return wrong("other-binary", f"on {target} the binary of {of} is installed", **more)
            if stat.S_IMODE(os.stat(path).st_mode) & 0o111 != 0o111:
                return wrong("not-executable", f"on {target} the binary is not executable", **more)
        out.sample(version=version, archives=sorted(archives), ghr=facts["ghr"], yarn=yarn, checksums=config["checksumConfig"])
        # something is missing
        missing = rng.choice(list(PLATFORMS.values()))
        log, work, runs = publish("incomplete", without_binary=missing)
        out.ran(("missing", missing, version), missing_binary=1)
        if runs["github"].code == 0 or calls(log, "ghr") or calls(log, "yarn"):
            facts.update(runs={k: r.brief() for k, r in runs.items()})
            return wrong("incomplete-published", f"without the binary for {missing} the release is made")

        def without(work):
            path = os.path.join(work, "archives/checksums.txt")
            with open(path) as f:
                lines = [l for l in f if missing not in l]
            with open(path, "w") as f:
                f.writelines(lines)
        log, work, runs = publish("unknown", edit=without)
        out.ran(("checksum", missing, version), missing_checksum=1)
        if runs["npm"].code == 0 or calls(log, "yarn"):
            facts.update(runs={k: r.brief() for k, r in runs.items()})
            return wrong("unknown-published", f"without the checksum for {missing} the package is published")
