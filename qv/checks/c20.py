"""The installer never installs a binary that is not the checksummed one."""
import errno
import os
import stat

from ..build import compile_c
from ..common import VERIF, snapshot
from ..httpd import Server, response, split
from ..package import PLATFORMS, archive, package, postinstall, sha256

LEVEL = "fault_enumeration"
TECHNIQUE = "fault injection at a scripted server and in system calls, with a package-directory monitor"
NOTE = ("The package's postinstall script runs over TLS against a server which stands in for GitHub, for all platforms, with intact, altered, cut, "
        "stalled, redirected and failing downloads. Requests, exit status and the package directory are compared before and after. Sampled; "
        "thorough cuts small archives at every byte.")
BUDGET = {"quick": (100, 90), "thorough": (4000, 780)}
RULE = ("An evaluation is one run of the postinstall script in a copy of the package with a random version, archive and checksums. Good ones serve "
        "the archive of the platform with random framing, chunking and up to four redirects; bad ones alter, cut, extend, replace or stall it, "
        "answer with another status, redirect to something bad, lack the checksum, fail system calls on the archive, or run on another platform. "
        "Distinct by kind, platform and place of the fault.")
ASSUMPTIONS = ["archives hold nothing but the binary", "time limits of sockets are shortened to a twentieth"]
NEEDS_QLC = False
MUST_OBSERVE = ["installed", "redirects", "altered", "cut", "stalled", "statuses", "bad_redirects", "missing_checksum", "other_platforms", "write_faults", "stale_archives",
                "no_bin", "slow", "large"]
CHUNK = 1
WORKERS = 12


def setup(ctx):
    ctx.shared["shim"] = compile_c("iofault.so", os.path.join(VERIF, "qv", "iofault.c"), ["-shared", "-fPIC", "-ldl", "-lpthread"])


STATUSES = ["201 Created", "204 No Content", "206 Partial Content", "304 Not Modified", "400 Bad Request", "401 No", "403 Forbidden", "404 Not Found", "410 Gone",
            "429 Many", "500 Oops", "502 Bad", "503 Unavailable"]


def alter(rng, data, other):
    kind = rng.choice(["flip", "flip", "flip", "append", "prepend", "drop", "other-platform", "empty", "zero", "swap", "text", "twice", "recompressed"])
    b = bytearray(data)
    if kind == "flip":
        i = rng.choice([0, len(b) - 1, rng.randrange(len(b)), rng.randrange(len(b))])
        b[i] ^= 1 << rng.randrange(8)
    elif kind == "append":
        b += rng.choice([b"\0", b"\n", b"x" * 100])
    elif kind == "prepend":
        b[:0] = b"\n"
    elif kind == "drop":
        del b[rng.randrange(len(b))]
    elif kind == "other-platform":
        b = bytearray(other)
    elif kind == "empty":
        b = bytearray()
    elif kind == "zero":
        i = rng.randrange(len(b))
        b[i:i + 20] = bytes(len(b[i:i + 20]))
    elif kind == "swap":
        b.reverse()
    elif kind == "text":
        b = bytearray(b"<html>Not Found</html>")
    elif kind == "twice":
        b = b + b
    elif kind == "recompressed":
        b = bytearray(archive(b"#!/bin/sh\necho evil\n"))
    return kind, bytes(b)


def case(ctx, rng, index, out):
    version = rng.choice(["4.2.0", "1.0.0-alpha.1", "10.20.30", "5.0.0-beta.12", "0.0.1"])
    binaries = {t: rng.choice([b"#!/bin/sh\necho " + t.encode() + b"\n", rng.randbytes(rng.choice([0, 1, 5000, 300000]))]) for t in PLATFORMS.values()}
    if index % 15 == 3:
        # as large as real ones
        binaries[rng.choice(list(binaries))] = rng.randbytes(rng.randint(4 << 20, 9 << 20))
        binaries[rng.choice(list(binaries))] = rng.randbytes(rng.randint(1 << 20, 3 << 20))
    archives = {t: archive(b) for t, b in binaries.items()}
    checksums = {t: sha256(a) for t, a in archives.items()}

    def run(top, platform, arch, steps_for, env=None, sums=None, wrap=()):
        """steps_for(request, n) of the server, the result of the script and what changed"""
        directory = os.path.join(top, "package")
        if os.path.isdir(directory):
            from ..common import remove_tree
            remove_tree(directory)
        package(directory, version, checksums if sums is None else sums)
        if rng.random() < 0.1:
            os.remove(os.path.join(directory, "bin", "qlc"))
            os.remove(os.path.join(directory, "bin", "qlc-download-schema"))
            os.rmdir(os.path.join(directory, "bin"))
            out.count(no_bin=1)
        target = PLATFORMS.get((platform, arch))
        name = f"qlc-{version}-{target}.tar.gz"
        stale = target is not None and rng.random() < 0.2
        if stale:
            # left behind by something that ended badly
            with open(os.path.join(directory, name), "wb") as f:
                f.write(rng.choice([archives[target] + b"more", archives[target][:-1], b"x" * 1000000]))
            out.count(stale_archives=1)
        before = snapshot(directory)
        if env is None and rng.random() < 0.3:
            # on a slow file system
            env = {"LD_PRELOAD": ctx.shared["shim"], "QV_ROOT": directory,
                   "QV_FAULTS": f"create|slow|{rng.choice([1, 10, 100, 300])}|{os.path.join(directory, name)}"}
            out.count(slow=1)
        with Server(steps_for, tls=True) as server:
            r = postinstall(directory, server.port, platform, arch, env, wrap=wrap)
        after = snapshot(directory)
        changed = {p: c for p, c in after.items() if before.get(p) != c}
        for p in before:
            if p not in after:
                changed[p] = ("gone", None)
        if stale and changed.get(name) == ("gone", None):
            del changed[name]
        changed.pop("bin", None)
        return server, r, changed, name, directory, stale

    def asked(server, target):
        return [(q.method, q.headers.get("host"), q.target) for q in server.requests]

    def first_request(target):
        return ("GET", "github.com", f"/notarize/qlc/releases/download/{version}/qlc-{version}-{target}.tar.gz")

    def good(top, platform, arch):
        target = PLATFORMS[platform, arch]
        data = archives[target]
        framing = rng.choice(["length", "length", "chunked", "end"])
        body, _ = response(data, framing=framing, pieces=[rng.choice([1, 100, 16384, 50000]) for _ in range(30)])
        hops = rng.choice([0, 0, 1, 1, 1, 2, 4])
        places = [(rng.choice(["objects.githubusercontent.com", "github.com", "cdn.example.com"]), rng.choice(["/x", "/a/b?X-Amz=%2F&e=1", "/" + "p" * 900]) + str(i))
                  for i in range(hops)]

        def answer(q, n):
            if n < hops:
                return [response(rng.choice([b"", b"moved"]), status="302 Found", headers=[("Location", f"https://{places[n][0]}{places[n][1]}")])[0]]
            return [rng.choice([0, 0.05])] + split(rng, body, rng.choice([0, 2, 20]), rng.choice([0, 0.01]))
        server, r, changed, name, directory, stale = run(top, platform, arch, answer)
        out.ran(("good", target, hops, framing, len(data)), installed=1, redirects=hops, large=int(len(data) > 1 << 20))
        facts = dict(target=target, version=version, redirects=places, framing=framing, run=r.brief(), requests=asked(server, target), changed=sorted(changed), stale=stale)
        wanted = [first_request(target)] + [("GET", h, p) for h, p in places]
        if asked(server, target) != wanted:
            out.violation("requests", f"asked for {asked(server, target)} instead of {wanted}", **facts)
        elif r.hang or r.code != 0:
            out.violation("good-failed", f"installing the checksummed archive gives exit status {r.code}", **facts)
        elif not os.path.isfile(os.path.join(directory, "bin", "qlc")) or open(os.path.join(directory, "bin", "qlc"), "rb").read() != binaries[target]:
            out.violation("wrong-binary", "bin/qlc is not the binary of the archive", **facts)
        elif stat.S_IMODE(os.stat(os.path.join(directory, "bin", "qlc")).st_mode) & 0o555 != 0o555:
            out.violation("not-executable", f"bin/qlc has mode {os.stat(os.path.join(directory, 'bin', 'qlc')).st_mode:o}", **facts)
        elif set(changed) - {"bin/qlc", "bin/qlc-download-schema"}:
            out.violation("left-behind", f"{sorted(set(changed) - {'bin/qlc'})} is left behind", **facts)
        else:
            out.sample(target=target, redirects=hops, framing=framing)
            return True
        return False

    def bad(kind, detail, result, asks=None, allow_archive=False):
        server, r, changed, name, directory, stale = result
        out.ran((kind, detail), **{kind: 1})
        facts = dict(kind=kind, detail=detail, version=version, run=r.brief(), requests=asked(server, None), changed=sorted(changed), archive=name, stale=stale)
        changed = {p: c for p, c in changed.items() if p != "bin/qlc-download-schema"}
        if r.hang:
            out.violation(f"{kind}-hang", f"{kind} {detail}: did not end", **facts)
        elif r.code == 0:
            out.violation(f"{kind}-accepted", f"{kind} {detail}: exit status 0", **facts)
        elif any(p.startswith("bin") for p in changed):
            out.violation(f"{kind}-extracted", f"{kind} {detail}: {sorted(changed)} changed", **facts)
        elif changed or os.path.exists(os.path.join(directory, name)) and not stale:
            out.violation(f"{kind}-left-behind", f"{kind} {detail}: {sorted(changed) or name} is left behind", **facts)
        elif not r.err.strip():
            out.violation(f"{kind}-silent", f"{kind} {detail}: nothing on standard error", **facts)
        elif asks is not None and asked(server, None)[:1] != [asks]:
            out.violation("requests", f"asked for {asked(server, None)} instead of {asks}", **facts)
        else:
            return True
        return False

    with ctx.scratch() as top:
        def pick():
            p = rng.choice(list(PLATFORMS))
            return p[0], p[1], PLATFORMS[p]

        for key in rng.sample(list(PLATFORMS), 2):
            if not good(top, *key):
                return
        # other bytes
        for _ in range(3):
            platform, arch, target = pick()
            other = archives[rng.choice([t for t in archives if t != target])]
            kind, data = alter(rng, archives[target], other)
            if data == archives[target]:
                continue
            framing = rng.choice(["length", "chunked", "end"])
            body, _ = response(data, framing=framing, pieces=[rng.choice([100, 50000]) for _ in range(5)])
            result = run(top, platform, arch, lambda q, n: split(rng, body, 3))
            if not bad("altered", f"{kind} {target} {len(data)}", result, first_request(target)):
                return
        # a download that ends early
        places = [None, None]
        if ctx.thorough and index % 20 == 0:
            platform, arch, target = pick()
            total, head = response(archives[target])
            places += list(range(0, len(total), max(1, len(total) // 300)))
        for at in places:
            platform, arch, target = pick()
            framing = rng.choice(["length", "chunked"])
            total, head = response(archives[target], framing=framing, pieces=[rng.choice([100, 50000]) for _ in range(5)])
            if at is None:
                at = rng.choice([0, rng.randrange(head), head, head + 1, len(total) - 1, rng.randrange(head, len(total)), rng.randrange(head, len(total))])
            at = min(at, len(total) - 1)
            how = rng.choice(["close", "reset"])
            redirected = rng.random() < 0.3

            def answer(q, n):
                if redirected and n == 0:
                    return [response(b"", status="302 Found", headers=[("Location", "https://objects.githubusercontent.com/there")])[0]]
                return ([total[:at]] if at else []) + [rng.choice([0, 0.02, 0.1]), how]
            result = run(top, platform, arch, answer)
            if not bad("cut", f"{framing} {how} {'head' if at < head else 'body'} {at}/{len(total)} {target}", result, first_request(target)):
                return
        # one which stalls
        if index % 3 == 0:
            platform, arch, target = pick()
            total, head = response(archives[target])
            at = rng.choice([0, rng.randrange(head), head, rng.randrange(head, len(total))])
            result = run(top, platform, arch, lambda q, n: ([total[:at]] if at else []) + ["stall"])
            if not bad("stalled", f"{'head' if at < head else 'body'} {at} {target}", result, first_request(target)):
                return
        # statuses
        platform, arch, target = pick()
        s = rng.choice(STATUSES)
        body = archives[target] if rng.random() < 0.6 and not s.startswith(("204", "304")) else b""
        result = run(top, platform, arch, lambda q, n: [response(body, status=s)[0]])
        if not bad("statuses", f"{s} {len(body)}", result, first_request(target)):
            return
        # redirects to what is bad
        platform, arch, target = pick()
        kind, data = alter(rng, archives[target], b"other")
        style = rng.choice(["altered", "404", "nowhere", "http", "relative", "none", "refused"])
        location = {"http": "http://github.com/x", "relative": "/x", "none": None, "nowhere": "not a url"}.get(style, "https://cdn.example.com/x")

        def answer(q, n):
            if n == 0:
                return [response(b"", status="302 Found", headers=[("Location", location)] if location is not None else [])[0]]
            if style == "404":
                return [response(archives[target], status="404 Not Found")[0]]
            if style == "refused":
                return ["reset"]
            return [response(data)[0]]
        if data != archives[target]:
            result = run(top, platform, arch, answer)
            if not bad("bad_redirects", f"{style} {kind} {target}", result, first_request(target)):
                return
        # no or a wrong record
        platform, arch, target = pick()
        sums = dict(checksums)
        style = rng.choice(["missing", "empty", "swapped", "upper-part", "placeholder", "null", "prefix"])
        if style == "missing":
            del sums[target]
        elif style == "swapped":
            sums[target] = next(v for k, v in checksums.items() if v != checksums[target])
        else:
            sums[target] = {"empty": "", "upper-part": checksums[target][:-1] + "X", "placeholder": f"@{target}_CHECKSUM@", "null": None, "prefix": checksums[target][:20]}[style]
        result = run(top, platform, arch, lambda q, n: [response(archives[target])[0]], sums=sums)
        if not bad("missing_checksum", f"{style} {target}", result):
            return
        # other platforms
        platform, arch = rng.choice([("win32", "x64"), ("linux", "ia32"), ("linux", "arm"), ("darwin", "ppc"), ("freebsd", "x64"), ("sunos", "x64"), ("aix", "ppc64"), ("linux", "riscv64"),
                                     ("android", "arm64"), ("linux", "s390x"), ("win32", "arm64")])
        result = run(top, platform, arch, lambda q, n: [response(archives[rng.choice(list(archives))])[0]])
        if not bad("other_platforms", f"{platform} {arch}", result):
            return
        # files
        platform, arch, target = pick()
        directory = os.path.join(top, "package")
        path = os.path.join(directory, f"qlc-{version}-{target}.tar.gz")
        log = os.path.join(top, "log")
        if rng.random() < (0.8 if len(archives[target]) > 50000 else 0.5) and len(archives[target]) > 2000:
            style, limit = "limit", rng.randrange(1, len(archives[target]))
            wrap = ["prlimit", f"--fsize={limit}", "sh", "-c", 'trap "" XFSZ; exec "$@"', "sh"]
            body, _ = response(archives[target], framing=rng.choice(["length", "chunked", "end"]), pieces=[rng.choice([100, 30000]) for _ in range(9)])
            # where all is sent at once, it can fail when there is nothing more to wait for
            parts = rng.choice([1, 1, 3])
            result = run(top, platform, arch, lambda q, n: split(rng, body, parts, 0.01), wrap=wrap)
        else:
            style = rng.choice(["create", "write", "open", "read"])
            env = {"LD_PRELOAD": ctx.shared["shim"], "QV_ROOT": directory, "QV_LOG": log,
                   "QV_FAULTS": f"{style}|1+|{getattr(errno, rng.choice(['ENOSPC', 'EIO', 'EACCES']))}|{path}"}
            result = run(top, platform, arch, lambda q, n: [response(archives[target])[0]], env=env)
            with open(log) as f:
                hit = any("\tfailed\t" in l for l in f)
            os.remove(log)
            if not hit:
                out.count(not_hit=1)
                return
        if result[5] and style == "create":
            return  # an archive left by something else, which can not be replaced
        if not bad("write_faults", f"{style} {target} {len(archives[target])}", result):
            return
