"""The schema download helper is complete-or-fail."""
import base64
import errno
import json
import os
import resource
import shutil

from graphql import TypeInfo, build_schema, parse, validate

from ..build import compile_c
from ..common import REPO, VERIF, execute, snapshot, write_file
from ..httpd import CERT, Server, response, split

LEVEL = "fault_enumeration"
TECHNIQUE = "fault injection at a scripted server and in system calls, with a request and file monitor"
NOTE = ("The helper from the working tree runs against a server that answers with chosen framings, chunkings, delays, statuses and disconnects at "
        "chosen bytes, over HTTP and HTTPS. Requests, exit status, standard error and files are compared with what was sent. Sampled; thorough "
        "breaks small responses at every byte.")
BUDGET = {"quick": (110, 80), "thorough": (4000, 780)}
RULE = ("An evaluation is one run of bin/qlc-download-schema with Node.js against a local server or none. Complete responses vary in size, "
        "content, framing (length, chunks, end of connection), pieces and pauses; faults are other statuses, disconnects and resets after any "
        "number of bytes, malformed responses, refused connections, unusable arguments and failing system calls on the output file. Distinct by "
        "kind of response or fault and its place.")
ASSUMPTIONS = ["a response framed by the end of the connection is complete when the connection is closed in order", "the server does not stall forever"]
NEEDS_QLC = False
MUST_OBSERVE = ["complete", "faults", "statuses", "cut_head", "cut_body", "refused", "arguments", "write_faults", "https", "chunked", "requests", "overwritten",
                "default_path", "slow"]
CHUNK = 1


def setup(ctx):
    ctx.shared["shim"] = compile_c("iofault.so", os.path.join(VERIF, "qv", "iofault.c"), ["-shared", "-fPIC", "-ldl", "-lpthread"])


SOME_SCHEMA = build_schema("type Query { a: Int }")


def bodies(rng):
    r = rng.random()
    if r < 0.1:
        return b""
    if r < 0.35:
        return json.dumps({"data": {"__schema": {"types": [{"name": "é" * rng.randint(0, 40), "n": i} for i in range(rng.randint(0, 60))]}}}, ensure_ascii=False).encode()
    if r < 0.5:
        return rng.choice([b"\n", b"\0", b"\xff\xfe", b"{", b"\r\n\r\n", b"0\r\n\r\n", b"\xef\xbb\xbf{}", "\U0001f600".encode()]) * rng.randint(1, 50)
    if r < 0.85:
        return rng.randbytes(rng.choice([1, 2, 100, 16383, 16384, 16385, 65535, 65536, 65537, rng.randint(1, 200000)]))
    return rng.randbytes(rng.choice([rng.randint(1 << 20, 3 << 20)] * 6 + [9 << 20, 17 << 20]))


STATUSES = ["201 Created", "202 Accepted", "204 No Content", "206 Partial Content", "301 Moved Permanently", "302 Found", "303 See Other", "304 Not Modified",
            "307 Temporary Redirect", "308 Permanent Redirect", "400 Bad Request", "401 Unauthorized", "403 Forbidden", "404 Not Found", "429 Too Many", "500 Oops",
            "502 Bad Gateway", "503 Unavailable", "504 Timeout", "299 Odd", "599 Odd"]


def case(ctx, rng, index, out):
    with ctx.scratch() as top:
        package = os.path.join(top, "npm")
        shutil.copytree(os.path.join(REPO, "pkg", "npm"), package, symlinks=True)
        work = os.path.join(top, "work")
        os.makedirs(work)

        def helper(args, env=None, **kw):
            env = {"NODE_EXTRA_CA_CERTS": CERT, "NO_COLOR": "1", **(env or {})}
            if "LD_PRELOAD" not in env and len(args) > 1 and rng.random() < 0.3:
                # on a slow file system
                env.update({"LD_PRELOAD": ctx.shared["shim"], "QV_ROOT": work,
                            "QV_FAULTS": f"create|slow|{rng.choice([1, 10, 100, 300])}|{os.path.join(work, args[1])}"})
                out.count(slow=1)
            return execute(["node", os.path.join(package, "bin", "qlc-download-schema")] + args, cwd=work, env=env, **kw)

        def target(port, tls):
            path = rng.choice(["/graphql", "/", "", "/a/b?x=1&y=%20z", "/gr%C3%A4ph?q", "/graphql?token=a+b", "/a//b/../c", "/x#fragment"])
            auth = rng.choice(["", "", "", "user:pa%20ss@"])
            return f"{'https' if tls else 'http'}://{auth}{rng.choice(['localhost', '127.0.0.1'])}:{port}{path}", path, auth

        def sent_to(path):
            path = path.split("#")[0]
            path = {"/a//b/../c": "/a//c"}.get(path, path)
            return path if path.startswith("/") else "/" + path

        def check_requests(server, path, auth, facts):
            out.count(requests=len(server.requests))
            if len(server.requests) != 1:
                out.violation("requests", f"{len(server.requests)} requests were sent", **facts)
                return False
            q = server.requests[0]
            facts = dict(facts, request=q.brief())
            if q.method != "POST" or q.target != sent_to(path) or not q.complete:
                out.violation("request-line", f"the request was {q.method} {q.target}, not POST {sent_to(path)}", **facts)
                return False
            if auth and q.headers.get("authorization") != "Basic " + base64.b64encode(b"user:pa ss").decode():
                out.violation("request-auth", f"the credentials were sent as {q.headers.get('authorization')}", **facts)
                return False
            if "json" not in q.headers.get("content-type", ""):
                out.violation("request-type", f"the content type is {q.headers.get('content-type')}", **facts)
                return False
            try:
                query = json.loads(q.body)["query"]
                document = parse(query)
                errors = validate(SOME_SCHEMA, document)
            except Exception as e:
                errors = [e]
            if errors or "__schema" not in query:
                out.violation("request-query", f"the request is no introspection query: {errors[:2]}", **facts)
                return False
            return True

        def files(before):
            after = snapshot(work)
            return {p: c for p, c in after.items() if before.get(p) != c}, [p for p in before if p not in after]

        def outpath():
            r = rng.random()
            if r < 0.3:
                out.count(default_path=1)
                return [], "schema.json"
            os.makedirs(os.path.join(work, "sub"), exist_ok=True)
            name = rng.choice(["out.json", "sub/s.json", "schema", "a b.json", "é.json"])
            return [name if rng.random() < 0.7 else os.path.join(work, name)], name

        def old(name):
            if rng.random() < 0.4:
                write_file(os.path.join(work, name), rng.randbytes(rng.choice([0, 10, 100000])))
                out.count(overwritten=1)
            elif os.path.exists(os.path.join(work, name)):
                os.remove(os.path.join(work, name))

        def complete():
            body = bodies(rng)
            framing = rng.choice(["length", "chunked", "chunked", "end"])
            tls = rng.random() < 0.25
            headers = rng.choice([[], [("Content-Type", "application/json")], [("X-A", "b" * 2000), ("Set-Cookie", "a=b")], [("Content-Type", "text/plain; charset=latin-1")]])
            pieces = [rng.choice([1, 2, 3, 1000, 16384, 70000]) for _ in range(60)]
            data, _ = response(body, framing=framing, headers=headers, pieces=pieces)
            if rng.random() < 0.15:
                data = b"HTTP/1.1 103 Early Hints\r\nLink: </x>\r\n\r\n" + data
            steps = [rng.choice([0, 0, 0.05])] + split(rng, data, rng.choice([0, 1, 5, 40]), rng.choice([0, 0.002, 0.02]))
            if framing != "end" and rng.random() < 0.3:
                steps.append(0.3)
            with Server(lambda q, n: steps, tls) as server:
                url, path, auth = target(server.port, tls)
                args, name = outpath()
                old(name)
                before = snapshot(work)
                r = helper([url] + args)
            changed, gone = files(before)
            out.ran(("complete", framing, len(body), len(steps)), complete=1, https=int(tls), chunked=int(framing == "chunked"), bytes=len(body))
            facts = dict(url=url, arguments=args, framing=framing, length=len(body), steps=len(steps), run=r.brief(), server_errors=server.errors)
            if not check_requests(server, path, auth, facts):
                return False
            if r.hang or r.code != 0:
                out.violation("complete-failed", f"a complete {framing} response of {len(body)} bytes gives exit status {r.code}", **facts)
                return False
            with open(os.path.join(work, name), "rb") as f:
                got = f.read()
            if got != body:
                at = next((i for i, (a, b) in enumerate(zip(got, body)) if a != b), min(len(got), len(body)))
                out.violation("not-the-body", f"{name} has {len(got)} bytes, the {framing} body {len(body)}, and they differ from byte {at}", **facts)
                return False
            if set(changed) - {name} or gone:
                out.violation("other-files", f"other files changed: {sorted(set(changed) - {name})} {gone}", **facts)
                return False
            out.sample(framing=framing, bytes=len(body), pieces=len(steps), https=tls)
            return True

        def failed(kind, r, name, before, facts, signature):
            out.ran((kind, signature), faults=1)
            changed, gone = files(before)
            if r.hang:
                out.violation(f"{kind}-hang", f"{kind} ({signature}): did not end", **facts)
            elif r.code == 0:
                out.violation(f"{kind}-ignored", f"{kind} ({signature}): exit status 0", **facts)
            elif name is not None and os.path.lexists(os.path.join(work, name)) and name in changed:
                out.violation(f"{kind}-partial", f"{kind} ({signature}): {name} is left behind", **facts)
            elif set(changed) - {name}:
                out.violation(f"{kind}-other", f"{kind} ({signature}): {sorted(changed)} changed", **facts)
            elif not r.err.strip():
                out.violation(f"{kind}-silent", f"{kind} ({signature}): nothing on standard error", **facts)
            else:
                return True
            return False

        def cut(body, framing, at, how, pause, status="200 OK", pieces=()):
            data, head = response(body, framing=framing, status=status, pieces=pieces)
            steps = ([data[:at]] if at else []) + [pause, how]
            tls = rng.random() < 0.15
            with Server(lambda q, n: steps, tls) as server:
                url, path, auth = target(server.port, tls)
                args, name = outpath()
                old(name)
                before = snapshot(work)
                r = helper([url] + args)
            out.count(https=int(tls), **{"cut_head" if at < head else "cut_body": 1})
            facts = dict(url=url, arguments=args, framing=framing, cut=at, total=len(data), how=how, run=r.brief(), requests=len(server.requests))
            if not server.requests:
                out.count(no_request=1)
                return True
            return failed("cut", r, name, before, facts, (framing, how, "head" if at < head else "body", at, len(data))) and check_requests(server, path, auth, facts)

        def status():
            s = rng.choice(STATUSES)
            body = rng.choice([b"", b"{}", bodies(rng)]) if not s.startswith(("204", "304")) else b""
            with Server(lambda q, n: [response(b'{"data":1}')[0]]) as other:
                headers = [("Location", f"http://127.0.0.1:{other.port}/")] if s.startswith("3") else []
                data, _ = response(body, status=s, framing=rng.choice(["length", "chunked"]) if body else "length", headers=headers)
                with Server(lambda q, n: [data]) as server:
                    url, path, auth = target(server.port, False)
                    args, name = outpath()
                    old(name)
                    before = snapshot(work)
                    r = helper([url] + args)
                out.count(statuses=1)
                facts = dict(url=url, arguments=args, status=s, run=r.brief())
                if other.requests:
                    out.violation("redirect", "another URL than the given one was asked", **facts)
                    return False
                return failed("status", r, name, before, facts, (s, len(body))) and check_requests(server, path, auth, facts)

        def malformed():
            data = rng.choice([b"\r\n\r\n", b"HTTP/1.1\r\n\r\n", b"nonsense\r\n\r\n", b"HTTP/1.1 abc OK\r\n\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\nabc",
                               b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nabc\r\n",
                               b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabcdef\r\n0\r\n\r\n", b"HTTP/1.1 200 OK\r\n" + b"X: " + b"y" * 100000 + b"\r\n\r\n{}"])
            with Server(lambda q, n: [data, 0.05]) as server:
                url, path, auth = target(server.port, False)
                args, name = outpath()
                old(name)
                before = snapshot(work)
                r = helper([url] + args)
            return failed("malformed", r, name, before, dict(response=data[:80], run=r.brief()), data[:60])

        def refused():
            kind = rng.choice(["port", "tls-on-plain", "plain-on-tls", "untrusted", "host", "close"])
            with Server(lambda q, n: ["reset"], tls=kind in ("plain-on-tls", "untrusted")) as server:
                port = server.port
                env = {}
                url = f"http://127.0.0.1:{port}/"
                if kind == "port":
                    server.__exit__()
                elif kind == "tls-on-plain":
                    url = f"https://127.0.0.1:{port}/"
                elif kind == "untrusted":
                    url, env = f"https://127.0.0.1:{port}/", {"NODE_EXTRA_CA_CERTS": ""}
                elif kind == "host":
                    url = "http://does-not-exist.invalid/"
                args, name = outpath()
                old(name)
                before = snapshot(work)
                r = helper([url] + args, env)
            out.count(refused=1)
            if kind == "untrusted" and server.requests:
                out.violation("untrusted", "a server without a trusted certificate was asked", run=r.brief())
                return False
            return failed("refused", r, name, before, dict(kind=kind, url=url, run=r.brief()), kind)

        def arguments():
            args = rng.choice([[], [""], ["not a url", "o.json"], ["/graphql", "o.json"], ["ftp://127.0.0.1/x", "o.json"], ["file:///etc/hostname", "o.json"], ["http://", "o.json"],
                               ["localhost:1", "o.json"], ["http://127.0.0.1:99999/", "o.json"], ["http://[::1", "o.json"]])
            for p in ("o.json", "schema.json"):
                if os.path.exists(os.path.join(work, p)):
                    os.remove(os.path.join(work, p))
            before = snapshot(work)
            r = helper(args)
            out.count(arguments=1)
            return failed("arguments", r, args[1] if len(args) > 1 else "schema.json", before, dict(arguments=args, run=r.brief()), tuple(args))

        def write_fault():
            body = rng.randbytes(rng.choice([1, 5000, 100000, 170000, 300000]))
            data, _ = response(body, framing=rng.choice(["length", "chunked", "end"]), pieces=[rng.choice([100, 30000]) for _ in range(9)])
            kind = rng.choice(["create", "write", "write", "limit", "limit", "limit", "directory", "no-parent"])
            # where all is sent at once, it can fail when there is nothing more to wait for
            parts = rng.choice([1, 1, 3])
            with Server(lambda q, n: split(rng, data, parts, 0.01)) as server:
                url = f"http://127.0.0.1:{server.port}/"
                name = "fault.json" if kind != "no-parent" else "nothing/here.json"
                at = os.path.join(work, name)
                if os.path.isdir(at):
                    os.rmdir(at)
                elif os.path.exists(at):
                    os.remove(at)
                if kind == "directory":
                    os.makedirs(at)
                before = snapshot(work)
                env = {}
                if kind in ("create", "write"):
                    env = {"LD_PRELOAD": ctx.shared["shim"], "QV_ROOT": work, "QV_LOG": os.path.join(top, "log"),
                           "QV_FAULTS": f"{kind}|{1 if kind == 'create' else rng.choice([1, 1, 2])}+|{getattr(errno, rng.choice(['ENOSPC', 'EIO', 'EACCES', 'EDQUOT']))}|{at}"}
                if kind == "limit":
                    argv = ["prlimit", f"--fsize={rng.choice([len(body) - 1, rng.randrange(len(body))])}", "sh", "-c", 'trap "" XFSZ; exec "$@"', "sh", "node",
                            os.path.join(package, "bin", "qlc-download-schema"), url, name]
                    r = execute(argv, cwd=work)
                else:
                    r = helper([url, name], env)
            if kind == "directory":
                changed, _ = files(before)
                out.ran(("write", kind), faults=1)
                if r.code == 0 or changed or not r.err.strip():
                    out.violation("write-ignored", f"the output is a directory: exit status {r.code}, changed {sorted(changed)}", run=r.brief())
                    return False
                return True
            if kind in ("create", "write"):
                with open(os.path.join(top, "log")) as f:
                    hit = any("\tfailed\t" in l for l in f)
                os.remove(os.path.join(top, "log"))
                if not hit:
                    out.count(not_hit=1)
                    return True
            out.count(write_faults=1)
            return failed("write", r, name, before, dict(kind=kind, env=env, length=len(body), run=r.brief()), (kind, len(body)))

        for f in [complete, complete, complete, status, refused, write_fault, write_fault, malformed, arguments]:
            if not f():
                return
        for _ in range(3):
            body = bodies(rng) if rng.random() < 0.5 else b'{"data":{"__schema":{"types":[]}}}'
            framing = rng.choice(["length", "chunked"])
            pieces = [rng.choice([1, 10, 1000, 20000]) for _ in range(30)]
            total, head = response(body, framing=framing, pieces=pieces)
            at = rng.choice([0, rng.randrange(head), head, head + 1, len(total) - 1, rng.randrange(head, len(total)) if len(total) > head else head,
                             len(total) - rng.randint(1, 5)])
            at = max(0, min(at, len(total) - 1))
            if not cut(body, framing, at, rng.choice(["close", "close", "reset"]), rng.choice([0, 0.01, 0.2]), pieces=pieces):
                return
        if ctx.thorough and index < 40:
            body = rng.choice([b'{"data":1}', b"abc", b"\0" * 40])
            framing = ["length", "chunked"][index % 2]
            total, head = response(body, framing=framing, pieces=[1, 3, 5])
            for at in range(len(total)):
                if not cut(body, framing, at, ["close", "reset"][index // 2 % 2], rng.choice([0, 0.02]), pieces=[1, 3, 5]):
                    return
