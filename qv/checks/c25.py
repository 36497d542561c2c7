"""The installed npm package works as documented."""
import json
import os
import re
import stat

from graphql import graphql_sync

from ..common import execute, write_file, write_tree
from ..flow import generate
from ..gen import Profile
from ..httpd import Server, response
from ..package import PLATFORMS, archive, package, postinstall, sha256
from ..tsnode import GRAPHQL_STUB
from ..work import output_of

LEVEL = "exploration"
TECHNIQUE = "end-to-end monitor of the installed package under npm, Node and TypeScript"
NOTE = ("The package is packed and installed by npm, its installer run, and then everything it offers is used from scratch applications as its users would: "
        "the commands, the module with the binary's path, the schema helper, and the document types, which TypeScript resolves on its own. Sampled.")
BUDGET = {"quick": (40, 100), "thorough": (1200, 780)}
RULE = ("A case installs the package into a scratch application at a random path (spaces, other scripts, below a symlink), with npm, for the application or "
        "globally. Evaluations are uses of it: a command with random arguments, input and exit status, the modules required or imported, a schema "
        "downloaded, and an application with random documents type-checked with one of TypeScript's module resolutions. Distinct by kind and what was used.")
ASSUMPTIONS = ["Linux on x64", "module resolution which honours `exports` in package.json (bundler, or node16 and nodenext for CommonJS)",
               "a stand-in declares graphql's DocumentNode"]
MUST_OBSERVE = ["installs", "global_installs", "commands", "statuses", "inputs", "required", "imported", "schemas", "default_schema_files", "programs", "bundler", "node16", "nodenext", "documents",
                "odd_paths", "linked", "pipelines"]
CHUNK = 1
HERE = "x86_64-unknown-linux-musl"


class P(Profile):
    documents = (2, 4)
    fragments = (0, 2)
    max_depth = 3
    sinks = 1
    twins = 0
    max_list = 3
    simple_paths = True


# Reports what it was run with, and ends as told
PROBE = """#!/bin/sh
# %s
printf 'cwd %%s\\n' "$(pwd -P)"
printf 'marker %%s\\n' '%s'
for a in "$@"; do printf 'arg <%%s>\\n' "$a"; done
case "$1" in stdin) cat; shift;; esac
case "$1" in exit*) exit "${1#exit}";; esac
"""

NPM = {"npm_config_update_notifier": "false", "npm_config_offline": "true", "npm_config_audit": "false", "npm_config_fund": "false"}
ARGUMENTS = ["-s", "a b", "", "--help", "*", "$HOME", "'", '"', "é", "\\", "a\nb", "--", "-"]


def case(ctx, rng, index, out):
    with ctx.scratch() as top:
        top = os.path.realpath(top)
        name = rng.choice(["app", "my app", "büro/日本", "a'b", "deep/er/app", "node_modules_not"])
        app = os.path.join(top, name)
        os.makedirs(app)
        odd = not name.isascii() or " " in name or "'" in name
        real = index % 2 == 0
        version = f"{rng.randint(0, 20)}.{rng.randint(0, 20)}.{rng.randint(0, 20)}"
        marker = f"m{rng.getrandbits(60):x}"
        if real:
            with open(ctx.qlc, "rb") as f:
                binary = f.read()
        else:
            binary = (PROBE % (rng.random(), marker)).encode()
        data = archive(binary)
        source = os.path.join(top, "source")
        package(source, version, {**{t: sha256(b"other " + t.encode()) for t in PLATFORMS.values()}, HERE: sha256(data)})
        env = {"HOME": top, "npm_config_cache": os.path.join(top, "cache"), **NPM}
        r = execute(["npm", "pack", "--ignore-scripts", "--pack-destination", top], cwd=source, env=env)
        tarball = [f for f in os.listdir(top) if f.endswith(".tgz")]
        facts = dict(application=name, version=version, real=real)

        def wrong(signature, message, **more):
            out.violation(signature, message, **facts, **more)
        if r.code != 0 or len(tarball) != 1:
            return wrong("not-packable", f"npm can not pack it: {r.err[-500:]}", run=r.brief())
        globally = rng.random() < 0.25
        if globally:
            prefix = os.path.join(app, "global")
            os.makedirs(os.path.join(prefix, "lib"))
            r = execute(["npm", "install", "-g", "--prefix", prefix, "--ignore-scripts", "--omit=optional", os.path.join(top, tarball[0])], cwd=app, env=env)
            modules, bins = os.path.join(prefix, "lib", "node_modules"), os.path.join(prefix, "bin")
        else:
            write_file(os.path.join(app, "package.json"), json.dumps({"name": "app", "version": "1.0.0", "private": True}))
            r = execute(["npm", "install", "--ignore-scripts", "--omit=optional", os.path.join(top, tarball[0])], cwd=app, env=env)
            modules, bins = os.path.join(app, "node_modules"), os.path.join(app, "node_modules", ".bin")
        installed = os.path.join(modules, "@notarize", "qlc-cli")
        if r.code != 0 or not os.path.isdir(installed):
            return wrong("not-installable", f"npm can not install it: {r.err[-500:]}", run=r.brief())

        def answer(q, n):
            if q.headers.get("host") == "github.com" and q.target.endswith(f"/{version}/qlc-{version}-{HERE}.tar.gz"):
                return [response(data)[0]]
            return [response(b"Not Found", status="404 Not Found")[0]]
        with Server(answer, tls=True) as server:
            r = postinstall(installed, server.port, "linux", "x64")
        if r.code != 0:
            return wrong("not-installable", f"its installer ends with exit status {r.code}: {r.err[-300:]}", run=r.brief())
        out.ran(("install", name, globally, real), installs=1, global_installs=int(globally), odd_paths=int(odd))
        # through a link to the application, as in a work space
        if rng.random() < 0.3:
            os.symlink(app, os.path.join(top, "link"))
            bins = bins.replace(app, os.path.join(top, "link"), 1)
            out.count(linked=1)

        # the command
        cwd = os.path.join(app, rng.choice(["", "sub", "sub dir"]))
        os.makedirs(cwd, exist_ok=True)
        command = os.path.join(bins, "qlc")
        if not os.access(command, os.X_OK):
            return wrong("no-command", "npm made no command `qlc`")
        if real:
            r = execute([command, "--version"], cwd=cwd)
            out.ran(("command", "--version", name), commands=1)
            if r.code != 0 or not re.match(r"QL Compiler \d", r.out):
                return wrong("command", f"qlc --version ends with exit status {r.code} and {r.out!r}", run=r.brief())
        else:
            for _ in range(3):
                kind = rng.choice(["args", "exit", "stdin"])
                status = rng.choice([1, 2, 3, 101, 127]) if kind == "exit" else 0
                args = {"args": [], "exit": [f"exit{status}"], "stdin": ["stdin"]}[kind] + rng.sample(ARGUMENTS, rng.randint(0, 5))
                given = "".join(rng.choice("ab \né") for _ in range(rng.randint(1, 50))) if kind == "stdin" else None
                r = execute([command] + args, cwd=cwd, stdin=given.encode() if given is not None else None)
                out.ran(("command", tuple(args), given), commands=1, statuses=int(status != 0), inputs=int(given is not None))
                wanted = f"cwd {os.path.realpath(cwd)}\nmarker {marker}\n" + "".join(f"arg <{a}>\n" for a in args) + (given or "")
                if r.out != wanted or r.code != status:
                    return wrong("command", f"qlc {args} ends with exit status {r.code} and {r.out!r} instead of {status} and {wanted!r}", run=r.brief())

        # the module
        own = app if not globally else os.path.join(app, "uses")
        if globally:
            os.makedirs(os.path.join(own, "node_modules", "@notarize"))
            os.symlink(installed, os.path.join(own, "node_modules", "@notarize", "qlc-cli"))
        where = os.path.join(own, rng.choice(["", "src", "a/b"]))
        os.makedirs(where, exist_ok=True)
        uses = {"use.cjs": 'const path = require("@notarize/qlc-cli");\nrequire("@notarize/qlc-cli/typed-documentnode");\nconsole.log(JSON.stringify({ path }));\n',
                "use.mjs": 'import path from "@notarize/qlc-cli";\nimport "@notarize/qlc-cli/typed-documentnode";\nconsole.log(JSON.stringify({ path }));\n'}
        for file, text in uses.items():
            write_file(os.path.join(where, file), text)
            r = execute(["node", os.path.join(where, file)], cwd=rng.choice([top, where, "/"]))
            out.ran((file, name, os.path.relpath(where, own)), **{"required" if file.endswith("cjs") else "imported": 1})
            try:
                path = json.loads(r.out)["path"]
            except (ValueError, KeyError):
                path = None
            if r.code != 0 or not isinstance(path, str):
                return wrong("module", f"{file} ends with exit status {r.code} and {r.out!r}: {r.err[-400:]}", run=r.brief())
            if not os.path.isabs(path) or not os.path.isfile(path) or open(path, "rb").read() != binary or not stat.S_IMODE(os.stat(path).st_mode) & 0o100:
                return wrong("module-path", f"the module's {path!r} is not the installed binary", run=r.brief())

        # the schema helper
        project = generate(rng, P)
        schema = json.dumps(project.sc.introspection)

        def serve(q, n):
            try:
                asked = json.loads(q.body)["query"]
                result = graphql_sync(project.sc.schema, asked)
                body = json.dumps({"data": result.data, **({"errors": [str(e) for e in result.errors]} if result.errors else {})})
            except (ValueError, KeyError):
                return [response(b"", status="400 Bad Request")[0]]
            return [response(body.encode(), headers=[("Content-Type", "application/json")])[0]]
        target = rng.choice(["schema.json", "my schema.json", None, os.path.join(own, "s.json")])
        with Server(serve) as server:
            r = execute([os.path.join(bins, "qlc-download-schema"), f"http://127.0.0.1:{server.port}/graphql"] + ([target] if target else []), cwd=own)
        out.ran(("schema", target, schema), schemas=1, default_schema_files=int(target is None))
        at = os.path.join(own, target or "schema.json")
        try:
            with open(at) as f:
                got = json.load(f)
        except (OSError, ValueError):
            got = None
        if r.code != 0 or not got or "errors" in got:
            return wrong("schema", f"qlc-download-schema ends with exit status {r.code} and {str(got)[:200]}: {r.err[-300:]}", run=r.brief())
        if not real:
            return

        # all of it
        src = os.path.join(own, "source")
        write_tree(src, project.files())
        args = ["-s", at, "source"] + (["--root-dir-import-prefix", project.prefix] if project.prefix else [])
        r = execute([command] + args, cwd=own)
        out.ran(("qlc", schema, json.dumps(sorted(project.files()))), pipelines=1)
        if r.code != 0:
            return wrong("pipeline", f"qlc {args} ends with exit status {r.code} for valid documents and the downloaded schema", run=r.brief(), files=project.files(),
                         schema=project.sc.sdl)
        resolution = rng.choice(["bundler", "node16", "nodenext"])
        module = {"bundler": "esnext", "node16": "node16", "nodenext": "nodenext"}[resolution]
        lines = ['import type { DataOf, VariablesOf } from "@notarize/qlc-cli/typed-documentnode";', "type Identical<A, B> = (<T>() => T extends A ? 1 : 2) extends (<T>() => T extends B ? 1 : 2) ? true : false;",
                 "type Expect<T extends true> = T;", 'import binary from "@notarize/qlc-cli";', "export const path: string = binary;"]
        for i, doc in enumerate(project.docs):
            data = doc.data_name
            lines += [f'import type document{i} from "./{doc.path}";', f'import type {{ {data} as Data{i} }} from "./{doc.path}";',
                      f"export type D{i} = Expect<Identical<DataOf<typeof document{i}>, Data{i}>>;", "// @ts-expect-error", f"export const wrong{i}: DataOf<typeof document{i}> = null;"]
        write_file(os.path.join(src, "app.ts"), "\n".join(lines) + "\n")
        style = rng.choice(["esm", "cjs"]) if resolution == "bundler" else "cjs"
        if style == "cjs" and resolution != "bundler":
            write_file(os.path.join(src, "required.cts"), 'import binary = require("@notarize/qlc-cli");\nexport const path: string = binary;\n')
        for m in {modules, os.path.join(own, "node_modules")}:
            write_file(os.path.join(m, "graphql", "package.json"), '{"name":"graphql","version":"16.0.0","types":"index.d.ts","main":"index.js"}')
            write_file(os.path.join(m, "graphql", "index.d.ts"), GRAPHQL_STUB)
        write_file(os.path.join(src, "package.json"), json.dumps({"type": "module" if style == "esm" else "commonjs"}))
        config = {"compilerOptions": {"strict": True, "noEmit": True, "module": module, "moduleResolution": resolution, "target": "es2020", "esModuleInterop": True, "types": [],
                                      "skipLibCheck": False, "lib": ["es2020"], "paths": {"graphql-globals": ["./source/graphql-globals.ts"]}},
                  "include": ["source/app.ts", "source/required.cts"]}
        write_file(os.path.join(own, "tsconfig.json"), json.dumps(config))
        r = execute(["tsc", "-p", "tsconfig.json", "--pretty", "false"], cwd=own, wall=120, cpu=100)
        out.ran(("tsc", resolution, style, json.dumps(sorted(project.files().values()))), programs=1, documents=len(project.docs), **{resolution: 1})
        if r.code != 0:
            return wrong("does-not-type-check", f"with moduleResolution {resolution} ({style}) the application does not type-check: {r.out[:600]}", run=r.brief(),
                         modules={p: open(os.path.join(src, p)).read() for p in [output_of(d.path) for d in project.docs] if os.path.exists(os.path.join(src, p))})
        out.sample(application=name, version=version, resolution=resolution, style=style, documents=[d.path for d in project.docs])
