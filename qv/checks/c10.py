"""Terminates without crashing on any input."""
import copy
import json
import os
import re
import shutil

from ..common import write_file, write_tree
from ..flow import generate
from ..gen import Profile
from ..mutate import mutate
from ..work import prefix_args, run_qlc

LEVEL = "exploration"
TECHNIQUE = "crash and hang watchdog over hostile workloads"
NOTE = ("The real compiler (a debug build, with overflow checks) runs on mutated bytes, hostile schemas, configs, option values and import "
        "graphs under limits of time and memory. Sampled hostile inputs; hangs are runs of 60 seconds, twice.")
BUDGET = {"quick": (520, 70), "thorough": (30000, 780)}
RULE = ("A case is a random project turned hostile in one of several ways (bytes of documents, schema or config changed; schema values "
        "replaced by other JSON; types made recursive, missing or of another kind; import and spread graphs with cycles, dangling edges, "
        "diamonds and odd spellings; odd option values and paths), and evaluations are runs of the real qlc on it. Each must end by itself "
        "with status 0, 1 or 2, no panic on standard error, an error message if and only if the status is not 0. Distinct by input; "
        "every run is non-trivial.")
ASSUMPTIONS = ["4 GB of memory and 60 s are enough for inputs of this size",
               "fragments that spread one another do not branch exponentially, thread counts are at most 300"]
MUST_OBSERVE = ["runs", "exit_0", "exit_1", "exit_2", "bytes", "schema_values", "schema_shapes", "graphs", "config", "options", "nesting", "spread_cycles", "depths"]


class P(Profile):
    fragments = (0, 4)
    documents = (1, 3)
    max_depth = 3


DICTIONARY = [b"{", b"}", b"(", b")", b"[", b"]", b"...", b"on", b"@", b"!", b"$", b":", b"=", b"|", b"&", b'"', b'"""', b"#", b"#import \"", b"\\",
              b"\\u", b"\\ud800", b"fragment", b"query", b"mutation", b"subscription", b"null", b"true", b"-", b"-0", b"1e999", b"0x", b"\r", b"\n", b"\r\n", b"\t",
              b"\0", b"\xff", b"\xc3", b"\xef\xbb\xbf", b"\xe2\x80\xa8", b"\xf0\x9f\x98\x80", b"__typename", b"__schema", b",", b" ", b"{}", b"()", b"on on on",
              "é".encode(), b"type", b"schema", b"extend", b"@include(if: true)", b"9" * 40]


def mangle(rng, data):
    data = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 8, 30])):
        r = rng.random()
        at = rng.randint(0, len(data))
        if r < 0.3:
            data[at:at] = rng.choice(DICTIONARY)
        elif r < 0.5:
            del data[at:at + rng.choice([1, 1, 2, 5, 40])]
        elif r < 0.65 and data:
            at = rng.randrange(len(data))
            data[at] = rng.choice([data[at] ^ (1 << rng.randrange(8)), rng.randrange(256)])
        elif r < 0.75:
            other = rng.randint(0, len(data))
            a, b = min(at, other), max(at, other)
            data[at:at] = data[a:min(b, a + 200)]
        elif r < 0.85:
            data[at:at + len(d)] = (d := rng.choice(DICTIONARY))
        elif r < 0.92:
            del data[at:]
        else:
            k = rng.randint(1, 30)
            data[at:at] = rng.choice(DICTIONARY) * k
    return bytes(data)


ODD = [None, True, False, 0, -1, 1e308, 12345678901234567890, "", "x", "__typename", [], {}, [None], [[]], {"": None}, {"name": None}, {"kind": "LIST"},
       {"kind": "NON_NULL", "ofType": None}, "LIST", "OBJECT", "é\u0000"]


def places_in(value, path=()):
    out = []
    items = value.items() if isinstance(value, dict) else enumerate(value) if isinstance(value, list) else []
    for k, v in items:
        out.append((value, k))
        out += places_in(v, path + (k,))
    return out


def odd_values(rng, schema):
    schema = copy.deepcopy(schema)
    for _ in range(rng.choice([1, 1, 2, 5])):
        options = places_in(schema)
        if not options:
            break
        container, key = rng.choice(options)
        r = rng.random()
        if r < 0.2:
            del container[key]
        elif r < 0.6:
            container[key] = copy.deepcopy(rng.choice(ODD))
        elif r < 0.8:
            other, k = rng.choice(options)
            try:
                container[key] = copy.deepcopy(other[k])
            except (KeyError, IndexError):
                pass
        elif isinstance(container, list):
            container.append(copy.deepcopy(container[key]))
        else:
            container[key + rng.choice(["", "x"])] = copy.deepcopy(container[key])
    return schema


def odd_shapes(rng, schema):
    """Well-formed JSON which is no valid schema."""
    schema = copy.deepcopy(schema)
    types = schema["data"]["__schema"]["types"]
    by_kind = {}
    for t in types:
        by_kind.setdefault(t["kind"], []).append(t)
    names = [t["name"] for t in types]

    def ref(kind_name=None):
        t = rng.choice(types)
        r = {"kind": rng.choice([t["kind"], t["kind"], rng.choice(list(by_kind))]), "name": rng.choice([t["name"], t["name"], "Missing", ""]), "ofType": None}
        for _ in range(rng.choice([0, 0, 1, 2, 3, 6, 40])):
            r = {"kind": rng.choice(["LIST", "NON_NULL", "LIST"]), "name": None, "ofType": r}
        return r
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        t = rng.choice(types)
        style = rng.randrange(10)
        fields = t.get("fields") or t.get("inputFields")
        if style < 3 and fields:
            rng.choice(fields)["type"] = ref()
        elif style == 3:
            types.remove(t)
        elif style == 4:
            t["kind"] = rng.choice(list(by_kind) + ["UNKNOWN"])
        elif style == 5 and t.get("possibleTypes"):
            t["possibleTypes"] = rng.choice([[], t["possibleTypes"] * 2, [{"kind": "OBJECT", "name": "Missing", "ofType": None}],
                                             [{"kind": t["kind"], "name": t["name"], "ofType": None}], [{"kind": "ENUM", "name": rng.choice(names), "ofType": None}]])
        elif style == 6:
            t["name"] = rng.choice(names + ["", "__typename", "0", "é", "a b"])
        elif style == 7 and by_kind.get("INPUT_OBJECT"):
            # recursion which can never end
            i = rng.choice(by_kind["INPUT_OBJECT"])
            j = rng.choice(by_kind["INPUT_OBJECT"])
            i["inputFields"].append({"name": "again", "description": None, "type": {"kind": "NON_NULL", "name": None, "ofType": {"kind": "INPUT_OBJECT", "name": j["name"], "ofType": None}}, "defaultValue": None})
            j["inputFields"].append({"name": "back", "description": None, "type": {"kind": "NON_NULL", "name": None, "ofType": {"kind": "INPUT_OBJECT", "name": i["name"], "ofType": None}}, "defaultValue": None})
        elif style == 8 and fields:
            f = rng.choice(fields)
            f["name"] = rng.choice(["", "__typename", "constructor", "a b", "é", f["name"], "x" * 5000])
            if rng.random() < 0.5:
                f["description"] = rng.choice(["", "\n", "*/", "\n\n\n", " ", "é" * 1000, "\u0000", "\u2028", "\r", "x\n" * 500])
        else:
            for op in ("queryType", "mutationType", "subscriptionType"):
                if rng.random() < 0.5:
                    schema["data"]["__schema"][op] = rng.choice([None, {"name": rng.choice(names)}, {"name": "Missing"}, {"name": ""}])
    return schema


def graph(rng, project):
    """Fragments which import and spread each other in any way."""
    files = {}
    n = rng.choice([1, 2, 3, 5, 9, 25, 40])
    root = project.sc.schema.query_type.name
    dirs = ["", "a/", "b/c/", "d.graphql/"]
    paths = [rng.choice(dirs) + f"f{i}.graphql" for i in range(n)]
    style = rng.choice(["chain", "ring", "star", "random", "random", "tree", "self", "complete" if n <= 5 else "ring"])
    for i, p in enumerate(paths):
        if style == "chain":
            to = [i + 1] if i + 1 < n else []
        elif style == "ring":
            to = [(i + 1) % n]
        elif style == "star":
            to = [0] if i else list(range(min(n, 10)))
        elif style == "tree":
            to = [k for k in (2 * i + 1, 2 * i + 2) if k < n]
        elif style == "self":
            to = [i]
        elif style == "complete":
            to = list(range(n))
        else:
            to = [rng.randrange(n) for _ in range(rng.choice([0, 1, 1, 2]))] if n < 12 else [rng.randrange(i + 1, n)] if i + 1 < n and rng.random() < 0.9 else [rng.randrange(n)]
        lines = []
        for k in to:
            rel = os.path.relpath(paths[k], os.path.dirname(p) or ".")
            lines.append('#import "' + rng.choice([paths[k], "./" + rel, rel if rel.startswith(".") else paths[k], "./././" + rel, "a/../" + paths[k],
                                                   "./" + ("x/../" * rng.choice([1, 30])) + rel]) + rng.choice(['"', '"', '"', "", '" ', "'"]))
        if rng.random() < 0.1:
            lines.append(rng.choice(['#import ""', '#import "', '#import "."', '#import ".."', '#import "/"', '#import "a"', '#import "schema.json"',
                                     '#import "' + "x" * 5000 + '"', '#import "é\\n"', '#import "/etc/hostname"', '#import "\0"', '#import "f0.graphql.d.ts"',
                                     '#import "@/"', '#import "./"', '#import "/dev/null"']))
        spreads = [f"...F{k}" for k in to if rng.random() < 0.85]
        if rng.random() < 0.15:
            spreads.append(f"...F{i}")
        if rng.random() < 0.3 and spreads:
            spreads[0] = f"... on {root} {{ {spreads[0]} }}"
        files[p] = "\n".join(lines) + f"\nfragment F{i if rng.random() < 0.95 else 0} on {root} {{ __typename {' '.join(spreads)} }}\n"
    files["q.graphql"] = "".join(f'#import "{p}"\n' for p in rng.sample(paths, min(n, 3))) + "query Q { " + " ".join(f"...F{k}" for k in range(min(n, 4))) + " __typename }"
    return files, style


def nesting(rng, project):
    """Deep and wide documents"""
    root = project.sc.schema.query_type.name
    k = rng.choice([5, 20, 45, 49, 50, 51, 60, 200, 2000])
    style = rng.randrange(7)
    if style == 0:
        text = "query Q " + f"{{ ... on {root} " * k + "{ __typename }" + " }" * k
    elif style == 1:
        text = "query Q { " + "x { " * k + "id" + " }" * k + " }"
    elif style == 2:
        text = "query Q($v: " + "[" * k + "Int" + "]" * k + ") { __typename }"
    elif style == 3:
        text = "query Q { __typename(a: " + "[" * k + "1" + "]" * k + ") }"
    elif style == 4:
        text = "query Q { __typename(a: " + "{a: " * k + "1" + "}" * k + ") }"
    elif style == 5:
        text = "query Q { " + " ".join(f"a{i}: __typename" for i in range(k * 20)) + " }"
    else:
        text = "query Q { " + " ".join(f"... on {root} {{ a{i}: __typename }}" for i in range(k)) + " }"
    return {"deep.graphql": text}


def depths(rng):
    """Fragments that spread one another deeper than a document can be nested, and chains of input objects"""
    def ref(name, kind):
        return {"kind": kind, "name": name, "ofType": None}
    types = [{"kind": "OBJECT", "name": "Query", "fields": [{"name": "q", "args": [], "type": ref("Query", "OBJECT")}, {"name": "f", "args": [], "type": ref("Int", "SCALAR")},
                                                            {"name": "u", "args": [], "type": ref("U", "UNION")}], "interfaces": []},
             {"kind": "UNION", "name": "U", "possibleTypes": [{"name": "Query"}]}, {"kind": "SCALAR", "name": "Int"}]
    tree = {}
    n = rng.choice([90, 150, 300, 390, 410, 500, 1000, 2500])
    if rng.random() < 0.75:
        inner = rng.choice([1, 1, 1, 5, 20, 44])
        opening, closing = rng.choice([("", ""), ("q { ", " }"), ("... on Query { ", " }"), ("u { ... on Query { ", " } }"), ("f ... on Query { f q { f ", " } }")])
        inner = min(inner, 40 // max(1, opening.count("{")))
        n = min(n, 2500 // (1 + opening.count("{") * inner // 2))
        lazy = rng.random() < 0.8
        for i in range(n):
            last = i + 1 == n
            spread = "..." + f"F{rng.choice([i + 1, i + 1, 0]) if i + 2 == n else i + 1}" if not last else rng.choice(["f", "f", "f", "nope", "...Missing", "q"])
            tree[f"f{i}." + ("graphql" if not lazy or i in (0, n // 2) else "fragment")] = \
                (f'#import "f{i + 1}.{"graphql" if not lazy or i + 1 == n // 2 else "fragment"}"\n' if not last else "") + \
                f"fragment F{i} on Query {{ {opening * inner}{spread}{closing * inner} }}\n"
        if not lazy and n > 300:
            for p in list(tree)[5:n - 50]:
                tree[p + ".frag"] = tree.pop(p)
            tree = {p: re.sub(r'f(\d+)\.graphql"', lambda m: f'f{m.group(1)}.graphql.frag"' if 5 <= int(m.group(1)) < n - 50 else m.group(0), t) for p, t in tree.items()}
    else:
        n = rng.choice([100, 3000, 20000, 40000])
        names = [f"I{i}" for i in range(n)]
        for i, name in enumerate(names):
            next_one = names[(i + 1) % n] if rng.random() < 0.9999 or i else name
            types.append({"kind": "INPUT_OBJECT", "name": name, "inputFields": [{"name": "n", "type": ref(next_one, "INPUT_OBJECT") if i + 1 < n or rng.random() < 0.5 else ref("Int", "SCALAR")}]})
        tree["q.graphql"] = "query Q($v: I0) { f }"
    return tree, json.dumps({"data": {"__schema": {"queryType": {"name": "Query"}, "types": types}}}).encode()


CONFIG_KEYS = ["schemaFile", "useCustomScalars", "disableReadonlyTypes", "customScalarPrefix", "numThreads", "showDeprecationWarnings", "rootDirImportPrefix",
               "globalTypesModuleName", "typedGraphqlDocumentnodeModuleName", "unknownKey", ""]


def config(rng):
    r = rng.random()
    value = {k: rng.choice(ODD + ["schema.json", 3, 1, "a/b", "../x", "/abs", {"a": 1}, 2**32, 1.5]) for k in rng.sample(CONFIG_KEYS, rng.randint(0, 6))}
    # nothing may be written outside of the scratch directory
    value = {k: v for k, v in value.items() if not isinstance(v, str) or "/" not in v or (r >= 0.3 and v != "/abs")
             or (r >= 0.3 and k != "globalTypesModuleName")}
    text = json.dumps(value).encode()
    if r < 0.3:
        text = mangle(rng, text)
    if r < 0.4:
        return rng.choice([b"", b"null", b"[]", b"1", b"\xff", b"{", b"\xef\xbb\xbf{}", b'"x"', b"[" * 5000, b'{"a":' * 5000])
    # thousands of threads are out of scope
    return re.sub(rb'(numThreads"\s*:\s*)(\d{4,})', rb"\g<1>300", text)


def documents(root):
    """The regular .graphql files below the root"""
    return [os.path.relpath(os.path.join(at, f), root) for at, _, files in os.walk(root) for f in files
            if f.endswith(".graphql") and f != ".graphql" and os.path.isfile(os.path.join(at, f)) and not os.path.islink(os.path.join(at, f))]


def option_args(rng):
    args = []
    odd = ["", "x", "é", "a/b", "../up", ".", "..", "/", "@", "-", "--", "a b", "x" * 3000, "\n", "*/", "'", '"', "`", "\\", "\udcff"]
    for flag in rng.sample(["--use-custom-scalars", "--disable-readonly-types", "--show-deprecation-warnings", "--no-color", "--help", "--version", "--nope"], rng.randint(0, 3)):
        if flag not in ("--help", "--version", "--nope") or rng.random() < 0.2:
            args.append(flag)
    for flag in rng.sample(["--custom-scalar-prefix", "--root-dir-import-prefix", "--global-types-module-name", "--typed-graphql-documentnode-module-name",
                            "--num-threads"], rng.randint(0, 4)):
        value = rng.choice(odd) if flag != "--num-threads" else rng.choice(["0", "0", "1", "7", "300", "-1", "x", "1.5", "99999999999999999999999", ""])
        if "/" in value or value in (".", ".."):
            value = value if flag != "--global-types-module-name" else rng.choice(["x/y", "sub/../z", "x" * 300])
        args.append(f"{flag}={value}" if rng.random() < 0.7 or value.startswith("-") else flag)
        if not args[-1].startswith(flag + "="):
            args.append(value)
    return args


def case(ctx, rng, index, out):
    project = generate(rng, P)
    files = project.files()
    base_schema = project.sc.introspection
    for n in range(6):
        style = rng.choice(["bytes", "bytes", "schema_values", "schema_shapes", "graphs", "graphs", "config", "options", "nesting", "schema_bytes", "mistakes", "tree"])
        if index % 26 == 5 and n == 0:
            style = "depths"
        with ctx.scratch() as top:
            root = os.path.join(top, "root")
            os.makedirs(root)
            tree, schema = dict(files), json.dumps(base_schema).encode()
            args, where = [root] + prefix_args(project), top
            if style == "bytes":
                for p in rng.sample(list(tree), rng.randint(1, len(tree))):
                    tree[p] = mangle(rng, tree[p].encode())
            elif style == "schema_bytes":
                schema = mangle(rng, schema)
            elif style == "schema_values":
                schema = json.dumps(odd_values(rng, base_schema)).encode()
            elif style == "schema_shapes":
                schema = json.dumps(odd_shapes(rng, base_schema)).encode()
            elif style == "graphs":
                tree, kind = graph(rng, project)
                out.count(spread_cycles=int(kind in ("ring", "self", "complete")))
            elif style == "depths":
                tree, schema = depths(rng)
                args = [root]
            elif style == "nesting":
                tree = nesting(rng, project)
            elif style == "mistakes":
                for _ in range(4):
                    m = mutate(rng, project)
                    if m:
                        tree.update(m.files)
                        tree[m.doc.path] = m.text
            elif style == "config":
                name = rng.choice([".qlcrc.json", "conf/other.json"])
                write_file(os.path.join(top, name), config(rng))
                if name != ".qlcrc.json":
                    args += ["-c", name]
                if rng.random() < 0.5:
                    args += ["-s", os.path.join(root, "schema.json")]
            elif style == "options":
                args += option_args(rng)
            write_tree(root, {**tree, "schema.json": schema})
            if style == "tree":
                # things which are not what they seem
                for p in rng.sample(list(tree), rng.randint(1, len(tree))):
                    full = os.path.join(root, p)
                    os.remove(full)
                    kind = rng.choice(["dir", "loop", "dangling", "gone", "empty"])
                    if kind == "dir":
                        os.makedirs(full)
                    elif kind == "loop":
                        os.symlink(os.path.basename(p), full)
                    elif kind == "dangling":
                        os.symlink("nothing", full)
                    elif kind == "empty":
                        write_file(full, b"")
                r = rng.random()
                if r < 0.3:
                    # outputs which can not be written
                    for p in tree:
                        if rng.random() < 0.5:
                            os.makedirs(os.path.join(root, p + ".d.ts"), exist_ok=True)
                elif r < 0.5:
                    args[0] = rng.choice([os.path.join(root, "missing"), os.path.join(root, "schema.json"), root + "/../root/./", "/dev/null", root + "//"])
                    args += ["-s", os.path.join(root, "schema.json")]
                elif r < 0.6:
                    shutil.rmtree(os.path.join(root, "graphql-globals.ts"), ignore_errors=True)
                    os.makedirs(os.path.join(root, "graphql-globals.ts"))
            if rng.random() < 0.3 and style != "options":
                args += ["--num-threads", str(rng.choice([1, 2, 5, 64]))]
            argv = [a.encode("utf-8", "surrogateescape") for a in args]
            run = run_qlc(ctx, argv, cwd=where, mem=16 << 30)
            out.ran((index, n, style), runs=1, **{style: 1, f"exit_{run.code}" if run.code in (0, 1, 2) else "exit_other": 1})
            facts = dict(style=style, arguments=args[1:], files=tree, schema=schema.decode("utf-8", "replace") if style.startswith("schema") else project.sc.sdl,
                         run=run.brief())
            if style == "config":
                with open(os.path.join(top, name), "rb") as f:
                    facts["config"] = f.read()
            if run.hang:
                out.violation("hang", f"{style}: the run does not end", **facts)
                return
            if run.crashed:
                out.violation("crash", f"{style}: exit status {run.code}: {run.err[-300:]}", **facts)
                return
            if "panicked" in run.err or "overflow" in run.err:
                out.violation("panic", f"{style}: {run.err[-300:]}", **facts)
                return
            if run.code == 1 and not run.report.errors:
                out.violation("silent-failure", f"{style}: exit status 1 without an error", **facts)
                return
            if run.code == 0 and run.report.errors:
                out.violation("ignored-error", f"{style}: exit status 0 with errors", **facts)
                return
            if run.code == 0 and "--help" not in args and "--version" not in args:
                lost = [p for p in documents(args[0]) if not os.path.isfile(os.path.join(args[0], p + ".d.ts"))]
                if lost:
                    out.violation("nothing-done", f"{style}: exit status 0 without a module for {lost[:3]}", **facts)
                    return
                out.count(successes=1)
            if run.code == 2 and style not in ("options",):
                out.violation("usage", f"{style}: exit status 2: {run.err[:300]}", **facts)
                return
            if len(out.samples) < 2 and style in ("graphs", "schema_shapes"):
                out.sample(style=style, exit=run.code, first_error=[repr(e)[:200] for e in run.report.errors[:1]], files=sorted(tree)[:6])
