"""A malformed schema or config is reported and nothing is written."""
import copy
import json
import os

from ..common import snapshot, write_file, write_tree
from ..flow import generate
from ..gen import Profile
from ..work import prefix_args, run_qlc

LEVEL = "exploration"
TECHNIQUE = "fault injection into input files with a file-system monitor"
NOTE = ("Every kind of structural damage is planted at sampled places of generated schemas and configs, and they are cut at sampled bytes; a "
        "monitor compares the whole file system below a scratch directory before and after.")
BUDGET = {"quick": (500, 60), "thorough": (12000, 780)}
RULE = ("A case is a random project which compiles with its schema and config (control run). Each evaluation damages one of the two files in "
        "one place (required member removed, null or of another JSON type; unknown kind; cut short at any byte; bytes added or replaced; not "
        "readable) and runs the compiler. Distinct by the damage and the schema. The thorough tier also tries each cut of small schemas.")
ASSUMPTIONS = ["an empty list of fields, values or possible types counts as present", "root operation types, descriptions, arguments, interfaces, "
               "directives and deprecation may be missing from a schema"]
MUST_OBSERVE = ["controls", "schema_structure", "schema_bytes", "schema_unreadable", "config_structure", "config_bytes", "config_unreadable",
                "stale_outputs", "default_config", "explicit_config"]

MISSING = object()


class P(Profile):
    documents = (1, 3)
    fragments = (0, 2)


def wrong_values(rng, value):
    """Values that can not stand for a required one"""
    if isinstance(value, str):
        return [MISSING, None, 5, True, ["x"], {"name": value}]
    if isinstance(value, list):
        return [MISSING, None, "x", 7, False, {"0": value[0] if value else 1}, value[:1] + [rng.choice([3, "x", None, {}])]]
    return [MISSING, None, "x", 7, True]


def type_refs(ref, path):
    while ref is not None:
        yield ref, path
        ref, path = ref.get("ofType"), path + ["ofType"]


def damages(rng, intro):
    """Pairs of a kind and a path with a bad value for it"""
    found = []

    def bad(kind, path, value):
        for w in wrong_values(rng, value):
            found.append((kind, path, w))

    bad("no-data", ["data"], intro["data"])
    bad("no-schema", ["data", "__schema"], intro["data"]["__schema"])
    types = intro["data"]["__schema"]["types"]
    base = ["data", "__schema", "types"]
    bad("no-types", base, types)
    for i, t in enumerate(types):
        at = base + [i]
        bad("type-kind", at + ["kind"], t["kind"])
        for k in ("OBJECTS", "object", "", "NON_NULL", "LIST", "Enum"):
            found.append(("unknown-kind", at + ["kind"], k))
        bad("type-name", at + ["name"], t["name"])
        for w in (None, 3, "x", True):
            found.append(("type-itself", at, w))
        need = {"OBJECT": ["fields"], "INTERFACE": ["fields", "possibleTypes"], "UNION": ["possibleTypes"], "ENUM": ["enumValues"],
                "INPUT_OBJECT": ["inputFields"]}.get(t["kind"], [])
        for k in need:
            bad(f"{t['kind'].lower()}-{k}", at + [k], t[k])
            for j, entry in enumerate(t[k]):
                bad(f"{k}-name", at + [k, j, "name"], entry["name"])
                if k not in ("fields", "inputFields"):
                    continue
                bad(f"{k}-type", at + [k, j, "type"], entry["type"])
                for ref, p in type_refs(entry["type"], at + [k, j, "type"]):
                    bad("ref-kind", p + ["kind"], ref["kind"])
                    found.append(("unknown-ref-kind", p + ["kind"], rng.choice(["THING", "", "object", "NONNULL", "list", "SCALARS"])))
                    if ref["kind"] in ("LIST", "NON_NULL"):
                        for w in (MISSING, None, "x", 4):
                            found.append((ref["kind"].lower() + "-of-nothing", p + ["ofType"], w))
                    else:
                        for w in (MISSING, None, 9):
                            found.append(("ref-name", p + ["name"], w))
    return found


def apply(intro, path, value):
    out = copy.deepcopy(intro)
    x = out
    for step in path[:-1]:
        x = x[step]
    if value is MISSING:
        del x[path[-1]]
    else:
        x[path[-1]] = value
    return out


MARK = "qvMARK"


def damaged_bytes(rng, text, marked=""):
    """Text that is no JSON"""
    raw = text.encode()
    kind = rng.choice(["cut", "cut", "cut", "empty", "garbage-after", "garbage-before", "second", "single-quotes", "comma", "not-utf8", "control", "comment"])
    if kind == "cut":
        return kind, raw[:rng.choice([1, len(raw) - 1, len(raw) // 2, rng.randrange(1, len(raw)), rng.randrange(1, len(raw))])]
    if kind == "empty":
        return kind, rng.choice([b"", b" ", b"\n\n"])
    if kind == "garbage-after":
        return kind, raw + rng.choice([b"}", b"]", b"x", b"\0", b"{}", b",", b"\xff"])
    if kind == "garbage-before":
        return kind, rng.choice([b"x", b"{", b"\0", b"#", b"}", b"export default "]) + raw
    if kind == "second":
        return kind, raw + b"\n" + raw
    if kind == "single-quotes":
        return kind, raw.replace(b'"', b"'")
    if kind == "comma":
        return kind, raw[:-1] + b",}"
    if kind in ("not-utf8", "control"):
        # in a string which is read
        if MARK.encode() not in marked.encode():
            return "empty", b""
        return kind, marked.encode().replace(MARK.encode(), rng.choice([b"\xff", b"\xc3(", b"\xed\xa0\x80"] if kind == "not-utf8" else [b"\n", b"\x01", b"\\x", b"\\u12"]))
    return kind, b"// schema\n" + raw


GOOD_CONFIG = {"useCustomScalars": False, "disableReadonlyTypes": True, "showDeprecationWarnings": False, "customScalarPrefix": "X", "numThreads": 2,
               "globalTypesModuleName": "globals", "typedGraphqlDocumentnodeModuleName": "nodes"}


def bad_config_value(rng, key):
    good = GOOD_CONFIG.get(key, "x")
    if key == "numThreads":
        return rng.choice([0, -1, "3", 1.5, True, [2], {}, 1e30])
    if isinstance(good, bool):
        return rng.choice(["true", "yes", 1, 0, [True], {}])
    return rng.choice([5, True, ["x"], {"x": 1}, 0.5, False])


def unreadable(rng, top, path):
    """Makes a path one that can not be read"""
    kind = rng.choice(["missing", "directory", "dangling", "loop", "below-file"])
    if os.path.lexists(path):
        os.remove(path)
    if kind == "directory":
        os.mkdir(path)
    elif kind == "dangling":
        os.symlink(os.path.join(top, "nowhere"), path)
    elif kind == "loop":
        os.symlink(os.path.basename(path), path)
    elif kind == "below-file":
        write_file(os.path.join(top, "afile"), "{}")
        return kind, os.path.join(top, "afile", "x.json")
    return kind, path


def case(ctx, rng, index, out):
    project = generate(rng, P)
    intro = project.sc.introspection
    every = damages(rng, intro)
    by_kind = {}
    for d in every:
        by_kind.setdefault(d[0], []).append(d)
    with ctx.scratch() as top:
        root, cwd = os.path.join(top, "root"), os.path.join(top, "cwd")
        os.makedirs(cwd)
        write_tree(root, project.files())
        schema_path = os.path.join(root, "schema.json")
        where = rng.choice(["default", "flag", "config"])
        if where != "default":
            schema_path = os.path.join(top, "s", "the schema.json")
        good_schema = json.dumps(intro, indent=rng.choice([None, 2]), ensure_ascii=rng.random() < 0.5)
        explicit = rng.random() < 0.5
        config_path = os.path.join(top, "conf", "c.json") if explicit else os.path.join(cwd, ".qlcrc.json")
        config = {k: v for k, v in GOOD_CONFIG.items() if rng.random() < 0.5}
        if where == "config":
            config["schemaFile"] = rng.choice([schema_path, os.path.relpath(schema_path, os.path.dirname(config_path))])
        good_config = json.dumps(config)

        def reset():
            for p in (schema_path, config_path):
                if os.path.islink(p) or os.path.isfile(p):
                    os.remove(p)
                elif os.path.isdir(p):
                    os.rmdir(p)
            write_file(schema_path, good_schema)
            write_file(config_path, good_config)
        args = [root] + prefix_args(project)

        def run(schema_at=None, config_at=None):
            a = list(args)
            if where == "flag" or schema_at is not None:
                a += ["-s", schema_at or schema_path]
            if explicit or config_at is not None:
                a += ["-c", config_at or config_path]
            return run_qlc(ctx, a, cwd=cwd)
        reset()
        stale = rng.random() < 0.5
        before = snapshot(top)
        control = run()
        out.ran(None, controls=1)
        written = set(snapshot(top)) - set(before)
        if control.code != 0 or not written:
            out.violation("control-fails", f"a well-formed schema and config give exit status {control.code} and {len(written)} files", run=control.brief(),
                          config=good_config, files=project.files(), sdl=project.sc.sdl)
            return
        if not stale:
            for p in written:
                os.remove(os.path.join(top, p))
        else:
            # what a run would overwrite
            for p in written:
                write_file(os.path.join(top, p), "stale")
        out.count(stale_outputs=int(stale))

        def judge(kind, detail, content, schema_at=None, config_at=None, signature=None):
            start = snapshot(top)
            r = run(schema_at, config_at)
            end = snapshot(top)
            out.ran((kind, detail, signature if signature is not None else index), **{kind: 1})
            facts = dict(kind=kind, detail=detail, content=content[-4000:], run=r.brief(), where=where, config=good_config, explicit=explicit,
                         files=project.files(), sdl=project.sc.sdl)
            if r.crashed:
                out.violation(f"{kind}-crash", f"{detail}: exit status {r.code}", **facts)
                return False
            changed = sorted(p for p in set(start) | set(end) if start.get(p) != end.get(p))
            if changed:
                out.violation(f"{kind}-writes", f"{detail}: the run wrote {changed}", **facts)
                return False
            if r.code != 1:
                out.violation(f"{kind}-accepted", f"{detail}: exit status {r.code}", **facts)
                return False
            if not r.report.errors:
                out.violation(f"{kind}-silent", f"{detail}: no error was printed", **facts)
                return False
            return True

        # Structure
        for _ in range(5):
            reset()
            kind = rng.choice(sorted(by_kind))
            _, path, value = rng.choice(by_kind[kind])
            content = json.dumps(apply(intro, path, value))
            write_file(schema_path, content)
            out.count(**{"damage_" + kind: 1})
            shown = "/".join(map(str, path)) + " " + ("removed" if value is MISSING else "= " + json.dumps(value)[:60])
            if not judge("schema_structure", shown, json.dumps(value) if value is not MISSING else "removed"):
                return
            out.sample(damage=shown)
        # Other values than objects
        reset()
        content = rng.choice(["null", "[]", "5", '"data"', "true", "{}", '{"data":null}', '{"errors":[{"message":"no"}]}', '{"__schema":{"types":[]}}',
                              '{"data":{"__schema":{}}}', '{"data":{"__schema":{"queryType":{"name":"Query"}}}}'])
        write_file(schema_path, content)
        if not judge("schema_structure", content, content, signature=0):
            return
        # Bytes
        for _ in range(3):
            reset()
            kind, content = damaged_bytes(rng, good_schema, json.dumps(apply(intro, rng.choice(by_kind["type-name"])[1], MARK)))
            write_file(schema_path, content)
            if not judge("schema_bytes", f"{kind} {len(content)}", repr(content[-200:])):
                return
        if ctx.thorough and index % 40 == 0:
            small = json.dumps({"data": {"__schema": intro["data"]["__schema"]}}, separators=(",", ":")).encode()
            for n in range(1, len(small), max(1, len(small) // 400)):
                reset()
                write_file(schema_path, small[:n])
                if not judge("schema_bytes", f"cut {n}", repr(small[max(0, n - 100):n])):
                    return
        # Not readable
        reset()
        kind, at = unreadable(rng, top, schema_path)
        if not judge("schema_unreadable", kind, "", schema_at=at if at != schema_path else None, signature=(where, stale)):
            return
        # The config
        reset()
        config_key = rng.choice(sorted(set(GOOD_CONFIG) | {"schemaFile", "rootDirImportPrefix"}))
        value = bad_config_value(rng, config_key)
        content = json.dumps({**config, config_key: value})
        write_file(config_path, content)
        out.count(**{"explicit_config" if explicit else "default_config": 1})
        if not judge("config_structure", f"{config_key} = {json.dumps(value)}", content, signature=explicit):
            return
        reset()
        content = rng.choice(["null", "5", '"x"', "true", "[5]"])
        write_file(config_path, content)
        if not judge("config_structure", content, content, signature=explicit):
            return
        for _ in range(2):
            reset()
            kind, content = damaged_bytes(rng, good_config if len(config) else '{"useCustomScalars": true}',
                                          json.dumps({**config, "globalTypesModuleName": MARK}))
            write_file(config_path, content)
            if not judge("config_bytes", f"{kind} {len(content)}", repr(content[-200:])):
                return
        reset()
        kind, at = unreadable(rng, top, config_path)
        if kind == "missing" and not explicit:
            return  # the default config may be missing
        if kind == "dangling" and not explicit:
            return
        if where == "config":
            # the schema is found all the same
            write_file(os.path.join(root, "schema.json"), good_schema)
        if not judge("config_unreadable", kind, "", config_at=at if at != config_path else None, signature=(where, explicit)):
            return
