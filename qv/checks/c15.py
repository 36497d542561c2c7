"""Options mean the same from flags and config file, and flags win."""
import json
import os
import pty
import re
import select
import subprocess
import time

from ..common import BASE_ENV, write_file, write_tree
from ..flow import generate
from ..gen import Profile
from ..work import run_qlc

LEVEL = "exploration"
TECHNIQUE = "paired-run monitor over configurations, with effect oracles on parsed modules"
NOTE = ("Runs with options split between flags and config file are compared with runs that get the effective values as flags only, and the "
        "parsed modules with what each option is documented to change. Sampled combinations.")
BUDGET = {"quick": (300, 60), "thorough": (20000, 780)}
RULE = ("A case is a random project and random values for a random subset of all options. Evaluations are pairs of runs: options from flags, "
        "config file (default or explicit path, in any directory) or both with conflicting values, against the effective options as flags; "
        "and the same options with exactly one changed, whose modules may differ only as documented. Non-trivial: at least one option is "
        "set; distinct by options and their sources.")
ASSUMPTIONS = ["the custom scalar prefix is given as a flag only together with the flag for custom scalars, which it requires"]
MUST_OBSERVE = ["pairs", "from_config", "conflicts", "defaults", "default_config", "explicit_config", "readonly", "scalars", "prefix", "globals_name",
                "node_name", "threads", "warnings", "schema_in_config", "one_changed", "decoys", "default_root", "root_last", "terminals", "colored"]

FLAG = {"useCustomScalars": "--use-custom-scalars", "disableReadonlyTypes": "--disable-readonly-types",
        "showDeprecationWarnings": "--show-deprecation-warnings", "customScalarPrefix": "--custom-scalar-prefix", "numThreads": "--num-threads",
        "rootDirImportPrefix": "--root-dir-import-prefix", "globalTypesModuleName": "--global-types-module-name",
        "typedGraphqlDocumentnodeModuleName": "--typed-graphql-documentnode-module-name", "schemaFile": "--schema-path"}
BOOLS = ["useCustomScalars", "disableReadonlyTypes", "showDeprecationWarnings"]
DEFAULTS = {"useCustomScalars": False, "disableReadonlyTypes": False, "showDeprecationWarnings": False, "customScalarPrefix": None, "numThreads": None,
            "globalTypesModuleName": "graphql-globals", "typedGraphqlDocumentnodeModuleName": "@notarize/qlc-cli/typed-documentnode"}


class P(Profile):
    deprecated = 0.35
    fragments = (0, 3)
    documents = (1, 4)
    global_leaves = 0.5


def value_for(rng, key, prefix):
    if key in BOOLS:
        return True
    if key == "customScalarPrefix":
        return rng.choice(["Gql", "X_", "$", "Custom", "Scalars.", "Gql.Custom.", "é"])
    if key == "numThreads":
        return rng.choice([1, 2, 3, 5, 9])
    if key == "globalTypesModuleName":
        return rng.choice(["globals", "my-types", (prefix or "") + "shared", "sub", (prefix or "@@/") + "types" if prefix else "types"])
    if key == "typedGraphqlDocumentnodeModuleName":
        return rng.choice(["nodes", "@scope/nodes", "./nodes", "my-node"])
    raise AssertionError(key)


def flags(options):
    """Options as flags. Every value is its own argument or joined by an equals sign."""
    out = []
    for i, (k, v) in enumerate(options.items()):
        if k in BOOLS:
            if v:
                out.append(FLAG[k])
        elif i % 2 and not str(v).startswith("-"):
            out += [FLAG[k], str(v)]
        else:
            out.append(f"{FLAG[k]}={v}")
    return out


def generated(root):
    from ..work import outputs
    return outputs(root)


def observe(root, run):
    return {"files": generated(root), "messages": run.report.keys(), "summary": sorted(run.report.summaries), "exit": run.code, "stderr": run.err}


def walk(x, f):
    if isinstance(x, dict):
        f(x)
        for v in x.values():
            walk(v, f)
    elif isinstance(x, list):
        for v in x:
            walk(v, f)


def on_terminal(ctx, args, cwd):
    """What a run writes to a terminal"""
    ours, theirs = pty.openpty()
    try:
        p = subprocess.Popen([ctx.qlc] + args, cwd=cwd, env={**BASE_ENV, "TERM": "xterm-256color"}, stdin=subprocess.DEVNULL, stdout=theirs, stderr=theirs)
    finally:
        os.close(theirs)
    data, deadline = b"", time.time() + 60
    while time.time() < deadline:
        if select.select([ours], [], [], 1)[0]:
            try:
                more = os.read(ours, 65536)
            except OSError:  # nobody has it open any more
                more = b""
            if not more:
                break
            data += more
    else:
        p.kill()
    os.close(ours)
    return p.wait(), data.decode("utf-8", "replace").replace("\r\n", "\n")


def colors(ctx, rng, out, root, args, cwd, facts):
    """--no-color turns off what a terminal would show in colors, and nothing else"""
    for p in generated(root):
        os.remove(os.path.join(root, p))
    if rng.random() < 0.5:
        write_file(os.path.join(root, "wrong.graphql"), "query Wrong {\n  noSuchFieldAnywhere\n}\n")
    with_colors, without = on_terminal(ctx, args, cwd), on_terminal(ctx, args[:1] + ["--no-color"] + args[1:], cwd)
    r = run_qlc(ctx, args, cwd=cwd)
    if os.path.exists(os.path.join(root, "wrong.graphql")):
        os.remove(os.path.join(root, "wrong.graphql"))
    shown = bool(r.report.messages)
    out.count(terminals=1, colored=int(shown))
    facts = {**facts, "terminal": with_colors, "without_colors": without}
    if "\x1b" in without[1] or "\x1b" in r.out:
        out.violation("colors", "there are colors with --no-color", **facts)
    elif shown and "\x1b" not in with_colors[1]:
        out.violation("colors", "a terminal does not show diagnostics in colors without --no-color", **facts)
    elif with_colors[0] != without[0] or without[0] != r.code:
        out.violation("colors", f"exit status {with_colors[0]} with colors, {without[0]} without, {r.code} if it is no terminal", **facts)
    else:
        plain = sorted(re.sub(r"\x1b\[[0-9;]*m", "", with_colors[1]).split("\n"))
        if plain != sorted(without[1].split("\n")) or plain != sorted(r.out.split("\n")):
            out.violation("colors", "a terminal shows more than other colors", **facts)
        else:
            return True
    return False


def erased(dump, key, values, scalars):
    """A dumped module without what an option is documented to change"""
    def go(x):
        if isinstance(x, list):
            return [go(v) for v in x]
        if not isinstance(x, dict):
            return x
        if key == "disableReadonlyTypes" and "optional" in x and "readonly" in x:
            x = {**x, "readonly": None}
        if key in ("useCustomScalars", "customScalarPrefix"):
            if x.get("k") == "kw" and x.get("name") == "any":
                return {"k": "scalar"}
            if x.get("k") == "ref" and any(x["name"] == (v or "") + s for v in values for s in scalars):
                return {"k": "scalar"}
        return {k: go(v) for k, v in x.items()}
    out = go(dump)
    if key in ("globalTypesModuleName", "typedGraphqlDocumentnodeModuleName"):
        for i in out["imports"]:
            if i["module"] in values:
                i["module"] = "<it>"
    return out


def case(ctx, rng, index, out):
    project = generate(rng, P)
    introspection = json.dumps(project.sc.introspection)
    scalars = [n for n, t in project.sc.schema.type_map.items() if type(t).__name__ == "GraphQLScalarType" and n not in ("Int", "Float", "String", "Boolean", "ID")]
    with ctx.scratch() as top:
        root = os.path.join(top, "root")
        write_tree(root, project.files())
        # a schema that is not to be used is a different one
        wrong = json.dumps({"data": {"__schema": {"queryType": {"name": "Query"}, "types": []}}})

        def clean():
            for p in generated(root):
                os.remove(os.path.join(root, p))

        def run(args, cwd):
            clean()
            log = os.path.join(top, "log")
            if os.path.exists(log):
                os.remove(log)
            r = run_qlc(ctx, args, cwd=cwd, env={"QLC_VERIF_LOG": log})
            seen = observe(root, r)
            workers = set()
            if os.path.exists(log):
                with open(log, encoding="utf-8", errors="replace") as f:
                    workers = {l.split("\t")[0] for l in f if "\tquit" in l}
            return r, seen, len(workers)

        for n in range(3):
            effective, in_config, in_flags = {}, {}, {}
            keys = [k for k in FLAG if k not in ("schemaFile", "rootDirImportPrefix")]
            for k in rng.sample(keys, rng.randint(0, len(keys))):
                v = value_for(rng, k, project.prefix)
                effective[k] = v
                source = rng.choice(["config", "config", "flag", "both", "both"])
                if source == "config":
                    in_config[k] = v
                elif source == "flag":
                    in_flags[k] = v
                else:
                    in_flags[k] = v
                    in_config[k] = rng.choice([True, False]) if k in BOOLS else value_for(rng, k, project.prefix)
                    out.count(conflicts=1)
            for k in BOOLS:
                if k not in effective and rng.random() < 0.2:
                    in_config[k] = False
            if project.prefix:
                effective["rootDirImportPrefix"] = project.prefix
                source = rng.choice(["config", "flag", "both"])
                if source != "flag":
                    in_config["rootDirImportPrefix"] = project.prefix if source == "config" else "wrong!"
                if source != "config":
                    in_flags["rootDirImportPrefix"] = project.prefix
            if "customScalarPrefix" in in_flags and "useCustomScalars" not in in_flags:
                if rng.random() < 0.5:
                    in_flags["useCustomScalars"] = effective["useCustomScalars"] = True
                else:
                    in_config["customScalarPrefix"] = in_flags.pop("customScalarPrefix")
            # where the schema is
            cwd = os.path.join(top, rng.choice(["cwd", "root", "."]))
            os.makedirs(cwd, exist_ok=True)
            explicit = rng.random() < 0.5
            config_path = os.path.join(cwd, ".qlcrc.json") if not explicit else os.path.join(top, rng.choice(["conf", "cwd", "root", "."]), "my.json")
            decoys = []
            schema_style = rng.choice(["default", "flag", "config", "both", "config-absolute"])
            schema_args, schema_path = [], os.path.join(root, "schema.json")
            if schema_style == "flag":
                schema_path = os.path.join(top, "s", "flag.json")
                schema_args = ["-s", os.path.relpath(schema_path, cwd)]
            elif schema_style in ("config", "config-absolute", "both"):
                schema_path = os.path.join(rng.choice([os.path.join(top, "s"), os.path.dirname(config_path), os.path.join(os.path.dirname(config_path), "s")]),
                                           "config.json")
                relative = os.path.relpath(schema_path, os.path.dirname(config_path))
                in_config["schemaFile"] = relative if schema_style != "config-absolute" else schema_path
                out.count(schema_in_config=1)
                for base in (cwd, root, top):
                    elsewhere = os.path.normpath(os.path.join(base, relative))
                    if schema_style == "config" and elsewhere != schema_path and elsewhere.startswith(top + "/"):
                        write_file(elsewhere, wrong)
                        decoys.append(elsewhere)
                        out.count(decoys=1)
                if schema_style == "both":
                    in_config["schemaFile"] = "not-this.json"
                    schema_args = ["--schema-path", schema_path]
            for p in (os.path.join(root, "schema.json"), os.path.join(top, "schema.json"), os.path.join(cwd, "schema.json"), os.path.join(cwd, "not-this.json")):
                write_file(p, wrong)
            write_file(schema_path, introspection)
            use_config = bool(in_config) or rng.random() < 0.3
            args = [os.path.relpath(root, cwd)] + flags(in_flags) + schema_args
            if use_config:
                write_file(config_path, json.dumps(in_config))
                if explicit:
                    args += [rng.choice(["-c", "--config-file"]), rng.choice([config_path, os.path.relpath(config_path, cwd)])]
                    # this one is not to be read
                    if os.path.join(cwd, ".qlcrc.json") != config_path and rng.random() < 0.5:
                        write_file(os.path.join(cwd, ".qlcrc.json"), json.dumps({"globalTypesModuleName": "unused", "useCustomScalars": True, "schemaFile": "nope"}))
            if cwd == root and rng.random() < 0.6:
                args = args[1:]
                out.count(default_root=1)
            elif rng.random() < 0.4:
                args = args[1:] + args[:1]
                out.count(root_last=1)
            r1, mixed, workers = run(args, cwd)
            for p in (config_path, os.path.join(cwd, ".qlcrc.json")):
                if os.path.exists(p):
                    os.remove(p)
            reference = [os.path.relpath(root, cwd)] + flags({k: v for k, v in effective.items() if k != "customScalarPrefix" or effective.get("useCustomScalars")}) \
                + ["-s", schema_path]
            r2, plain, workers2 = run(reference, cwd)
            out.ran((sorted(in_config), sorted(in_flags), schema_style, explicit, index) if effective else None, pairs=1, from_config=len(in_config),
                    defaults=len(set(FLAG) - set(effective)), default_config=int(use_config and not explicit), explicit_config=int(use_config and explicit))
            facts = dict(flags=args, config=in_config if use_config else None, config_path=os.path.relpath(config_path, top), reference=reference,
                         cwd=os.path.relpath(cwd, top), run=r1.brief(), reference_run=r2.brief(), files=project.files(), schema=project.sc.sdl)
            if r1.crashed or r2.crashed:
                out.violation("crash", f"exit status {r1.code} and {r2.code}", **facts)
                return
            if mixed != plain:
                different = [k for k in mixed if mixed[k] != plain[k]]
                names = [p for p in set(mixed["files"]) | set(plain["files"]) if mixed["files"].get(p) != plain["files"].get(p)]
                out.violation("sources-differ", f"flags {args[1:]} with config {in_config if use_config else None} give other {different} ({names[:3]}) than {reference[1:]}",
                              differences={p: [mixed["files"].get(p), plain["files"].get(p)] for p in names[:2]}, **facts)
                return
            if effective.get("numThreads") and workers and workers != effective["numThreads"]:
                out.violation("wrong-threads", f"{workers} workers instead of {effective['numThreads']}", **facts)
                return
            if effective.get("numThreads"):
                out.count(threads=1)
            if plain["exit"] != 0:
                out.count(not_compiled=1)
                return
            why = effects(ctx, out, project, effective, plain, scalars)
            if why:
                out.violation(*why, **facts)
                return
            if n == 0 and rng.random() < 0.4 and not colors(ctx, rng, out, root, reference, cwd, facts):
                return
            if not one_changed(ctx, rng, out, project, effective, plain, scalars, run, cwd, root, schema_path, facts):
                return
            out.sample(flags=args[1:], config=in_config if use_config else None, effective=effective)


def effects(ctx, out, project, effective, seen, scalars):
    """Whether the modules show what the options and defaults say"""
    o = {**DEFAULTS, **effective}
    dumps = ctx.node.dump(seen["files"])
    names = o["globalTypesModuleName"]
    stripped = names[len(project.prefix):] if project.prefix and names.startswith(project.prefix) else names
    globals_path = os.path.normpath(stripped + ".ts")
    modules = {p: d for p, d in dumps.items() if p.endswith(".graphql.d.ts")}
    others = [p for p in dumps if p not in modules and p != globals_path]
    if others:
        return "wrong-globals-file", f"wrote {others} instead of {globals_path}"
    imported = {i["module"] for d in modules.values() for i in d["imports"]}
    wrong = imported - {names, o["typedGraphqlDocumentnodeModuleName"]}
    if wrong:
        return "wrong-import", f"modules import from {sorted(wrong)}"
    if o["typedGraphqlDocumentnodeModuleName"] not in imported:
        return "wrong-import", f"modules import from {sorted(imported)}"
    if (globals_path in dumps) != (names in imported):
        return "wrong-import", f"{globals_path} and imports of {names} do not agree"
    flags, bad, declared = set(), [], {}

    def look(x):
        if "optional" in x and "readonly" in x:
            flags.add(x["readonly"])
        if x.get("k") == "ref" and x["name"] not in declared:
            for s in scalars:
                if x["name"] == s and not (o["useCustomScalars"] and o["customScalarPrefix"] is None):
                    bad.append(x["name"])
                if o["useCustomScalars"] and x["name"].endswith(s) and x["name"] not in [(o["customScalarPrefix"] or "") + other for other in scalars] and x["name"] not in project.sc.schema.type_map:
                    bad.append(x["name"])
        if x.get("k") == "kw" and x.get("name") == "any" and o["useCustomScalars"]:
            bad.append("any")
    for p, d in modules.items():
        declared = d["types"]
        for name, t in d["types"].items():
            if not name.endswith("Variables"):
                walk(t, look)
    if o["disableReadonlyTypes"] in flags:
        return "wrong-readonly", f"there are properties {'with' if o['disableReadonlyTypes'] else 'without'} readonly"
    if globals_path in dumps:
        walk(dumps[globals_path], lambda x: None)
    if bad:
        return "wrong-scalars", f"there are {sorted(set(bad))}"
    deprecation = [m for m in seen["messages"] if "deprecated" in m]
    if deprecation and not o["showDeprecationWarnings"]:
        return "wrong-warnings", "there are deprecation warnings"
    out.count(readonly=len(flags), warnings=len(deprecation), scalars=int(o["useCustomScalars"]), prefix=int(bool(o["customScalarPrefix"])),
              globals_name=int("globalTypesModuleName" in effective), node_name=int("typedGraphqlDocumentnodeModuleName" in effective))
    return None


def one_changed(ctx, rng, out, project, effective, plain, scalars, run, cwd, root, schema_path, facts):
    key = rng.choice(["useCustomScalars", "disableReadonlyTypes", "showDeprecationWarnings", "numThreads", "globalTypesModuleName",
                      "typedGraphqlDocumentnodeModuleName", "customScalarPrefix"])
    changed = dict(effective)
    if key in BOOLS:
        if changed.pop(key, None) is None:
            changed[key] = True
    else:
        changed[key] = value_for(rng, key, project.prefix)
    if not changed.get("useCustomScalars"):
        changed.pop("customScalarPrefix", None)
    if key in ("useCustomScalars", "customScalarPrefix") and len(scalars) != 1:
        return True  # possible types which differ only in their scalars are merged without their names
    r, seen, _ = run([os.path.relpath(root, cwd)] + flags(changed) + ["-s", schema_path], cwd)
    out.ran((key, repr(changed)), one_changed=1)
    out.count(**{"changed_" + key: 1})
    a, b = ctx.node.dump(plain["files"]), ctx.node.dump(seen["files"])
    if seen["exit"] != plain["exit"]:
        out.violation("changes-more", f"changing {key} gives exit status {seen['exit']}", changed=changed, changed_run=r.brief(), **facts)
        return False
    before, after = {**DEFAULTS, **effective}.get(key), {**DEFAULTS, **changed}.get(key)
    values = [before, after] if key not in ("useCustomScalars", "customScalarPrefix") else \
        [None, effective.get("customScalarPrefix"), changed.get("customScalarPrefix")]

    def view(dumps):
        return {("<globals>" if not p.endswith(".graphql.d.ts") and key == "globalTypesModuleName" else p): erased(d, key, values, scalars) for p, d in dumps.items()}
    if view(a) != view(b):
        names = [p for p in set(view(a)) | set(view(b)) if view(a).get(p) != view(b).get(p)]
        out.violation("changes-more", f"changing {key} from {before!r} to {after!r} changes {names[:3]} in other ways", changed=changed,
                      before={p: plain["files"].get(p) for p in names[:1]}, after={p: seen["files"].get(p) for p in names[:1]}, **facts)
        return False
    def without(messages):
        return [m for m in messages if key != "showDeprecationWarnings" or "use of deprecated" not in m]
    if without(plain["messages"]) != without(seen["messages"]):
        out.violation("changes-more", f"changing {key} changes the diagnostics", changed=changed, changed_run=r.brief(), **facts)
        return False
    return True
