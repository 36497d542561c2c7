"""The globals module defines exactly the enums and inputs that are used."""
import json
import os

from graphql import GraphQLEnumType

from ..common import write_file, write_tree
from ..flow import Compiled, Options, generate
from ..gen import Profile, SchemaCase
from ..model import Module, closure_of_globals, input_errors, used_globals
from ..work import output_of, outputs, run_qlc

LEVEL = "exploration"
TECHNIQUE = "reference-model monitor over the globals module and imports"
NOTE = 'The globals module is compared with a reference closure of used enums and inputs, imports with uses. Sampled inputs.'
BUDGET = {"quick": (500, 60), "thorough": (20000, 780)}
RULE = ("A case is a random schema with (recursive) input objects and enums and a tree of documents, some of them invalid, compiled by "
        "the real qlc; an evaluation compares the globals module, or its absence, with the closure of the enums and inputs that the "
        "compiled documents use (computed by a reference traversal), property by property, and every module's imports with what it "
        "uses. Non-trivial: some global is used; distinct by globals module.")
ASSUMPTIONS = ["an enum that only an impossible type of a narrowed field would have is not used"]
MUST_OBSERVE = ["globals", "enums", "inputs", "reached_only_through_inputs", "without_globals", "imported_globals", "recursive", "invalid_documents", "crowds"]


class P(Profile):
    sinks = 6
    variables = 0.8
    similar = 0.1
    input_graph = 1.0
    documents = (1, 3)
    fragments = (0, 3)
    descriptions = 0.1
    deep_lists = 0.15


class NoLeaves(P):
    """Enums and inputs are only reached through variables"""
    global_leaves = 0.05
    sinks = 3
    variables = 0.4
    documents = (0, 2)


def recursive(schema, names):
    from graphql import GraphQLInputObjectType, get_named_type
    for n in names:
        t = schema.type_map[n]
        if isinstance(t, GraphQLInputObjectType):
            below = closure_of_globals(schema, [get_named_type(f.type).name for f in t.fields.values() if get_named_type(f.type).name in names])
            if n in below:
                return True
    return False


def wrong_definitions(schema, names, g, scalars, out):
    errors = []
    for n in sorted(names):
        t = schema.type_map[n]
        if isinstance(t, GraphQLEnumType):
            out.count(enums=1)
            if n not in g["enums"]:
                errors.append(f"{n} is not an enum")
                continue
            members = g["enums"][n]["members"]
            if sorted(m["name"] for m in members) != sorted(t.values):
                errors.append(f"{n} has the members {[m['name'] for m in members]}, not {list(t.values)}")
            if any(m["name"] != m["value"] for m in members):
                errors.append(f"{n} has members with other values")
        else:
            out.count(inputs=1)
            d = g["types"].get(n)
            if d is None or d["type"]["k"] != "obj":
                errors.append(f"{n} is not an object type")
                continue
            props = {p["name"]: p for p in d["type"]["props"]}
            if sorted(p["name"] for p in d["type"]["props"]) != sorted(t.fields):
                errors.append(f"{n} has the properties {[p['name'] for p in d['type']['props']]}, not {list(t.fields)}")
                continue
            for fn, f in t.fields.items():
                errors += input_errors(Module({"types": {}}), props[fn], f.type, scalars, f"{n}.{fn}")
    return errors


def crowd(ctx, rng, out):
    """Very many globals, used by many documents, by a few documents each using many, or only through one another"""
    n_inputs, n_enums = rng.choice([20, 150, 300, 520, 1030]), rng.choice([20, 150, 300])
    width = rng.choice([1, 2, 2, 6, 130])
    if n_inputs * width > 6000:
        width = 2
    chain = rng.random() < 0.4
    inputs, enums = [f"I{i}" for i in range(n_inputs)], [f"E{i}" for i in range(n_enums)]
    wrap = ["%s", "%s!", "[%s]", "[%s!]!"]
    lines = ["enum %s { %s }" % (e, " ".join(f"V{k}" for k in range(rng.choice([1, 2, 3, 300]) if i < 4 else rng.randint(1, 3)))) for i, e in enumerate(enums)]
    for i, name in enumerate(inputs):
        fields = []
        for k in range(rng.randint(1, width)):
            t = rng.choice(["Int", "String", rng.choice(enums), rng.choice(enums), rng.choice(inputs), "[" + rng.choice(inputs) + "!]"])
            fields.append(f"f{k}: {t}")
        if chain and i + 1 < n_inputs:
            fields.append(f"next: {rng.choice(['%s', '[%s!]!', '[%s]']) % inputs[i + 1]}")
        lines.append("input %s { %s }" % (name, " ".join(fields)))
    used_inputs = inputs[:1] if chain and rng.random() < 0.5 else rng.sample(inputs, rng.randint(1, n_inputs))
    used_enums = rng.sample(enums, rng.randint(0, n_enums))
    direct = used_inputs + used_enums
    rng.shuffle(direct)
    args = {n: f"a{n}: {n}" for n in direct}
    lines.append("type Query { f(%s): Int %s }" % (" ".join(args.values()), " ".join(f"g{e}: {e}" for e in used_enums)))
    sc = SchemaCase("\n".join(lines))
    each = rng.choice([1, 1, 3, 40, 400])
    files, groups = {}, [direct[i:i + each] for i in range(0, len(direct), each)]
    for i, group in enumerate(groups):
        leaves = [n for n in group if n in used_enums and rng.random() < 0.5]
        rest = [n for n in group if n not in leaves]
        files[f"{rng.choice(['', 'a/', 'b/c/'])}q{i}.graphql"] = "query Q%d%s { %s%s }" % (
            i, "(" + ", ".join(f"$v{n}: {n}" for n in rest) + ")" if rest else "",
            "f(" + ", ".join(f"a{n}: $v{n}" for n in rest) + ")" if rest else "", " " + " ".join("g" + n for n in leaves))
    with ctx.scratch() as root:
        write_tree(root, {**files, "schema.json": json.dumps(sc.introspection)})
        run = run_qlc(ctx, [root, "--num-threads", str(rng.choice([1, 2, 8, 20]))])
        written = outputs(root)
        text = written.get("graphql-globals.ts")
        facts = dict(run=run.brief(), schema=sc.sdl, documents=dict(list(files.items())[:30]), used=direct)
        if run.code != 0 or text is None:
            out.violation("no-module", f"exit status {run.code}, and {'no' if text is None else 'a'} globals module for {len(direct)} uses", **facts)
            return
        expected = closure_of_globals(sc.schema, direct)
        out.ran(text, globals=1, crowds=1, reached_only_through_inputs=len(expected - set(direct)))
        looked_at = rng.sample(range(len(groups)), min(len(groups), 30))
        modules = {f"m{i}.ts": next(t for p, t in written.items() if os.path.basename(p) == f"q{i}.graphql.d.ts") for i in looked_at}
        dumps = ctx.node.dump({**modules, "g.ts": text})
        for i in looked_at:
            imported = [n for m in dumps[f"m{i}.ts"]["imports"] if m["module"] == "graphql-globals" for n in m["names"]]
            if sorted(imported) != sorted(groups[i]):
                out.violation("wrong-imports", f"q{i}.graphql uses {sorted(groups[i])[:20]} but imports {sorted(imported)[:20]}", module=modules[f"m{i}.ts"], **facts)
                return
        g = dumps["g.ts"]
        defined = set(g["types"]) | set(g["enums"])
        if g["duplicates"] or g["diagnostics"] or g["other"] or defined != expected:
            out.violation("wrong-globals", f"defines too much: {sorted(defined - expected)[:9]}, too little: {sorted(expected - defined)[:9]}, or is malformed: {g['diagnostics'][:2]}",
                          globals=text, **facts)
            return
        errors = wrong_definitions(sc.schema, expected, g, Options(rng).scalars, out)
        if errors:
            out.violation("wrong-globals", errors[0], globals=text, errors=errors[:8], **facts)


def case(ctx, rng, index, out):
    if index % 25 == 11:
        crowd(ctx, rng, out)
        return
    project = generate(rng, rng.choice([P, NoLeaves]))
    options = Options(rng)
    with ctx.scratch() as root:
        args = []
        module_name, file_name = "graphql-globals", "graphql-globals.ts"
        if rng.random() < 0.25:
            module_name = rng.choice(["my-globals", "deepGlobals", "g"])
            if project.prefix and rng.random() < 0.5:
                args = ["--global-types-module-name", project.prefix + module_name]
                file_name, module_name = module_name + ".ts", project.prefix + module_name
            else:
                args = ["--global-types-module-name", module_name]
                file_name = module_name + ".ts"
        if rng.random() < 0.3:
            schema = project.sc.schema
            enums = [n for n, t in schema.type_map.items() if isinstance(t, GraphQLEnumType) and not n.startswith("__")]
            e = rng.choice(enums)
            write_file(root + "/invalid one.graphql", f"query Broken($v: {e}, $w: [{e}!]!) {{ noSuchField }}")
            out.count(invalid_documents=1)
            invalid = True
        else:
            invalid = False
        c = Compiled(ctx, project, root, options, args=args)
        expected_code = 1 if invalid else 0
        if c.run.code != expected_code:
            out.count(not_compiled=1)
        compiled = [d for d in project.docs if c.text(d) is not None]
        if c.run.code == 0 and len(compiled) != len(project.docs):
            out.violation("no-module", "a run that succeeded did not write every module", **c.details())
            return
        used = set()
        for doc in compiled:
            module = c.module(doc)
            mine = used_globals(c.operation(doc))
            used |= mine
            imported = [n for i in module.dump["imports"] if i["module"] == module_name for n in i["names"]]
            out.count(imported_globals=len(imported))
            if sorted(imported) != sorted(mine):
                out.violation("wrong-imports", f"{doc.path}: uses {sorted(mine)} but imports {sorted(imported)}", **c.details(doc))
            other = [i["module"] for i in module.dump["imports"] if i["module"] not in (module_name, "@notarize/qlc-cli/typed-documentnode")]
            if other:
                out.violation("wrong-imports", f"{doc.path}: imports from {other}", **c.details(doc))
        expected = closure_of_globals(project.sc.schema, used)
        generated = {p for p in c.outputs if not p.endswith(".graphql.d.ts")}
        text = c.outputs.get(file_name)
        out.ran(text if used else None, globals=int(bool(used)), without_globals=int(not used), reached_only_through_inputs=len(expected - used),
                recursive=int(recursive(project.sc.schema, expected)))
        if generated != ({file_name} if used else set()):
            out.violation("globals-file", f"used {sorted(used)}, but the generated files are {sorted(generated)}", **c.details())
            return
        if not used:
            return
        g = c.dump[file_name]
        module = Module(g)
        defined = list(g["types"]) + list(g["enums"])
        if g["duplicates"] or g["diagnostics"] or g["other"] or set(g["exported"]) != set(defined):
            out.violation("globals-malformed", f"{[g[k] for k in ('duplicates', 'diagnostics', 'other')]}", globals=text, **c.details())
            return
        if set(defined) != expected:
            out.violation("wrong-globals", f"defines too much: {sorted(set(defined) - expected)}, too little: {sorted(expected - set(defined))}",
                          globals=text, **c.details())
            return
        errors = wrong_definitions(project.sc.schema, expected, g, options.scalars, out)
        if errors:
            out.violation("wrong-globals", errors[0], globals=text, errors=errors[:8], **c.details())
        out.sample(used=sorted(used), defined=sorted(expected))
