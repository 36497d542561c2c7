"""Every emitted module is well-formed TypeScript that type-checks."""
from graphql import GraphQLScalarType

from ..flow import Compiled, Options, generate
from ..gen import Profile
from ..model import PRIMITIVES
from ..tsnode import GRAPHQL_STUB, typed_documentnode
from ..work import output_of

LEVEL = "exploration"
TECHNIQUE = "type-checking monitor (strict TypeScript) over generated output"
NOTE = 'All modules of each run are parsed and type-checked by the real TypeScript compiler with hostile descriptions. Sampled inputs.'
BUDGET = {"quick": (450, 75), "thorough": (20000, 780)}
RULE = ("A case is a random schema, in most cases with descriptions put together from comment delimiters, quotes, line separators and "
        "code, and a tree of valid documents, compiled by the real qlc. An evaluation is one module that the TypeScript compiler "
        "parses, and type-checks in strict mode with all other modules of the run; its declarations must be exactly those that its "
        "default export reaches. Non-trivial: the module declares more than one type; distinct by text.")
ASSUMPTIONS = ["operation, fragment and type names are not reserved words of TypeScript",
               "custom scalars that are not compiled to `any` are global types, as documented"]
MUST_OBSERVE = ["modules", "namesakes", "hostile", "globals", "documented", "programs"]


class Hostile(Profile):
    descriptions = 0.75
    hostile_descriptions = True
    deprecated = 0.3
    sinks = 3


class Mixed(Profile):
    namesakes = 0.3
    sinks = 3
    similar = 0.5
    max_depth = 5


class Alternatives(Profile):
    """Types which are used in few places, many of them below alternatives"""
    sinks = 0
    dense = 0.9
    alternatives = 0.7
    max_list = 2
    twins = 0
    similar = 0.9
    max_depth = 3
    fragments = (0, 1)
    documents = (1, 2)
    global_leaves = 0.8


def reachable(dump, start):
    seen, todo = set(), [(n, False) for n in start]

    def refs(t):
        k = t["k"]
        if k == "ref":
            yield t["name"], t.get("imported", False)
            for a in t["args"]:
                yield from refs(a)
        elif k == "union":
            for i in t["items"]:
                yield from refs(i)
        elif k == "arr":
            yield from refs(t["item"])
        elif k == "obj":
            for p in t["props"]:
                yield from refs(p["type"])
    foreign = set()
    while todo:
        n, imported = todo.pop()
        if n in seen and not imported:
            continue
        if imported or n not in dump["types"]:
            foreign.add(n)
            continue
        seen.add(n)
        todo += list(refs(dump["types"][n]["type"]))
    return seen, foreign


def properties(t):
    if t["k"] == "obj":
        yield t
        for p in t["props"]:
            yield from properties(p["type"])
    for i in t.get("items", []):
        yield from properties(i)
    if t["k"] == "arr":
        yield from properties(t["item"])


def case(ctx, rng, index, out):
    profile = rng.choice([Hostile, Hostile, Hostile, Mixed, Alternatives, Alternatives])
    hostile = profile is Hostile
    project = generate(rng, profile)
    options = Options(rng, default=0.4)
    with ctx.scratch() as root:
        c = Compiled(ctx, project, root, options)
        if c.run.code != 0:
            out.count(not_compiled=1)
            if not c.outputs:
                return
        files = {"/root/" + p: t for p, t in c.outputs.items()}
        program = dict(files)
        program["/fixed/typed-documentnode.d.ts"] = typed_documentnode()
        program["/fixed/graphql.d.ts"] = GRAPHQL_STUB
        scalars = [n for n, t in project.sc.schema.type_map.items() if isinstance(t, GraphQLScalarType) and n not in PRIMITIVES]
        if options.use_scalars:
            program["/fixed/scalars.d.ts"] = "\n".join(f"declare type {(options.scalar_prefix or '') + n} = unknown;" for n in scalars) + "\n"
        paths = {"graphql": ["/fixed/graphql.d.ts"], "graphql-globals": ["/root/graphql-globals.ts"],
                 "@notarize/qlc-cli/typed-documentnode": ["/fixed/typed-documentnode.d.ts"]}
        diagnostics = ctx.node.check(program, paths)
        out.count(programs=1, hostile=int(hostile), globals=int(c.globals is not None))
        if diagnostics:
            d = diagnostics[0]
            out.violation("does-not-type-check", f"{d['file']}:{d['line']}: {d['message']}", diagnostics=diagnostics[:5],
                          generated=c.outputs, **c.details())
            return
        for path, text in c.outputs.items():
            dump = c.dump[path]
            out.ran(text if len(dump["types"]) > 1 else None, modules=1, documented=text.count("/**"))
            problems = []
            for key in ("diagnostics", "duplicates", "other"):
                if dump[key]:
                    problems.append(f"{key}: {dump[key][:3]}")
            for t in dump["types"].values():
                for o in properties(t["type"]):
                    names = [p["name"] for p in o["props"]]
                    if len(names) != len(set(names)):
                        problems.append(f"a property is declared twice: {names}")
                    if any(p["type"]["k"] == "other" for p in o["props"]):
                        problems.append(f"not a plain property: {names}")
            declared = set(dump["types"])
            if path.endswith(".graphql.d.ts"):
                out.count(namesakes=len(declared & set(project.sc.schema.type_map)))
                doc = [d for d in project.docs if output_of(d.path) == path][0]
                if dump["defaults"] != ["graphqlDocument"] or list(dump["consts"]) != ["graphqlDocument"] or dump["enums"]:
                    problems.append(f"default exports {dump['defaults']} of {list(dump['consts'])}")
                else:
                    annotation = dump["consts"]["graphqlDocument"]
                    args = annotation["args"] if annotation and annotation["k"] == "ref" else []
                    names = [a["name"] for a in args if a["k"] == "ref"]
                    if not names or any(n not in dump["exported"] for n in names):
                        problems.append(f"the annotation's types {names} are not exported by the module")
                    seen, foreign = reachable(dump, names)
                    if declared != seen:
                        problems.append(f"types that the default export does not reach: {sorted(declared - seen)}")
                    imported = {n for i in dump["imports"] for n in i["names"]}
                    if imported != (foreign - {(options.scalar_prefix or "") + s for s in scalars if options.use_scalars}) | {annotation["name"]}:
                        problems.append(f"imports {sorted(imported)} but uses {sorted(foreign)}")
                    if set(dump["exported"]) != declared:
                        problems.append("not all types are exported")
            elif dump["consts"] or dump["defaults"] or dump["imports"]:
                problems.append("the globals module has other declarations")
            if problems:
                out.violation("malformed-module", f"{path}: {problems[0]}", problems=problems, text=text, **c.details())
                return
        if hostile and c.globals:
            out.sample(module=next(iter(c.outputs.values()))[:800])
