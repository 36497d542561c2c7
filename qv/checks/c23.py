"""Each module exports the document's types under their documented names."""
import os

from graphql import get_named_type, is_composite_type

from ..flow import Compiled, Options, generate
from ..gen import Profile
from ..model import field_definition, is_typename

LEVEL = "exploration"
TECHNIQUE = "reference-model monitor over exports and imports"
NOTE = ("The exports, imports and annotation of every emitted module, as TypeScript parses them, are compared with the document's kind, name, variables "
        "and paths of response names. Sampled inputs.")
BUDGET = {"quick": (450, 60), "thorough": (20000, 780)}
RULE = ("A case is a random schema and tree of valid documents of all kinds, some unnamed, compiled by the real qlc with random module names. An evaluation "
        "is one module: its default export has to be the document node of the kind over the exported types, its imports those of the configured modules, "
        "and its exports exactly the types for the paths of nested selections. Distinct by module.")
ASSUMPTIONS = ["documents have no conflicting names"]
MUST_OBSERVE = ["queries", "mutations", "subscriptions", "fragments", "unnamed", "with_variables", "nested", "kept_apart", "alternatives", "others", "node_modules", "globals_modules", "aliases"]

KINDS = {"query": "Query", "mutation": "Mutation", "subscription": "Subscription", "fragment": "Fragment"}
COUNTS = {"query": "queries", "mutation": "mutations", "subscription": "subscriptions", "fragment": "fragments"}


class P(Profile):
    subscription = 0.8
    documents = (2, 6)
    similar = 0.4


class Unnamed(P):
    fragments = (0, 1)
    sinks = 2


def named(t):
    """The type below lists and null"""
    while True:
        if t["k"] == "arr":
            t = t["item"]
        elif t["k"] == "union":
            items = [i for i in t["items"] if not (i["k"] == "kw" and i["name"] in ("null", "undefined"))]
            if len(items) != 1:
                return t
            t = items[0]
        else:
            return t


class Walk:
    def __init__(self, op, module):
        self.op, self.module = op, module
        self.names, self.errors, self.at = set(), [], {}
        self.facts = {"nested": 0, "kept_apart": 0, "alternatives": 0, "others": 0, "nevers": 0}

    def define(self, name, path):
        """No two selections may share a type, even where the names on their paths are joined to the same"""
        self.names.add(name)
        if self.at.setdefault(name, path) != path:
            self.errors.append(f"{name} is the type of {path} and of {self.at[name]}")

    def finish(self):
        for name in self.names:
            if name.endswith("$"):
                self.facts["kept_apart"] += 1
                if name[:-1] not in self.names:
                    self.errors.append(f"there is a type {name} but no {name[:-1]}")

    def collection(self, name, sets, path=()):
        self.define(name, path)
        if name not in self.module.types:
            self.errors.append(f"no type {name}")
            return
        concretes = [c for c in self.op.possible(sets[0][0]) if all(self.op.includes(p.name, c) for p, _ in sets)]
        t = self.module.types[name]["type"]
        if not concretes:
            # nothing can ever be there
            self.facts["nevers"] += 1
            if t.get("name") != "never":
                self.errors.append(f"{name} is {t.get('name') or t['k']}, not never, although no type is possible")
            return
        if t["k"] == "obj":
            for c in concretes:
                self.object(name, t, c, sets, path)
            return
        items = t["items"] if t["k"] == "union" else [t]
        refs = [i.get("name") for i in items]
        self.facts["alternatives"] += len(refs)
        own = {str(r).rstrip("$"): r for r in refs}
        mine = [c for c in concretes if f"{name}_{c.name}" in own]
        others = [c for c in concretes if c not in mine]
        expected = {f"{name}_{c.name}" for c in mine} | ({name + "_$$other"} if others else set())
        if set(own) != expected or len(refs) != len(expected):
            self.errors.append(f"the alternatives of {name} are {refs}, not {sorted(expected)}")
            return
        for c in mine + others:
            alternative = own[name + ("_" + c.name if c in mine else "_$$other")]
            self.facts["others"] += int(c in others)
            branch = path + ("... on " + c.name if c in mine else "...",)
            self.define(alternative, branch)
            d = self.module.types.get(alternative)
            if d is None or d["type"]["k"] != "obj":
                self.errors.append(f"{alternative} is no object type")
                continue
            self.object(alternative, d["type"], c, sets, branch)

    def object(self, name, t, concrete, sets, path):
        fields = self.op.collect(concrete, sets)
        props = {p["name"]: p for p in t["props"]}
        if set(props) != set(fields):
            self.errors.append(f"{name} has the properties {sorted(props)}, not {sorted(fields)}")
            return
        for response_name, selected in fields.items():
            if is_typename(selected[0][1]):
                continue
            below = get_named_type(field_definition(selected[0][0], selected[0][1].name.value).type)
            if not is_composite_type(below):
                continue
            self.facts["nested"] += 1
            at = f"{name}_{response_name}"
            r = named(props[response_name]["type"])
            if r["k"] != "ref" or r["name"].rstrip("$") != at:
                self.errors.append(f"{name}.{response_name} is {r.get('name') or r['k']}, not {at}")
                continue
            self.collection(r["name"], [(get_named_type(field_definition(p, n.name.value).type), n.selection_set) for p, n in selected], path + (response_name,))


def case(ctx, rng, index, out):
    project = generate(rng, rng.choice([P, Unnamed]))
    options = Options(rng)
    nodes, globs = "@notarize/qlc-cli/typed-documentnode", "graphql-globals"
    args = []
    if rng.random() < 0.5:
        nodes = rng.choice(["my-nodes", "@org/pkg/deep/nodes", "../nodes", "./x", "@/nodes", "nodes.js", "Ünï"])
        args += ["--typed-graphql-documentnode-module-name", nodes]
        out.count(node_modules=1)
    if rng.random() < 0.4:
        globs = rng.choice(["all-types", "types/globals", "globals", "_g"])
        if project.prefix and rng.random() < 0.6:
            globs = project.prefix + globs
        args += ["--global-types-module-name", globs]
        out.count(globals_modules=1)
    with ctx.scratch() as root:
        os.makedirs(os.path.join(root, "types"))
        c = Compiled(ctx, project, root, options, args=args)
        if c.run.code != 0:
            out.count(not_compiled=1)
        for doc in project.docs:
            module = c.module(doc)
            if module is None:
                if c.run.code == 0:
                    out.violation("no-module", f"{doc.path}: a run that succeeded wrote no module", **c.details(doc))
                continue
            op = c.operation(doc)
            name = doc.data_name
            has_variables = not doc.is_fragment and bool(op.definition.variable_definitions)
            kind = KINDS[doc.kind] + "DocumentNode"
            dump = module.dump
            errors = []
            if len(dump["defaults"]) != 1 or dump["defaults"][0] not in dump["consts"]:
                errors.append(f"the default exports are {dump['defaults']}")
            else:
                annotation = dump["consts"][dump["defaults"][0]] or {"k": "none"}
                arguments = [(a["k"], a.get("name")) for a in annotation.get("args", [])]
                wanted = [("ref", name)]
                if not doc.is_fragment:
                    wanted.append(("ref", name + "Variables") if has_variables else ("kw", "never"))
                if annotation.get("name") != kind or arguments != wanted:
                    errors.append(f"the default export is {annotation.get('name')}<{arguments}>, not {kind}<{wanted}>")
            from_nodes = [n for i in dump["imports"] if i["module"] == nodes for n in i["names"]]
            if from_nodes != [kind]:
                errors.append(f"{from_nodes} are imported from {nodes}, not {kind}: {dump['imports']}")
            stray = [i["module"] for i in dump["imports"] if i["module"] not in (nodes, globs)]
            if stray:
                errors.append(f"{stray} is imported")
            if has_variables and name + "Variables" not in dump["exported"]:
                errors.append(f"{name}Variables is not exported but {dump['exported']}")
            walk = Walk(op, module)
            walk.collection(name, [(op.root, op.definition.selection_set)])
            walk.finish()
            errors += walk.errors
            expected = walk.names | ({name + "Variables"} if has_variables else set())
            if not walk.errors:
                if set(dump["exported"]) != expected:
                    errors.append(f"exports {sorted(set(dump['exported']) - expected)} too many and {sorted(expected - set(dump['exported']))} too few")
                elif set(dump["types"]) != expected:
                    errors.append(f"declares {sorted(set(dump['types']) - expected)} besides")
            out.ran(c.text(doc), **{COUNTS[doc.kind]: 1}, unnamed=int(doc.name is None), with_variables=int(has_variables), aliases=int("Alias" in doc.text or "Two:" in doc.text),
                    **walk.facts)
            if errors:
                out.violation("wrong-exports", f"{doc.path}: {errors[0]}", errors=errors[:5], **c.details(doc))
            else:
                out.sample(file=doc.path, kind=doc.kind, exports=sorted(dump["exported"])[:12], imports=dump["imports"])
