"""Variable types agree with what the server accepts."""
from graphql import GraphQLEnumType, GraphQLInputObjectType, GraphQLList, GraphQLNonNull, GraphQLScalarType, type_from_ast

from graphql.utilities import validate_input_value

from ..flow import Compiled, Options, generate
from ..gen import Profile
from ..model import Module, input_errors, rejects

LEVEL = "exploration"
TECHNIQUE = "reference-model and value-coercion monitor over emitted variables types"
NOTE = "Emitted variables types are compared with declarations and with what graphql-core's input coercion accepts. Sampled inputs; nested list variables are out of scope, as documented."
BUDGET = {"quick": (500, 60), "thorough": (20000, 780)}
RULE = ("A case is a random schema with query fields that take an argument of every kind of input type, and operations which declare "
        "variables for them (with defaults, in any order), compiled by the real qlc. An evaluation compares one document's variables "
        "type, as TypeScript parses it, with the declarations, and tries values: graphql-core's coercion must accept what the type "
        "admits. Non-trivial: at least one variable; distinct by declarations and emitted type.")
ASSUMPTIONS = ["variables of nested list types are outside of the property: the compiler documents them as unsupported"]
MUST_OBSERVE = ["variables", "lists", "nullable", "defaults", "without_variables", "fragments", "inputs", "enums", "customs"]


class P(Profile):
    sinks = 9
    variables = 1.0
    mutation = 0.9
    similar = 0
    max_depth = 2
    fragments = (0, 2)
    documents = (2, 5)
    descriptions = 0.1


class Few(P):
    sinks = 2
    variables = 0.3


def declared(op):
    return [(d.variable.name.value, type_from_ast(op.schema, d.type), d.default_value) for d in op.definition.variable_definitions]


def values(rng, t):
    """A value of an input type."""
    if isinstance(t, GraphQLNonNull):
        return values_nonnull(rng, t.of_type)
    return None if rng.random() < 0.35 else values_nonnull(rng, t)


def values_nonnull(rng, t, depth=0):
    if isinstance(t, GraphQLList):
        return [values(rng, t.of_type) for _ in range(rng.randint(0, 3))]
    if isinstance(t, GraphQLEnumType):
        return rng.choice(list(t.values))
    if isinstance(t, GraphQLScalarType):
        return {"Int": 4, "Float": 1.5, "Boolean": True, "String": "s", "ID": "i"}.get(t.name, "custom")
    return ("input", t.name)


def case(ctx, rng, index, out):
    project = generate(rng, rng.choice([P, P, Few]))
    options = Options(rng)
    with ctx.scratch() as root:
        c = Compiled(ctx, project, root, options)
        if c.run.code != 0:
            out.count(not_compiled=1)
        enums = {n: [m["value"] for m in e["members"]] for n, e in (c.globals["enums"] if c.globals else {}).items()}
        for doc in project.docs:
            module = c.module(doc)
            if module is None:
                if c.run.code == 0:
                    out.violation("no-module", f"{doc.path}: a run that succeeded wrote no module", **c.details(doc))
                continue
            op = c.operation(doc)
            name = doc.data_name + "Variables"
            default = module.dump["consts"].get("graphqlDocument") or {"args": []}
            annotated = default.get("args", [])[1:]
            if doc.is_fragment or not op.definition.variable_definitions:
                out.ran((doc.text, "none"), without_variables=1, fragments=int(doc.is_fragment))
                stray = [t for t in module.types if t == name]
                if stray:
                    out.violation("stray-variables", f"{doc.path}: has no variables but {stray}", **c.details(doc))
                if annotated and not (annotated[0]["k"] == "kw" and annotated[0]["name"] == "never"):
                    out.violation("stray-variables", f"{doc.path}: has no variables but is annotated {annotated}", **c.details(doc))
                continue
            variables = declared(op)
            out.ran((doc.text, c.text(doc)), variables=len(variables), lists=sum("[" in str(t) for _, t, _d in variables),
                    nullable=sum(not str(t).endswith("!") for _, t, _d in variables),
                    defaults=sum(d is not None for _, _t, d in variables))
            t = module.types.get(name)
            if t is None:
                out.violation("no-variables-type", f"{doc.path}: no type {name}", **c.details(doc))
                continue
            if [a.get("name") for a in annotated] != [name]:
                out.violation("wrong-annotation", f"{doc.path}: variables are annotated as {annotated}, not {name}", **c.details(doc))
            t = t["type"]
            if t["k"] != "obj":
                out.violation("wrong-variables", f"{doc.path}: {name} is not an object type", **c.details(doc))
                continue
            names = [p["name"] for p in t["props"]]
            if sorted(names) != sorted(v[0] for v in variables):
                out.violation("wrong-variables", f"{doc.path}: declares {sorted(v[0] for v in variables)} but {name} has {sorted(names)}",
                              **c.details(doc))
                continue
            by_name = {p["name"]: p for p in t["props"]}
            errors = []
            for v, vt, _d in variables:
                errors += input_errors(module, by_name[v], vt, options.scalars, f"{name}.{v}")
                from graphql import get_named_type
                named = get_named_type(vt)
                out.count(inputs=int(isinstance(named, GraphQLInputObjectType)), enums=int(isinstance(named, GraphQLEnumType)),
                          customs=int(isinstance(named, GraphQLScalarType) and named.name not in ("Int", "Float", "String", "Boolean", "ID")))
            if errors:
                out.violation("wrong-variables", f"{doc.path}: {errors[0]}", **c.details(doc, errors=errors))
                continue
            # What the server accepts is admitted, and what is admitted the server accepts
            for _ in range(4):
                given = {}
                for v, vt, _d in variables:
                    if isinstance(vt, GraphQLNonNull) or rng.random() < 0.8:
                        given[v] = values(rng, vt)
                for v, vt, _d in variables:
                    value = given.get(v)
                    if "input" in repr(value):
                        continue
                    server = []
                    if v not in given:
                        server_accepts = not isinstance(vt, GraphQLNonNull)
                    else:
                        validate_input_value(value, vt, lambda e, p: server.append(str(e)))
                        server_accepts = not server
                    client = rejects(Module({"types": {}}), by_name[v]["type"], value, enums) if v in given else \
                        (None if by_name[v]["optional"] else "required")
                    out.count(values=1)
                    if server_accepts and client is not None:
                        out.violation("value-rejected", f"{doc.path}: ${v}: {vt} accepts {value!r} but {client}", **c.details(doc))
            out.sample(declared=[f"${v}: {vt}" for v, vt, _ in variables], properties=[p["name"] + ("?" if p["optional"] else "") for p in t["props"]])
