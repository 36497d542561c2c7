"""What GraphQL says about documents, and how that compares with dumped TypeScript types."""
import dataclasses

from graphql import (FieldNode, FragmentDefinitionNode, FragmentSpreadNode, GraphQLEnumType, GraphQLField, GraphQLInputObjectType,
                     GraphQLInterfaceType, GraphQLList, GraphQLNonNull, GraphQLObjectType, GraphQLScalarType, GraphQLSchema, GraphQLString, build_ast_schema, print_schema,
                     InlineFragmentNode, OperationDefinitionNode, execute_sync, get_named_type, is_abstract_type,
                     is_composite_type, parse)
from graphql.language import NameNode, SelectionSetNode, visit, Visitor
from graphql.pyutils import Undefined

PRIMITIVES = {"Int": "number", "Float": "number", "String": "string", "Boolean": "boolean", "ID": "string"}
TYPENAME = GraphQLField(GraphQLNonNull(GraphQLString))


class Scalars:
    """How custom scalars are to be named."""

    def __init__(self, use=False, prefix=None):
        self.use, self.prefix = use, prefix

    def leaf(self, name):
        if name in PRIMITIVES:
            return ("kw", PRIMITIVES[name])
        if not self.use:
            return ("kw", "any")
        return ("ref", (self.prefix or "") + name)


class Operation:
    """A definition with all of the fragments that it can spread."""

    def __init__(self, schema, text):
        self.schema = schema
        self.ast = parse(text, no_location=True)
        self.definition = self.ast.definitions[0]
        self.fragments = {d.name.value: d for d in self.ast.definitions if isinstance(d, FragmentDefinitionNode)}
        if isinstance(self.definition, FragmentDefinitionNode):
            self.kind = "fragment"
            self.root = schema.type_map[self.definition.type_condition.name.value]
        else:
            self.kind = self.definition.operation.value
            self.root = {"query": schema.query_type, "mutation": schema.mutation_type,
                         "subscription": schema.subscription_type}[self.kind]

    def possible(self, t):
        return [t] if isinstance(t, GraphQLObjectType) else list(self.schema.get_possible_types(t))

    def includes(self, condition, concrete):
        t = self.schema.type_map[condition]
        return t is concrete or (is_abstract_type(t) and self.schema.is_sub_type(t, concrete))

    def collect(self, concrete, sets):
        """CollectFields: response name -> [(type the field was selected on, field)]"""
        out = {}

        def walk(parent, selection_set, spread):
            for s in selection_set.selections:
                if isinstance(s, FieldNode):
                    name = s.alias.value if s.alias else s.name.value
                    out.setdefault(name, []).append((parent, s))
                elif isinstance(s, InlineFragmentNode):
                    cond = s.type_condition.name.value if s.type_condition else parent.name
                    if self.includes(cond, concrete):
                        walk(self.schema.type_map[cond], s.selection_set, spread)
                else:
                    f = self.fragments[s.name.value]
                    if s.name.value not in spread and self.includes(f.type_condition.name.value, concrete):
                        walk(self.schema.type_map[f.type_condition.name.value], f.selection_set, spread | {s.name.value})
        for parent, selection_set in sets:
            walk(parent, selection_set, frozenset())
        return out


def field_definition(parent, name):
    return TYPENAME if name == "__typename" else parent.fields[name]


def is_typename(node):
    return node.name.value == "__typename"


def shape(t):
    """Nullability per level, outermost first, and the named type."""
    levels = []
    while True:
        nonnull = isinstance(t, GraphQLNonNull)
        if nonnull:
            t = t.of_type
        levels.append("!" if nonnull else "?")
        if not isinstance(t, GraphQLList):
            return "".join(levels), t
        t = t.of_type


class Module:
    """A dumped module."""

    def __init__(self, dump):
        self.dump, self.types = dump, dump["types"]

    def flatten(self, t, seen=()):
        """The alternatives of a type, without null and undefined, and which of those it admits."""
        alts, nulls = [], set()
        if t["k"] == "union":
            for item in t["items"]:
                a, n = self.flatten(item, seen)
                alts += a
                nulls |= n
        elif t["k"] == "kw" and t["name"] in ("null", "undefined"):
            nulls.add(t["name"])
        elif t["k"] == "kw" and t["name"] == "never":
            pass
        elif t["k"] == "ref" and t["name"] in self.types and not t.get("imported") and t["name"] not in seen and not t["args"]:
            return self.flatten(self.types[t["name"]]["type"], seen + (t["name"],))
        else:
            alts.append(t)
        return alts, nulls


class Comparer:
    """Compares a module's data type with what its document selects. Errors are strings."""

    def __init__(self, op, module, scalars, readonly):
        self.op, self.module, self.scalars, self.readonly = op, module, scalars, readonly
        self.candidates = {}    # (id of object type, property) -> {(description, deprecated)}
        self.objects = {}       # id -> object type
        self.memo = {}
        self.keep = []
        self.facts = {"objects": 0, "props": 0, "alternatives": 0, "lists": 0, "merged": 0, "narrowed": 0}

    def data(self, type_name):
        d = self.module.types.get(type_name)
        if d is None:
            return [f"no type {type_name} is declared"]
        return self.collection(d["type"], [(self.op.root, self.op.definition.selection_set)], type_name)

    def collection(self, t, sets, where):
        """t: the emitted type of the objects which all of the selection sets are on."""
        key = (id(t), tuple((p.name, id(s)) for p, s in sets))
        if key in self.memo:
            return self.memo[key]
        self.keep.append((t, sets))
        alts, nulls = self.module.flatten(t)
        errors = []
        if nulls:
            errors.append(f"{where}: admits {'/'.join(sorted(nulls))}")
        objects = []
        for a in alts:
            if a["k"] != "obj":
                errors.append(f"{where}: {brief(a)} instead of an object")
            else:
                objects.append(a)
        self.facts["alternatives"] += len(objects)
        # Interfaces can declare a wider type for a field than what implements them
        concretes = [c for c in self.op.possible(sets[0][0]) if all(self.op.includes(p.name, c) for p, _ in sets)]
        if len(concretes) < len(self.op.possible(sets[0][0])):
            self.facts["narrowed"] += 1
        matched = {id(a): set() for a in objects}
        for concrete in concretes:
            fields = self.op.collect(concrete, sets)
            failures = []
            ok = False
            for a in objects:
                e = self.object(a, concrete, fields, where)
                if e:
                    failures.append(e)
                else:
                    ok = True
                    matched[id(a)].add(concrete.name)
            if not ok:
                errors.append(f"{where}: no alternative is what {concrete.name} produces: " +
                              "; ".join(sorted((e[0] for e in failures), key=len)[:3]))
        for a in objects:
            mine = matched[id(a)]
            if not mine:
                errors.append(f"{where}: alternative {brief(a)} is nothing that {sets[0][0].name} produces")
            if len(mine) > 1:
                self.facts["merged"] += 1
            for p in a["props"]:
                for lit in literals(p["type"]):
                    if lit not in mine and mine:
                        errors.append(f"{where}.{p['name']}: admits the type name {lit}")
        self.memo[key] = errors
        return errors

    def object(self, t, concrete, fields, where):
        errors = []
        names = [p["name"] for p in t["props"]]
        if sorted(names) != sorted(fields):
            extra, missing = set(names) - set(fields), set(fields) - set(names)
            return [f"{where}: properties of {concrete.name}: " + (f"superfluous {sorted(extra)} " if extra else "") +
                    (f"missing {sorted(missing)}" if missing else "") + ("" if extra or missing else f"repeated in {names}")]
        self.facts["objects"] += 1
        recorded = []
        for p in t["props"]:
            self.facts["props"] += 1
            at = f"{where}.{p['name']}"
            if p["optional"]:
                errors.append(f"{at}: optional")
            if p["readonly"] != self.readonly:
                errors.append(f"{at}: readonly={p['readonly']}")
            selected = fields[p["name"]]
            definitions = [(field_definition(parent, n.name.value), parent) for parent, n in selected]
            typename = is_typename(selected[0][1])
            best = None
            distinct = {}
            for d, parent in definitions:
                distinct.setdefault(str(d.type), d)
            for d in distinct.values():
                e = self.field(p["type"], d, concrete, selected, typename, at)
                if not e:
                    best = []
                    break
                best = best or e
            errors += best
            recorded.append((p["name"], {(d.description, d.deprecation_reason is not None) for d, _ in definitions} if not typename
                             else {(None, False)}))
        if not errors:
            self.objects[id(t)] = t
            for name, c in recorded:
                self.candidates.setdefault((id(t), name), set()).update(c)
        return errors

    def field(self, t, definition, concrete, selected, typename, at):
        levels, named = shape(definition.type)
        errors = []
        for i, nullable in enumerate(levels):
            alts, nulls = self.module.flatten(t)
            if "undefined" in nulls:
                errors.append(f"{at}: admits undefined")
            if ("null" in nulls) != (nullable == "?"):
                errors.append(f"{at}: level {i} is {'' if 'null' in nulls else 'not '}nullable, declared {definition.type}")
            if i + 1 < len(levels):
                self.facts["lists"] += 1
                if len(alts) != 1 or alts[0]["k"] != "arr":
                    return errors + [f"{at}: {brief_all(alts)} instead of a list, declared {definition.type}"]
                t = alts[0]["item"]
        if not typename and is_abstract_type(named) and not alts and not self.op.possible(named):
            return errors  # the type has no values
        if typename:
            if not alts or any(a["k"] != "lit" for a in alts) or concrete.name not in [a["value"] for a in alts]:
                errors.append(f"{at}: {brief_all(alts)} instead of the name {concrete.name}")
        elif is_composite_type(named):
            sub = [(get_named_type(field_definition(parent, n.name.value).type), n.selection_set) for parent, n in selected]
            errors += self.collection({"k": "union", "items": alts} if len(alts) != 1 else alts[0], sub, at) \
                if any(a["k"] == "obj" for a in alts) else [f"{at}: {brief_all(alts)} instead of objects"]
        else:
            errors += leaf_errors(alts, named, self.scalars, at)
        return errors


def leaf_errors(alts, named, scalars, at):
    if isinstance(named, GraphQLScalarType):
        kind, name = scalars.leaf(named.name)
    else:
        kind, name = "ref", named.name
    if len(alts) != 1 or alts[0]["k"] != kind or alts[0]["name"] != name:
        return [f"{at}: {brief_all(alts)} instead of {name}"]
    return []


def literals(t):
    if t["k"] == "lit":
        return [t["value"]]
    if t["k"] == "union":
        return [l for i in t["items"] for l in literals(i)]
    return []


def brief(t, depth=2):
    k = t["k"]
    if k in ("kw", "ref"):
        return t["name"]
    if k == "lit":
        return f'"{t["value"]}"'
    if k == "arr":
        return f"({brief(t['item'], depth)})[]"
    if k == "union":
        return " | ".join(brief(i, depth) for i in t["items"])
    if k == "obj":
        return "{" + ", ".join(p["name"] + ("?" if p["optional"] else "") + (": " + brief(p["type"], depth - 1) if depth > 1 else "")
                               for p in t["props"]) + "}"
    return str(t.get("text"))


def brief_all(alts):
    return " | ".join(brief(a) for a in alts) or "nothing"


# ------------------------------------------------------------------------------------------------
# Variables and inputs

def input_errors(module, prop, gql_type, scalars, at, readonly=None):
    """Compares a property of a variables type or input object with its declared input type."""
    levels, named = shape(gql_type)
    errors = []
    if prop["optional"] != (levels[0] == "?"):
        errors.append(f"{at}: optional={prop['optional']}, declared {gql_type}")
    t = prop["type"]
    for i, nullable in enumerate(levels):
        alts, nulls = module.flatten(t)
        if "undefined" in nulls:
            errors.append(f"{at}: admits undefined")
        if ("null" in nulls) != (nullable == "?"):
            errors.append(f"{at}: level {i} is {'' if 'null' in nulls else 'not '}nullable, declared {gql_type}")
        if i + 1 < len(levels):
            if len(alts) != 1 or alts[0]["k"] != "arr":
                return errors + [f"{at}: {brief_all(alts)} instead of a list, declared {gql_type}"]
            t = alts[0]["item"]
    # Globals refer to each other by name: do not look through them
    return errors + leaf_errors(alts, named, scalars, at)


def used_globals(op):
    """The enums and inputs that a document's types mention."""
    used = set()
    seen = set()

    def walk(sets):
        for concrete in [c for c in op.possible(sets[0][0]) if all(op.includes(p.name, c) for p, _ in sets)]:
            key = (concrete.name, tuple((p.name, id(s)) for p, s in sets))
            if key in seen:
                continue
            seen.add(key)
            for nodes in op.collect(concrete, sets).values():
                if is_typename(nodes[0][1]):
                    continue
                parent, node = nodes[0]
                named = get_named_type(parent.fields[node.name.value].type)
                if isinstance(named, GraphQLEnumType):
                    used.add(named.name)
                elif is_composite_type(named):
                    walk([(get_named_type(p.fields[n.name.value].type), n.selection_set) for p, n in nodes])
    walk([(op.root, op.definition.selection_set)])
    for v in getattr(op.definition, "variable_definitions", None) or []:
        t = v.type
        while hasattr(t, "type"):
            t = t.type
        named = op.schema.type_map[t.name.value]
        if isinstance(named, (GraphQLEnumType, GraphQLInputObjectType)):
            used.add(named.name)
    return used


def closure_of_globals(schema, names):
    result, todo = set(), list(names)
    while todo:
        n = todo.pop()
        if n in result:
            continue
        result.add(n)
        t = schema.type_map[n]
        if isinstance(t, GraphQLInputObjectType):
            for f in t.fields.values():
                named = get_named_type(f.type)
                if isinstance(named, (GraphQLEnumType, GraphQLInputObjectType)):
                    todo.append(named.name)
    return result


# ------------------------------------------------------------------------------------------------
# Responses

class _Strip(Visitor):
    """Arguments do not matter to the shape of responses."""

    def enter_field_definition(self, node, *_):
        return dataclasses.replace(node, arguments=()) if node.arguments else None

    def enter_field(self, node, *_):
        if node.arguments:
            return dataclasses.replace(node, arguments=())
        return None


class Responder:
    """A server that answers with random values of the right types."""

    def __init__(self, op):
        self.op = op
        if not hasattr(op.schema, "qv_stripped"):
            op.schema.qv_stripped = build_ast_schema(visit(parse(print_schema(op.schema)), _Strip()))
        schema = op.schema.qv_stripped
        root = GraphQLObjectType("QvRoot", {"value": GraphQLField(GraphQLNonNull(schema.type_map[op.root.name]))})
        self.schema = GraphQLSchema(assume_valid=True, query=root, types=[t for t in schema.type_map.values() if not t.name.startswith("__")
                                                       and t.name not in PRIMITIVES])
        body = visit(op.ast, _Strip())
        definition = body.definitions[0]
        value = FieldNode(name=NameNode(value="value"), selection_set=definition.selection_set, arguments=(), directives=())
        operation = OperationDefinitionNode(operation=parse("{a}").definitions[0].operation, name=None, variable_definitions=(),
                                            directives=(), selection_set=SelectionSetNode(selections=(value,)))
        fragments = [d for d in body.definitions if isinstance(d, FragmentDefinitionNode)]
        from graphql import DocumentNode
        self.ast = DocumentNode(definitions=(operation, *fragments))

    def can_be(self, t):
        """Whether there is a value of a type other than null"""
        while isinstance(t, GraphQLNonNull):
            t = t.of_type
        return not is_abstract_type(t) or bool(self.op.possible(self.op.schema.type_map[t.name]))

    def response(self, rng, null_rate=0.2, max_list=3):
        def make(t, depth):
            if isinstance(t, GraphQLNonNull):
                return make_nonnull(t.of_type, depth)
            return None if rng.random() < null_rate or not self.can_be(t) else make_nonnull(t, depth)

        def make_nonnull(t, depth):
            if isinstance(t, GraphQLList):
                n = rng.randint(0, max_list if depth < 6 else 1)
                if not self.can_be(t.of_type):
                    n = 0
                return [make(t.of_type, depth + 1) for _ in range(n)]
            if isinstance(t, GraphQLScalarType):
                return {"Int": rng.randint(-5, 10**6), "Float": rng.choice([1.5, 0, -2]), "String": rng.choice(["", "text"]),
                        "Boolean": rng.random() < 0.5, "ID": "id1"}.get(t.name, {"custom": True})
            if isinstance(t, GraphQLEnumType):
                return rng.choice(list(t.values))
            return {"__concrete": rng.choice(sorted(c.name for c in self.op.possible(self.op.schema.type_map[t.name]))), "__depth": depth + 1}

        def resolve(source, info, **_):
            depth = source.get("__depth", 0) if isinstance(source, dict) else 0
            return make(info.return_type, depth)

        def resolve_type(value, info, _type):
            return value["__concrete"]
        result = execute_sync(self.schema, self.ast, root_value={}, field_resolver=resolve, type_resolver=resolve_type)
        if result.errors:
            return None, [str(e) for e in result.errors]
        return result.data["value"], None


def rejects(module, t, value, enums, at="data"):
    """Why TypeScript would not accept the value as the type, or None."""
    alts, nulls = module.flatten(t)
    if value is None:
        return None if "null" in nulls or any(a["k"] == "kw" and a["name"] in ("any", "unknown") for a in alts) else f"{at}: null for {brief_all(alts)}"
    reasons = []
    for a in alts:
        r = _rejects_one(module, a, value, enums, at)
        if r is None:
            return None
        reasons.append(r)
    return max(reasons, key=len) if reasons else f"{at}: nothing is accepted"


def _rejects_one(module, t, value, enums, at):
    k = t["k"]
    if k == "kw":
        ok = {"any": True, "unknown": True, "string": isinstance(value, str), "boolean": isinstance(value, bool),
              "number": isinstance(value, (int, float)) and not isinstance(value, bool)}.get(t["name"], False)
        return None if ok else f"{at}: {value!r} for {t['name']}"
    if k == "lit":
        return None if value == t["value"] else f"{at}: {value!r} for the literal {t['value']!r}"
    if k == "arr":
        if not isinstance(value, list):
            return f"{at}: {value!r} for a list"
        for i, v in enumerate(value):
            r = rejects(module, t["item"], v, enums, f"{at}[{i}]")
            if r:
                return r
        return None
    if k == "obj":
        if not isinstance(value, dict):
            return f"{at}: {value!r} for an object"
        for p in t["props"]:
            if p["name"] not in value:
                if not p["optional"]:
                    return f"{at}: no {p['name']} in {sorted(value)}"
                continue
            r = rejects(module, p["type"], value[p["name"]], enums, f"{at}.{p['name']}")
            if r:
                return r
        return None
    if k == "ref":
        if t["name"] in enums:
            return None if value in enums[t["name"]] else f"{at}: {value!r} for the enum {t['name']}"
        return None  # a custom scalar
    return f"{at}: not a known type: {t}"
