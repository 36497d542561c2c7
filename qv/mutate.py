"""Single mistakes planted into valid documents."""
import os
import re

from graphql import (FieldNode, FragmentDefinitionNode, FragmentSpreadNode, GraphQLObjectType, InlineFragmentNode, OperationDefinitionNode,
                     get_named_type, is_abstract_type, is_composite_type, is_required_argument, parse)

from .gen import relative_spelling


class Place:
    """A selection set of a document and where it is."""

    def __init__(self, node, parent, reach, depth):
        self.node, self.parent, self.reach, self.depth = node, parent, reach, depth


class Source:
    """A document's text with its parsed definition."""

    def __init__(self, schema, text):
        self.schema, self.text = schema, text
        self.ast = parse(text)
        self.definition = self.ast.definitions[0]
        self.places = []
        self.items = []     # (selection, place)
        d = self.definition
        if isinstance(d, FragmentDefinitionNode):
            root = schema.type_map[d.type_condition.name.value]
        else:
            root = {"query": schema.query_type, "mutation": schema.mutation_type, "subscription": schema.subscription_type}[d.operation.value]
        self.root = root
        self._walk(d.selection_set, root, self.possible(root), 0)

    def possible(self, t):
        if isinstance(t, GraphQLObjectType):
            return frozenset([t.name])
        return frozenset(p.name for p in self.schema.get_possible_types(t))

    def _walk(self, node, parent, reach, depth):
        place = Place(node, parent, reach, depth)
        self.places.append(place)
        for s in node.selections:
            self.items.append((s, place))
            if isinstance(s, FieldNode) and s.selection_set:
                t = get_named_type(parent.fields[s.name.value].type)
                self._walk(s.selection_set, t, self.possible(t), depth + 1)
            elif isinstance(s, InlineFragmentNode):
                t = self.schema.type_map[s.type_condition.name.value] if s.type_condition else parent
                self._walk(s.selection_set, t, reach & self.possible(t), depth + 1)

    def fields(self):
        return [(s, p) for s, p in self.items if isinstance(s, FieldNode)]

    def named_type(self, field, place):
        if field.name.value == "__typename":
            return None
        return get_named_type(place.parent.fields[field.name.value].type)


def position(text, offset):
    """1-based line and column"""
    lines = re.split(r"\r\n|\r|\n", text[:offset].removeprefix("\ufeff"))
    return len(lines), len(lines[-1]) + 1


def lines_of(text):
    """The lines that a diagnostic can show"""
    return re.split(r"\r\n|\r|\n", text.removeprefix("\ufeff"))


class Mutation:
    """A tree with one mistake in it."""

    def __init__(self, kind, doc, text, spans=(), names=(), files=None, contained=False, lacks=None, meant=None, known=()):
        self.kind, self.doc, self.text = kind, doc, text
        self.spans = spans              # [(start, end)] offsets, any of which the error may point at; empty if not located
        self.names = list(names)        # what the message has to name
        self.files = files or {}        # other files to add
        self.contained = contained      # not a mistake in documents which spread this fragment
        self.lacks = lacks              # the fragment that is not imported
        self.meant = meant              # what is misspelt
        self.known = set(known)         # what could be meant

    def allowed(self):
        """(line, first column, last column) of where the error may be"""
        out = []
        for start, end in self.spans:
            line, first = position(self.text, start)
            line2, last = position(self.text, end)
            if line2 != line:
                last = first + len(self.text[start:].split("\n", 1)[0])
            out.append((line, first, last))
        return out

    def details(self):
        return {"mutation": self.kind, "file": self.doc.path, "mutated": self.text, "names": self.names}


def insert(text, at, what):
    return text[:at] + what + text[at:]


def replace(text, start, end, what):
    return text[:start] + what + text[end:]


UNKNOWN = ["zzUnknown", "nope", "Zzz_9", "__schemaa", "idd", "__type2"]


def unknown_name(rng, taken):
    while True:
        name = rng.choice(UNKNOWN) + str(rng.randrange(1000))
        if name not in taken:
            return name


def unknown_field(rng, s, doc, project):
    field, place = rng.choice(s.fields() or [(None, None)])
    if field is None:
        return None
    name = unknown_name(rng, getattr(place.parent, "fields", {}))
    start, end = field.name.loc.start, field.name.loc.end
    return Mutation("unknown-field", doc, replace(s.text, start, end, name), [(field.loc.start, start)], [name, place.parent.name])


def misspell(rng, name, taken):
    """One mistake while typing"""
    while True:
        i, c = rng.randrange(len(name)), rng.choice("abxyz_XYZ019")
        typo = rng.choice([name[:i] + name[i + 1:], name[:i] + c + name[i:], name[:i] + c + name[i + 1:], name + c,
                           name[:i] + name[i + 1:i + 2] + name[i] + name[i + 2:], name[:i] + name[i].swapcase() + name[i + 1:]])
        if typo not in taken and re.match(r"^[A-Za-z_]\w*$", typo) and not typo.startswith("__") and typo not in ("on", "true", "false", "null"):
            return typo


def misspelt_field(rng, s, doc, project):
    options = [(f, p) for f, p in s.fields() if not f.name.value.startswith("__") and len(f.name.value) > 1]
    if not options:
        return None
    field, place = rng.choice(options)
    start, end, meant = field.name.loc.start, field.name.loc.end, field.name.value
    name = misspell(rng, meant, place.parent.fields)
    return Mutation("misspelt-field", doc, replace(s.text, start, end, name), [(field.loc.start, start)], [name, place.parent.name],
                    meant=meant, known=place.parent.fields)


def misspelt_spread(rng, s, doc, project):
    options = [n for n, _ in s.items if isinstance(n, FragmentSpreadNode) and len(n.name.value) > 1]
    if not options:
        return None
    node = rng.choice(options)
    start, end, meant = node.name.loc.start, node.name.loc.end, node.name.value
    name = misspell(rng, meant, {d.name for d in project.docs})
    return Mutation("misspelt-spread", doc, replace(s.text, start, end, name), [(node.loc.start, start)], [name],
                    meant=meant, known={d.name for d in doc.closure()})


def added_unknown_field(rng, s, doc, project):
    place = rng.choice(s.places)
    name = unknown_name(rng, getattr(place.parent, "fields", {}))
    sub = rng.choice(["", "", " { id }"])
    at = rng.choice(place.node.selections).loc.end
    return Mutation("unknown-field", doc, insert(s.text, at, f"\n  {name}{sub}\n"), [(at + 3, at + 3)], [name, place.parent.name])


def foreign_field(rng, s, doc, project):
    """A field that another type has"""
    place = rng.choice(s.places)
    mine = getattr(place.parent, "fields", {})
    # possible types have fields which the abstract type lacks
    others = [t for n in s.possible(place.parent) for t in [s.schema.type_map[n]]] if is_abstract_type(place.parent) else \
        [t for t in s.schema.type_map.values() if isinstance(t, GraphQLObjectType) and not t.name.startswith("__")]
    names = sorted({n for t in others for n, f in t.fields.items() if n not in mine})
    if not names:
        return None
    name = rng.choice(names)
    t = next(t for t in others if name in t.fields)
    sub = " { __typename }" if is_composite_type(get_named_type(t.fields[name].type)) else ""
    at = rng.choice(place.node.selections).loc.end
    return Mutation("foreign-field", doc, insert(s.text, at, f"\n {name}{sub}\n"), [(at + 2, at + 2)], [name, place.parent.name])


def missing_selection(rng, s, doc, project):
    fields = [(f, p) for f, p in s.fields() if f.selection_set]
    if not fields:
        return None
    field, place = rng.choice(fields)
    # with everything in it, so nothing else can be wrong
    return Mutation("missing-selection", doc, replace(s.text, field.selection_set.loc.start, field.selection_set.loc.end, " "),
                    [(field.loc.start, field.name.loc.start)], [s.named_type(field, place).name])


def misplaced_selection(rng, s, doc, project):
    fields = [(f, p) for f, p in s.fields() if not f.selection_set]
    if not fields:
        return None
    field, place = rng.choice(fields)
    t = s.named_type(field, place)
    sub = rng.choice([" { id }", " { __typename }", "{ a: b { c } }"])
    return Mutation("misplaced-selection", doc, insert(s.text, field.loc.end, sub), [(field.loc.start, field.name.loc.start)],
                    [t.name] if t is not None else [])


def unknown_spread(rng, s, doc, project):
    place = rng.choice(s.places)
    name = unknown_name(rng, {d.name for d in project.docs})
    at = rng.choice(place.node.selections).loc.end
    return Mutation("unknown-spread", doc, insert(s.text, at, f"\n   ...{name}\n"), [(at + 4, at + 7)], [name])


def unimported_spread(rng, s, doc, project):
    """A fragment that exists but is not imported"""
    known = set(doc.closure()) | {doc}
    others = [f for f in project.fragments if f not in known]
    if not others:
        return None
    f = rng.choice(others)
    place = rng.choice(s.places)
    at = rng.choice(place.node.selections).loc.end
    return Mutation("unimported-spread", doc, insert(s.text, at, f"\n   ...{f.name}\n"), [(at + 4, at + 7)], [f.name], lacks=f)


def spread_spans(s, name, text):
    spans = []
    for node, _ in s.items:
        if isinstance(node, FragmentSpreadNode) and node.name.value == name:
            spans.append((node.loc.start, node.name.loc.start))
    return spans


def removed_import(rng, s, doc, project):
    """Without its import a spread fragment is unknown, unless another import brings it"""
    options = []
    for f in doc.spreads:
        rest = [d for d in doc.imports if d is not f]
        reached = set(rest)
        for d in rest:
            if d is not doc:
                reached |= set(d.closure())
        if f not in reached:
            options.append(f)
    if not options:
        return None
    f = rng.choice(options)
    keep = [l for l, d in doc.import_pairs if d is not f]
    text = "".join(l + "\n" for l in keep) + doc.body + "\n"
    s2 = Source(s.schema, text)
    return Mutation("removed-import", doc, text, spread_spans(s2, f.name, text), [f.name], lacks=f)


def self_spread(rng, s, doc, project):
    if not doc.is_fragment:
        return None
    # where a spread of itself is possible
    options = [p for p in s.places if p.reach & s.possible(s.root)]
    if not options:
        return None
    place = rng.choice(options)
    at = rng.choice(place.node.selections).loc.end
    text, _ = with_import(rng, s.text, relative_spelling(rng, doc.path, doc.path, project.prefix, True))
    at += len(text) - len(s.text)
    return Mutation("self-spread", doc, insert(text, at, f"\n   ...{doc.name}\n"), [(at + 4, at + 7)], [doc.name])


def cyclic_spread(rng, s, doc, project):
    """A fragment spreads one that spreads it"""
    if not doc.is_fragment:
        return None
    users = [f for f in project.fragments if doc in spread_closure(f)]
    if not users:
        return None
    user = rng.choice(users)
    user_types = s.possible(s.schema.type_map[user.on])
    options = [p for p in s.places if p.reach & user_types]
    if not options:
        return None
    place = rng.choice(options)
    at = rng.choice(place.node.selections).loc.end
    text, _ = with_import(rng, s.text, relative_spelling(rng, doc.path, user.path, project.prefix, True))
    at += len(text) - len(s.text)
    return Mutation("cyclic-spread", doc, insert(text, at, f"\n   ...{user.name}\n"), [(at + 4, at + 7)], [user.name])


def unknown_condition(rng, s, doc, project):
    name = unknown_name(rng, s.schema.type_map)
    inline = [n for n, _ in s.items if isinstance(n, InlineFragmentNode)]
    if isinstance(s.definition, FragmentDefinitionNode) and (not inline or rng.random() < 0.3):
        n = s.definition.type_condition.name
        return Mutation("unknown-condition", doc, replace(s.text, n.loc.start, n.loc.end, name), [(s.definition.loc.start, n.loc.start)], [name])
    if inline and rng.random() < 0.5:
        node = rng.choice(inline)
        n = node.type_condition.name
        return Mutation("unknown-condition", doc, replace(s.text, n.loc.start, n.loc.end, name), [(node.loc.start, n.loc.start)], [name])
    place = rng.choice(s.places)
    at = rng.choice(place.node.selections).loc.end
    return Mutation("unknown-condition", doc, insert(s.text, at, f"\n ... on {name} {{ __typename }}\n"), [(at + 2, at + 9)], [name])


def leaf_condition(rng, s, doc, project):
    names = [n for n, t in s.schema.type_map.items() if not is_composite_type(t) and not n.startswith("__")]
    name = rng.choice(names)
    place = rng.choice(s.places)
    at = rng.choice(place.node.selections).loc.end
    return Mutation("leaf-condition", doc, insert(s.text, at, f"\n ... on {name} {{ __typename }}\n"), [(at + 2, at + 9)], [name])


def response_name(f):
    return f.alias.value if f.alias else f.name.value


def conflicting(rng, s, doc, project):
    options = []
    for f, p in s.fields():
        if f.selection_set or not p.reach:
            continue
        for n, other in list(getattr(p.parent, "fields", {}).items()) + ([("__typename", None)] if f.name.value != "__typename" else []):
            if n == f.name.value or (other is not None and (is_composite_type(get_named_type(other.type))
                                                            or any(is_required_argument(a) for a in other.args.values()))):
                continue
            options.append((f, p, n))
    if not options:
        return None
    f, p, n = rng.choice(options)
    name = response_name(f)
    piece = f"{name}: {n}" if name != n else n
    if rng.random() < 0.25:
        # found only when the inline fragment merges with its parent
        piece_text = f"\n  ... on {p.parent.name} {{ {piece} }}\n"
    else:
        piece_text = f"\n  {piece}\n"
    at = rng.choice(p.node.selections).loc.end
    text = insert(s.text, at, piece_text)
    s2 = Source(s.schema, text)
    spans = [(g.loc.start, g.name.loc.start) for g, _ in s2.fields() if response_name(g) == name]
    spans += [(g.loc.start, g.loc.start + 6) for g, _ in s2.items if isinstance(g, InlineFragmentNode)]
    spans += [(g.loc.start, g.name.loc.start) for g, _ in s2.items if isinstance(g, FragmentSpreadNode)]
    return Mutation("conflict", doc, text, spans, [name], contained=True)


def variables_at(s):
    """Where a definition without variables could declare some"""
    d = s.definition
    return (d.directives[0] if d.directives else d.selection_set).loc.start


def unknown_variable_type(rng, s, doc, project):
    if doc.is_fragment:
        return None
    name = unknown_name(rng, s.schema.type_map)
    defs = s.definition.variable_definitions
    shape = rng.choice(["{}", "{}!", "[{}]", "[{}!]!"]).format(name)
    if defs:
        at = rng.choice(defs).loc
        where = at.start if rng.random() < 0.5 else at.end
        piece = f" $zzv: {shape} " if where == at.start else f", $zzv: {shape} "
        return Mutation("unknown-variable-type", doc, insert(s.text, where, piece), [(where + piece.index("$"), where + piece.index("z"))], [name])
    at = variables_at(s)
    if not doc.name:
        return None
    return Mutation("unknown-variable-type", doc, insert(s.text, at, f"($zzv: {shape}) "), [(at + 1, at + 2)], [name])


def output_variable_type(rng, s, doc, project):
    """A type that is no input type"""
    if doc.is_fragment or not doc.name or s.definition.variable_definitions:
        return None
    names = [n for n, t in s.schema.type_map.items() if is_composite_type(t) and not n.startswith("__")]
    name = rng.choice(names)
    at = variables_at(s)
    return Mutation("output-variable-type", doc, insert(s.text, at, f"($zzv: {name}) "), [(at + 1, at + 2)], [name])


def line_starts(text):
    """[(offset, line with its end)], without the byte order mark"""
    out, at = [], int(text.startswith("\ufeff"))
    for l in re.findall(r"[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+", text[at:]):
        out.append((at, l))
        at += len(l)
    return out


def header_position(rng, text):
    """A place among the leading comments"""
    places = [int(text.startswith("\ufeff"))]
    for at, l in line_starts(text):
        if not (l.startswith("#") or not l.strip()) or not l.endswith(("\r", "\n")):
            break
        places.append(at + len(l))
    return rng.choice(places)


def with_import(rng, text, spelling, at=None):
    if at is None:
        at = header_position(rng, text)
    end = re.search(r"\r\n|\r|\n|$", text).group() or "\n"
    return insert(text, at, f'#import "{spelling}"{end}'), (at, at + len('#import "'))


def missing_import(rng, s, doc, project):
    name = rng.choice(["missing.graphql", "nowhere/missing.graphql", "./missing.graphql", "../missing.graphql", "missing", "."])
    text, span = with_import(rng, s.text, name)
    return Mutation("missing-import", doc, text, [span], [os.path.basename(name)] if name != "." else [], contained=True)


def non_fragment_import(rng, s, doc, project):
    others = [d for d in project.docs if not d.is_fragment and d is not doc]
    if not others:
        return None
    other = rng.choice(others)
    text, span = with_import(rng, s.text, relative_spelling(rng, doc.path, other.path, project.prefix, True))
    return Mutation("non-fragment-import", doc, text, [span], [os.path.basename(other.path)], contained=True)


def duplicate_import(rng, s, doc, project):
    """Two fragments of one name"""
    others = [f for f in doc.closure() if f is not doc and f.is_fragment]
    if not others:
        return None
    f = rng.choice(others)
    path = os.path.join(rng.choice(["", "zz", os.path.dirname(f.path)]), rng.choice(["0dup.graphql", "zdup.graphql"]))
    text, span = with_import(rng, s.text, relative_spelling(rng, doc.path, path, project.prefix, True))
    # either of the imports is at fault
    spans = [span]
    for offset, l in line_starts(text):
        if l.startswith('#import "'):
            spans.append((offset, offset + len('#import "')))
    return Mutation("duplicate-import", doc, text, spans, [f.name], files={path: f"fragment {f.name} on {f.on} {{ __typename }}"}, contained=True)


def unparsable(rng, s, doc, project):
    t = s.text
    d = s.definition
    style = rng.randrange(6)
    if style == 0:
        text = t[:d.loc.end - 1]
    elif style == 1:
        at = rng.choice(s.items)[0].loc.end
        text = insert(t, at, rng.choice([" )", " ]", " !", " = 3", " $x", " & ", " ... on ", ": "]))
    elif style == 2:
        text = insert(t, d.loc.end, rng.choice(["}", " }", " extra", ")"]))
    elif style == 3:
        at = rng.choice(s.places).node.loc.start
        text = insert(t, at + 1, rng.choice([" \"open", " \x07 ", " { ", " (a: ", " @ ", " ; "]))
    elif style == 4:
        text = insert(t, d.loc.start, rng.choice(["} ", "quarry X ", "{ ", "\"\"\" "]))
    else:
        at = rng.choice(s.places).node.loc
        text = replace(t, at.start, at.end, "{ id } { id }" if rng.random() < 0.5 else "[ id ]")
    try:
        parse(text)
        return None
    except Exception:
        return Mutation("unparsable", doc, text, [], [])


def multi_definition(rng, s, doc, project):
    extra = rng.choice(["query Second { __typename }", "fragment Second on %s { __typename }" % s.root.name, "mutation Other { __typename }"])
    sep = rng.choice(["\n", "\n\n", " "])
    before = rng.random() < 0.3
    text = insert(s.text, s.definition.loc.start, extra + sep) if before else s.text.rstrip("\n") + "\n" + extra + "\n"
    if before:
        a = s.definition.loc.start
        spans = [(a, a), (a + len(extra + sep),) * 2]
    else:
        a = text.rindex(extra)
        spans = [(a, a), (s.definition.loc.start,) * 2]
    return Mutation("multi-definition", doc, text, spans, [])


def no_definition(rng, s, doc, project):
    text = rng.choice(["", "\n", "# nothing\n", "\n\n  \n", doc.header])
    return Mutation("no-definition", doc, text, [], [])


def bad_bytes(rng, s, doc, project):
    data = s.text.encode()
    at = rng.randint(0, len(data))
    return Mutation("bad-bytes", doc, data[:at] + rng.choice([b"\xff", b"\xc3\x28", b"\xed\xa0\x80", b"\x80"]) + data[at:], [], [])


def nested_list_variable(rng, s, doc, project):
    if doc.is_fragment or not doc.name or s.definition.variable_definitions:
        return None
    at = variables_at(s)
    shape = rng.choice(["[[Int]]", "[[Int!]!]!", "[[[ID]]]", "[[Int]!]", "[[String]]!"])
    return Mutation("nested-list-variable", doc, insert(s.text, at, f"($zzv: {shape}) "), [(at + 1, at + 2)], [])


def anonymous(rng, s, doc, project):
    if doc.is_fragment or doc.kind != "query" or s.definition.variable_definitions:
        return None
    d = s.definition
    text = replace(s.text, d.loc.start, d.selection_set.loc.start, "")
    return Mutation("anonymous", doc, text, [(d.loc.start, d.loc.start)], [])


def no_condition(rng, s, doc, project):
    place = rng.choice(s.places)
    at = rng.choice(place.node.selections).loc.end
    return Mutation("no-condition", doc, insert(s.text, at, "\n ... { __typename }\n"), [(at + 2, at + 6)], [])


# Valid GraphQL which is documented as unsupported
UNSUPPORTED = [nested_list_variable, anonymous, no_condition]

KINDS = [unknown_field, misspelt_field, misspelt_spread, added_unknown_field, foreign_field, missing_selection, misplaced_selection, unknown_spread, unimported_spread,
         removed_import, self_spread, cyclic_spread, unknown_condition, leaf_condition, conflicting, unknown_variable_type,
         output_variable_type, missing_import, non_fragment_import, duplicate_import, unparsable, multi_definition, no_definition, bad_bytes]


def spread_closure(doc):
    """The fragments a document transitively spreads."""
    seen, todo = [], list(doc.spreads)
    while todo:
        d = todo.pop()
        if d not in seen:
            seen.append(d)
            todo += d.spreads
    return seen


def mutate(rng, project, doc=None, kind=None):
    for _ in range(60):
        d = doc or rng.choice(project.docs)
        k = kind or rng.choice(KINDS)
        m = k(rng, Source(project.sc.schema, d.text), d, project)
        if m is not None:
            return m
    return None


def closure_after(m, d):
    """What a document imports once the mutated one does not import what it lacks"""
    seen, todo = set(), [d]
    while todo:
        x = todo.pop()
        for i in x.imports:
            if not (x is m.doc and i is m.lacks) and i not in seen:
                seen.add(i)
                todo.append(i)
    return seen


def must_fail(project, m):
    """The documents which the mistake makes invalid."""
    out = {m.doc.path}
    if not m.contained:
        out |= {d.path for d in project.docs if m.doc in spread_closure(d) and not (m.lacks and m.lacks in closure_after(m, d))}
    return out


def may_fail(project, m):
    """Documents which can be affected by it at all."""
    return {m.doc.path} | {d.path for d in project.docs if m.doc in d.closure()} | set(m.files)
