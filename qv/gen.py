"""Random schemas, documents and project trees."""
import os
import re

from graphql import (GraphQLInterfaceType, GraphQLSyntaxError, GraphQLObjectType, GraphQLUnionType, build_schema, get_introspection_query, validate_schema,
                     get_named_type, graphql_sync, is_abstract_type, is_composite_type, is_leaf_type, is_required_argument,
                     parse, print_ast, validate)
from graphql.utilities import do_types_overlap
from graphql.validation import NoUnusedFragmentsRule, specified_rules

WORDS = ["name", "id", "owner", "title", "body", "count", "node", "items", "user", "author", "content", "status", "kind",
         "parent", "child", "edges", "cursor", "total", "price", "created", "updated", "url", "size", "color", "group",
         "member", "event", "note", "tag", "rank", "type", "class", "default", "query", "fragment", "mutation", "value",
         "constructor", "string", "number", "enum", "new", "self", "data", "page", "info", "left", "right", "first",
         "_id", "line2", "URL", "a", "B", "_", "x1", "isOK", "toString", "length", "any", "null_", "on", "extends"]
NAMES = ["query", "fragment", "mutation", "subscription", "declare", "Query", "Mutation", "A", "_", "graphqlDocument", "String", "Object", "input", "schema", "Type"]
SNAKE = ["users_aggregate", "order_lines_conn", "_entities_all", "tag_by_pk", "All_Of_Them"]
TYPES = ["users_agg", "Order_Row", "User", "Org", "Post", "Comment", "Event", "Page", "Item", "Tag", "Team", "Doc", "File", "Order", "Shop", "Cart"]
LONG = ["withAVeryLongNameThatSaysAllThereIsToSayAboutIt", "accumulatedMonthlyRecurringRevenueOfTheCurrentFiscalYearInTheCurrencyOfTheAccount"]
# Names that are used for custom scalars wherever GraphQL is
KNOWN_SCALARS = ["Date", "DateTime", "Time", "Timestamp", "JSON", "JSONObject", "BigInt", "Long", "Decimal", "URL", "URI", "UUID", "Upload", "Email",
                 "EmailAddress", "Any", "Void", "Money", "Cursor", "Base64", "Byte", "Char", "Double", "Short", "ISO8601DateTime", "HTML", "Markdown"]
BUILTIN = ["Int", "Float", "String", "Boolean", "ID"]


class Profile:
    """What to generate. Checks override what matters to them."""
    descriptions = 0.3      # probability that an element has one
    hostile_descriptions = False
    deprecated = 0.12
    max_list = 5
    twins = 0.15            # probability of names that differ only in case
    long_names = 0.05
    huge = 0.03             # probability of very many possible types
    dense = 0.08            # probability that most types have the same few fields, with many enums
    covariance = 0.25
    same_paths = 0.04
    subscription = 0.5
    mutation = 0.6
    custom_roots = 0.2
    input_graph = 0.5       # weight of input objects
    big = 0.15              # probability of many possible types
    underscore_leaves = True
    snake = 0.1             # probability that a field with nested ones has a name of snake case
    namesakes = 0.06        # probability that a document is called like an enum or input object, or like what its types are nested in
    crowd = 0.03            # probability of many fragments, and documents that import many
    odd_names = 0.04        # probability that a document is called like something that has another meaning elsewhere
    wide = 0.04             # probability of types with many fields, and of documents with many selections and variables
    long_files = 0.04       # probability of a document with very many comments before its definition, between its imports
    deep = 0.04             # probability of a document that is nested deeply
    directives = 0.08       # probability of a document with directives that the compiler has no use for
    dead_spreads = 0.05
    swap_alias = 0.08
    sinks = 0               # query fields with one argument of a random type
    barren = 0.08           # probability of an interface that nothing implements
    deep_lists = 0.03       # probability of many fields with lists of lists
    narrowing = 0.1         # probability of interfaces whose field types are wider than their implementations'
    narrowed = 0.15         # probability of a field on an interface and on a narrower one
    similar = 0.25          # probability of near-identical selections on several possible types
    alternatives = 0.03     # probability that an abstract type's only selections are a nested one per possible type, the same on most
    fragments = (0, 5)
    documents = (1, 4)
    variables = 0.5
    max_depth = 4
    simple_paths = False    # only canonical import spellings
    global_leaves = 0.4     # probability that a leaf field is an enum


def pick(rng, weighted):
    total = sum(w for _, w in weighted)
    x = rng.random() * total
    for v, w in weighted:
        x -= w
        if x < 0:
            return v
    return weighted[-1][0]


def wrap(rng, name, max_list=3, nonnull=0.4, lists=None):
    levels = lists if lists is not None else min(max_list, pick(rng, [(0, 55), (1, 27), (2, 11), (3, 5), (4, 1.5), (5, 0.5)]))
    s = name + ("!" if rng.random() < nonnull else "")
    for _ in range(levels):
        s = "[" + s + "]" + ("!" if rng.random() < nonnull else "")
    return s


# What no type of TypeScript can be named
RESERVED = {"any", "void", "object", "never", "unknown", "undefined", "null", "symbol", "bigint", "number", "enum", "class", "new", "default", "type", "in", "on"}


def twin(rng, name):
    """The same name in another case"""
    for _ in range(5):
        style = rng.randrange(4)
        other = [name.upper(), name.lower(), name.swapcase(), name[0].swapcase() + name[1:]][style]
        if other != name and other.lower() not in ("id", "int", "float", "string", "boolean", "__typename") and other not in RESERVED:
            return other
    return None


def describe(rng, profile, words=None):
    if rng.random() >= profile.descriptions:
        return None
    if profile.hostile_descriptions and rng.random() < 0.6:
        parts = ["*/", "/*", "**/", "*//", "**//", "/**/", "*/*/", "*", "/", " ", "\n", "a", "// x", "*\n/", "\\", "`", "${x}",
                 "@deprecated", "\u2028", "é", "日本", "\t", "};", "export type X = {", "\"", "'", "*\\/", "-->", "/**", "*/ }", "\r\n",
                 "/ * /", "* /", "\n\n", "*\n\n/", "//*", "/*/", "***///"]
        return "".join(rng.choice(parts) for _ in range(rng.randint(1, 8)))
    vocabulary = ["the", "value", "of", "this", "Thing", "e.g.", "(see", "docs)", "100%", "is", "`code`", "don't", "étoile",
                  "x < y", "a & b", "#1", "—", "https://example.com/a?b=c", "$var", "ok.", "{braces}", "deprecated", "Deprecated:", "readonly",
                  "null", "export", "🎉"]
    lines = []
    long = rng.random() < 0.02
    for _ in range(rng.randint(1, 40) if long else pick(rng, [(1, 6), (2, 2), (3, 1), (4, 1)])):
        n = rng.randint(1, 200 if long else 6)
        line = " ".join(rng.choice(vocabulary) for _ in range(n)) + f" w{rng.randrange(10**6)}"
        lines.append(line)
    sep = pick(rng, [("\n", 5), ("\n\n", 1), ("\n  ", 1), ("  \n", 1)])
    return sep.join(lines)


def sdl_string(text):
    import json
    return json.dumps(text, ensure_ascii=True)


class SchemaGen:
    def __init__(self, rng, profile):
        self.rng, self.p = rng, profile
        self.used = set()
        self.twins = rng.random() < profile.twins
        self.make()

    def word(self):
        rng = self.rng
        return rng.choice(WORDS) if rng.random() >= self.p.long_names else rng.choice(LONG)

    def unique(self, base):
        name = base
        if self.twins and self.rng.random() < 0.3 and self.used:
            name = twin(self.rng, self.rng.choice(sorted(self.used))) or base
        n = 1
        while name in self.used:
            n += 1
            name = f"{base}{n}"
        self.used.add(name)
        return name

    def type_name(self, suffix=""):
        rng = self.rng
        name = rng.choice(TYPES) + suffix
        if suffix == "Input" and rng.random() < self.p.namesakes:
            name = self.rng.choice(["Get", "list", "My", "_Do"]) + str(rng.randrange(3)) + rng.choice(["Query", "Op", "Thing"]) + "Variables"
        return self.unique(name)

    def global_name(self, suffix):
        """A name of an enum, input or scalar, which may also look like snake case"""
        rng = self.rng
        if rng.random() < 0.25:
            return self.unique(rng.choice(["order_by", "users_bool_exp", "tag_kind", "_Any", "uuid", "date_time", "x_filter"]) + "_" + suffix.lower())
        return self.type_name(suffix)

    def default(self, t, probability):
        rng = self.rng
        if rng.random() >= probability:
            return ""
        if not t.endswith("!") and rng.random() < 0.15:
            return " = null"
        if t.startswith("["):
            return " = []"
        named = t.rstrip("!")
        if named in self.enums:
            return " = " + rng.choice(self.enums[named])
        return " = " + {"Int": "3", "Float": "-1.5e3", "Boolean": "false"}.get(named, rng.choice(['"x"', '""', '"a \\"b\\" } # c"', '"é"']))

    def make(self):
        rng, p = self.rng, self.p
        big = rng.random() < p.big
        huge = rng.random() < p.huge
        dense = rng.random() < p.dense
        wide = rng.random() < p.wide
        n_obj = rng.randint(18, 45) if huge else rng.randint(5, 12) if big else rng.randint(2, 5)
        self.scalars = [self.global_name("Scalar") if rng.random() < 0.5 else self.unique(rng.choice(KNOWN_SCALARS)) for _ in range(rng.randint(1, 3))]
        self.enums = {}
        for _ in range(rng.randint(4, 8) if dense else rng.randint(1, 4)):
            values = [f"{rng.choice('VWX')}_{k}" for k in range(rng.randint(20, 300))] if rng.random() < p.huge else []
            for _ in range(pick(rng, [(1, 1), (2, 3), (3, 3), (6, 1)])):
                v = rng.choice(["RED", "GREEN", "small", "Large", "_X", "A1", "default", "class", "IN_PROGRESS", "done", "enum", "B_2"])
                if v not in values:
                    values.append(v)
                if self.twins and rng.random() < 0.4 and twin(rng, v) and twin(rng, v) not in values + ["true", "false", "null"]:
                    v = twin(rng, v)
                    if v and v not in values:
                        values.append(v)
            self.enums[self.global_name("Kind")] = values
        self.inputs = {}
        deep_lists = rng.random() < p.deep_lists
        input_names = [self.global_name("Input") for _ in range(rng.randint(1, 6))]
        for name in input_names:
            fields = {}
            for _ in range(rng.randint(12, 60) if wide else rng.randint(1, 5)):
                fname = self.word() + rng.choice(["", "_gt", "In"])
                if self.twins and fields and rng.random() < 0.4:
                    fname = twin(rng, rng.choice(list(fields))) or fname
                if fname in fields:
                    continue
                target = pick(rng, [(rng.choice(BUILTIN), 4), (rng.choice(self.scalars), 1), (rng.choice(list(self.enums)), 2),
                                    (rng.choice(input_names), 6 * p.input_graph)])
                t = wrap(rng, target, p.max_list, lists=rng.randint(0, p.max_list) if deep_lists else None)
                if target in input_names and not t.startswith("["):
                    t = target  # recursion needs a way to end
                default = "" if target in input_names else self.default(t, 0.15)
                deprecated = ""
                if (default or not t.endswith("!")) and rng.random() < p.deprecated:
                    deprecated = " @deprecated"
                fields[fname] = t + default + deprecated
            self.inputs[name] = fields
        objects = [self.type_name() for _ in range(n_obj)]
        interfaces = [self.type_name("Like") for _ in range(rng.randint(0, 3))]
        unions = [self.type_name("Union") for _ in range(rng.randint(0, 2) + huge)]
        self.members = {}
        for u in unions:
            self.members[u] = rng.sample(objects, rng.randint(1, min(len(objects), 45 if huge else 8 if big else 4)))
        implements = {o: [i for i in interfaces if rng.random() < (0.7 if big or huge else 0.45)] for o in objects}
        for i in interfaces:  # everyone has an implementer
            if not any(i in v for v in implements.values()):
                implements[rng.choice(objects)].append(i)
        iface_implements = {i: [] for i in interfaces}
        if len(interfaces) > 1 and rng.random() < 0.3:
            child, parent = interfaces[1], interfaces[0]
            iface_implements[child].append(parent)
            for o in objects:
                if child in implements[o] and parent not in implements[o]:
                    implements[o].append(parent)
        composites = objects + interfaces + unions
        # A pool of fields which have the same type wherever they appear, so that selections of them can merge.
        pool = {}
        for _ in range(rng.randint(5, 8) if dense else rng.randint(60, 100) if wide else rng.randint(8, 20)):
            word = self.word()
            if wide and rng.random() < 0.4:
                word += str(rng.randrange(30))
            if self.twins and pool and rng.random() < 0.3:
                word = twin(rng, rng.choice(list(pool))) or word
            if word in pool:
                continue
            if rng.random() < 0.55:
                target = pick(rng, [(rng.choice(BUILTIN), 1 - p.global_leaves), (rng.choice(list(self.enums)), p.global_leaves),
                                    (rng.choice(self.scalars), 0.15)])
                if p.underscore_leaves and rng.random() < 0.2:
                    word = word + "_" + rng.choice(WORDS)
            else:
                target = rng.choice(composites)
                if word in ("constructor",):
                    word += "Of"
                if rng.random() < p.snake:
                    word = rng.choice(SNAKE)
            if word in pool:
                continue
            args = []
            for _ in range(pick(rng, [(0, 6), (1, 3), (2, 1)])):
                an = rng.choice(WORDS)
                if any(a.startswith(an + ":") for a in args):
                    continue
                at = pick(rng, [(rng.choice(BUILTIN), 3), (rng.choice(list(self.enums)), 2), (rng.choice(list(self.inputs)), 4),
                                (rng.choice(self.scalars), 1)])
                at = wrap(rng, at, 2, 0.3)
                default = "" if re.sub(r"[\[\]!]", "", at) in self.inputs and "[" not in at else self.default(at, 0.15)
                args.append(f"{an}: {at}{default}" + (" @deprecated" if (default or not at.endswith("!")) and rng.random() < p.deprecated / 2 else ""))
            pool[word] = (wrap(rng, target, p.max_list, lists=rng.randint(0, p.max_list) if deep_lists else None), args)
        barren = self.type_name("Like") if rng.random() < p.barren else None
        if barren:
            for _ in range(rng.randint(1, 3)):
                word = self.word() + "None"
                t = wrap(rng, barren, p.max_list)
                # A server can only answer with null or an empty list
                pool[word] = (t if "[" in t else barren, [])
        forced = {}
        if interfaces and rng.random() < p.narrowing:
            for i in rng.sample(interfaces, min(len(interfaces), 2)):
                word = self.word() + "Wide"
                pool[word] = (wrap(rng, rng.choice(interfaces + unions), p.max_list), [])
                forced[i] = word
        names = list(pool)
        leaves = [n for n in names if re.sub(r"[\[\]!]", "", pool[n][0]) not in composites]
        if not leaves:
            pool["ident"] = ("ID!", [])
            names.append("ident")
            leaves = ["ident"]
        fields = {}
        for i in interfaces:
            mine = {n: pool[n] for n in rng.sample(names, min(len(names), rng.randint(1, 4)))}
            if i in forced:
                mine[forced[i]] = pool[forced[i]]
            for parent in iface_implements[i]:
                mine.update(fields[parent])
            fields[i] = mine
        if barren:
            fields[barren] = {n: pool[n] for n in rng.sample(names, min(len(names), rng.randint(1, 4)))}
        subtypes = {c: {c} for c in composites}
        for o in objects:
            for i in implements[o]:
                subtypes[i].add(o)
        for u, ms in self.members.items():
            subtypes[u].update(ms)
        for o in objects:
            mine = {n: pool[n] for n in rng.sample(names, min(len(names), rng.randint(4, 8) if dense else rng.randint(1, 70) if wide else rng.randint(1, 6)))}
            if not any(n in leaves for n in mine):
                n = rng.choice(leaves)
                mine[n] = pool[n]
            if rng.random() < 0.3:  # the same name with another type on an unrelated object
                n = rng.choice(leaves)
                if not any(n in fields[i] for i in implements[o]):
                    mine[n] = (wrap(rng, rng.choice(BUILTIN), p.max_list), [])
            required = {}
            for i in implements[o]:
                required.update(fields[i])
            for n, (t, args) in required.items():
                if rng.random() < (0.75 if n in forced.values() else p.covariance):
                    base = re.sub(r"[\[\]!]", "", t)
                    if base in subtypes and rng.random() < 0.6:
                        t = re.sub(r"\w+", rng.choice(sorted(subtypes[base])), t)
                    elif not t.endswith("!") and t != barren:
                        t += "!"
                mine[n] = (t, args)
            fields[o] = mine
        if barren:
            interfaces.append(barren)
            iface_implements[barren] = []
        self.objects, self.interfaces, self.unions = objects, interfaces, unions
        custom = rng.random() < p.custom_roots
        self.roots = {"query": "QueryRoot" if custom else "Query",
                      "mutation": ("MutationRoot" if custom else "Mutation") if rng.random() < p.mutation else None,
                      "subscription": ("SubscriptionRoot" if custom else "Subscription") if rng.random() < p.subscription else None}
        out = []
        self.documented = {}

        def doc(indent, key):
            d = describe(rng, p)
            if d is None:
                return ""
            return indent + sdl_string(d) + "\n"

        def deprecation():
            if rng.random() >= p.deprecated:
                return ""
            return rng.choice([" @deprecated", ' @deprecated(reason: "no longer used")'])
        for s in self.scalars:
            out.append(f"{doc('', s)}scalar {s}")
        for e, values in self.enums.items():
            out.append(f"{doc('', e)}enum {e} {{\n" + "\n".join(f"{doc('  ', (e, v))}  {v}{deprecation()}" for v in values) + "\n}")
        for name, fs in self.inputs.items():
            out.append(f"{doc('', name)}input {name} {{\n" + "\n".join(f"{doc('  ', (name, f))}  {f}: {t}" for f, t in fs.items()) + "\n}")

        def fielddefs(fs):
            return "\n".join(f"{doc('  ', n)}  {n}{'(' + ', '.join(args) + ')' if args else ''}: {t}{deprecation()}"
                             for n, (t, args) in fs.items())
        for i in interfaces:
            impl = " implements " + " & ".join(iface_implements[i]) if iface_implements[i] else ""
            out.append(f"{doc('', i)}interface {i}{impl} {{\n{fielddefs(fields[i])}\n}}")
        for u in unions:
            out.append(f"{doc('', u)}union {u} = {' | '.join(self.members[u])}")
        for o in objects:
            impl = " implements " + " & ".join(implements[o]) if implements[o] else ""
            out.append(f"{doc('', o)}type {o}{impl} {{\n{fielddefs(fields[o])}\n}}")
        for op, name in self.roots.items():
            if name is None:
                continue
            fs = {}
            for n in rng.sample(names, min(len(names), rng.randint(3, 60 if wide else 8))):
                fs[n] = pool[n]
            for c in composites:
                if op == "query" or rng.random() < 0.4:
                    fs[c[0].lower() + c[1:] + "Of"] = (wrap(rng, c, p.max_list), [f"by: {wrap(rng, rng.choice(list(self.inputs)), 1, 0.2)}"] if rng.random() < 0.4 else [])
            for e in list(self.inputs)[:2]:
                fs["find" + re.sub("_", "", e)] = ("Int", [f"by: {wrap(rng, e, 1)}", f"kind: {wrap(rng, rng.choice(list(self.enums)), 1)}"])
            for k in range(p.sinks * (10 if wide else 1) if op != "subscription" else 0):
                target = rng.choice(BUILTIN + self.scalars + list(self.enums) * 2 + list(self.inputs) * 2)
                fs[f"sink{k}"] = ("Int", [f"v: {wrap(rng, target, 1, lists=rng.choice([0, 0, 1]))}"])
            out.append(f"{doc('', name)}type {name} {{\n{fielddefs(fs)}\n}}")
        if custom:
            out.append("schema {\n" + "\n".join(f"  {op}: {n}" for op, n in self.roots.items() if n) + "\n}")
        rng.shuffle(out)
        out.append("directive @client on FIELD")
        out.append("directive @tag(key: String, n: Int) repeatable on FIELD | FRAGMENT_SPREAD | INLINE_FRAGMENT | QUERY | MUTATION | SUBSCRIPTION | FRAGMENT_DEFINITION")
        self.sdl = "\n\n".join(out)


class SchemaCase:
    def __init__(self, sdl):
        self.sdl = sdl
        self.schema = build_schema(sdl)
        # without a rule that is newer than most servers, and that would rule out most schemas with interfaces
        self.errors = [e for e in validate_schema(self.schema) if "so implementation field" not in e.message]
        self.schema._validation_errors = self.errors
        self._introspection = None

    @property
    def introspection(self):
        if self._introspection is None:
            # As deep as its types are
            query = get_introspection_query(specified_by_url=True, directive_is_repeatable=True, input_value_deprecation=True,
                                            experimental_directive_deprecation=True, one_of=True, type_depth=12)
            result = graphql_sync(self.schema, query)
            assert not result.errors, result.errors
            self._introspection = {"data": result.data}
        return self._introspection

    def possible(self, t):
        if isinstance(t, GraphQLObjectType):
            return [t]
        return list(self.schema.get_possible_types(t))


def make_schema(rng, profile):
    for _ in range(30):
        case = SchemaCase(SchemaGen(rng, profile).sdl)
        if not case.errors:
            return case
    raise RuntimeError("no valid schema in 30 attempts")


# ------------------------------------------------------------------------------------------------
# Documents

class Doc:
    """One .graphql file."""

    def __init__(self, path, kind, name, text, spreads, on=None):
        self.path, self.kind, self.name, self.text, self.spreads, self.on = path, kind, name, text, spreads, on
        self.imports = []      # docs this one imports
        self.import_lines = []

    @property
    def is_fragment(self):
        return self.kind == "fragment"

    @property
    def data_name(self):
        return self.name or {"query": "Query", "mutation": "Mutation", "subscription": "Subscription"}[self.kind]

    def closure(self):
        """The imported fragments, transitively."""
        seen, todo = [], list(self.imports)
        while todo:
            d = todo.pop()
            if d is not self and d not in seen:
                seen.append(d)
                todo += d.imports
        return seen


class DocGen:
    def __init__(self, rng, profile, schema_case):
        self.rng, self.p, self.sc = rng, profile, schema_case
        self.schema = schema_case.schema
        self.variables = {}
        self.allow_vars = False
        self.crowd = False
        self.begin()

    def begin(self):
        """What kind of document the next one is"""
        rng, p = self.rng, self.p
        self.wide = rng.random() < 2 * p.wide
        self.deep = not self.wide and rng.random() < p.deep
        self.depth = rng.randint(8, 16) if self.deep else p.max_depth
        self.width = 1          # how many combinations of concrete types there are on the way to the current selections
        self.directed = 0.3 if rng.random() < p.directives else 0

    def directive(self, field=False):
        rng = self.rng
        if rng.random() >= self.directed or "tag" not in [d.name for d in self.schema.directives]:
            return ""
        choices = ["@tag", '@tag(key: "x")', '@tag(n: 3, key: "a } # b")', "@tag @tag(n: 1)"] + ["@client"] * 3 * field
        return " " + rng.choice(choices)

    def value(self, t, depth=0):
        """A literal for an input type, perhaps a variable."""
        from graphql import GraphQLEnumType, GraphQLInputObjectType, GraphQLList, GraphQLNonNull, GraphQLScalarType
        rng = self.rng
        if self.allow_vars and rng.random() < (0.6 if depth == 0 else 0.15):
            s = str(t)
            if s.count("[") <= 1:
                for name, (vt, _d) in self.variables.items():
                    if vt == s and rng.random() < 0.4:
                        return "$" + name
                name = rng.choice(WORDS) + rng.choice(["", "2", "_x", "Id", "Var"])
                if self.variables and rng.random() < self.p.twins:
                    name = twin(rng, rng.choice(list(self.variables))) or name
                elif rng.random() < self.p.long_names:
                    name += rng.choice(LONG)
                if name not in self.variables and len(self.variables) < (40 if self.wide else 8):
                    declared = s
                    if not s.endswith("!") and rng.random() < 0.3:
                        declared += "!"
                    default = None
                    if declared in ("Int", "Int!") and rng.random() < 0.2:
                        default = "7"
                    elif declared in ("String", "[String]") and rng.random() < 0.2:
                        default = '"a#b"' if declared == "String" else '["x", null]'
                    self.variables[name] = (declared, default)
                    return "$" + name
        if isinstance(t, GraphQLNonNull):
            return self.value(t.of_type, depth + 1)
        if isinstance(t, GraphQLList):
            n = rng.randint(0, 2) if depth < 3 else 0
            return "[" + ", ".join(self.value(t.of_type, depth + 1) for _ in range(n)) + "]"
        if isinstance(t, GraphQLEnumType):
            return rng.choice(list(t.values))
        if isinstance(t, GraphQLInputObjectType):
            parts = []
            for n, f in t.fields.items():
                required = isinstance(f.type, GraphQLNonNull) and f.default_value.__class__.__name__ == "UndefinedType"
                if required or (depth < 2 and rng.random() < 0.3):
                    parts.append(f"{n}: {self.value(f.type, depth + 1)}")
            return "{" + ", ".join(parts) + "}"
        if isinstance(t, GraphQLScalarType):
            return {"Int": "1", "Float": "1.5", "String": rng.choice(['"s"', '"a # b"', '"""block "quoted" \n text"""', '"{x}"', '"é日本🎉"']),
                    "Boolean": "true", "ID": '"id"'}.get(t.name, '"custom"')
        raise AssertionError(t)

    def literal(self, t):
        allow, self.allow_vars = self.allow_vars, False
        v = self.value(t)
        self.allow_vars = allow
        return v

    def arguments(self, field):
        parts = []
        for n, a in field.args.items():
            if is_required_argument(a) or self.rng.random() < 0.5:
                parts.append(f"{n}: {self.value(a.type)}")
        return "(" + ", ".join(parts) + ")" if parts else ""

    def comment(self):
        r = self.rng
        return r.choice(["# note", "# {", "# }", "#import \"late.graphql\"", "# ...Foo", "#", "# \"quote"])

    def sep(self, indent):
        r = self.rng.random()
        pad = "  " * indent
        if r < 0.08:
            return " " + self.comment() + "\n" + pad
        if r < 0.14:
            return ",\n" + pad
        if r < 0.2:
            return "\n\n" + pad
        if r < 0.3 and self.rng.random() < 0.5:
            return " "
        return "\n" + pad

    def selection_set(self, parent, depth, fragments, spreads, indent=1):
        """parent: a GraphQL composite type."""
        width = self.width
        self.width *= len(self.sc.possible(parent))
        made = self.selections(parent, depth, fragments, spreads, indent)
        self.width = width
        return made

    def selections(self, parent, depth, fragments, spreads, indent):
        rng, p = self.rng, self.p
        items = []
        fields = dict(getattr(parent, "fields", {}) or {})
        names = list(fields)
        want = rng.randint(1, 4 if depth > 0 else 3)
        if self.deep:
            want = pick(rng, [(1, 8), (2, 1)])
            deeper = [n for n in names if is_composite_type(get_named_type(fields[n].type))]
            names = deeper if depth > 0 and deeper and rng.random() < 0.9 else names
        elif self.wide and rng.random() < 0.5:
            if rng.random() < 0.9:
                names = [n for n in names if is_leaf_type(get_named_type(fields[n].type))] or names
            want = rng.randint(4, 50 if depth == self.depth or depth < 2 else 12) if len(names) < 75 else rng.randint(20, len(names))
        if is_abstract_type(parent) and depth > 0 and rng.random() < p.alternatives:
            items = self.alternatives(parent, depth, fragments, spreads, indent)
            if items:
                return "{ " + "\n".join(items) + " }"
        if depth == self.depth and rng.random() < p.alternatives:
            want, names = 1, [n for n in names if is_abstract_type(get_named_type(fields[n].type))] or names
        if not isinstance(parent, GraphQLUnionType):
            for n in rng.sample(names, min(len(names), want)):
                items += self.field(parent, n, fields[n], depth, fragments, spreads, indent)
            if items and names and rng.random() < 0.12:  # select something again
                n = rng.choice(names)
                items += self.field(parent, n, fields[n], depth, fragments, spreads, indent)
        if rng.random() < (0.5 if is_abstract_type(parent) else 0.15):
            items.append(rng.choice(["__typename", "__typename", "__typename", "kindName: __typename"]))
        n_inline = pick(rng, [(0, 3), (1, 3), (2, 3), (3, 1)]) if is_abstract_type(parent) else pick(rng, [(0, 9), (1, 1)])
        if self.deep:
            n_inline = min(n_inline, int(rng.random() < 0.3))
        if depth > 0:
            candidates = [t for t in self.schema.type_map.values()
                          if is_composite_type(t) and not t.name.startswith("__") and do_types_overlap(self.schema, parent, t)]
            for _ in range(n_inline):
                t = rng.choice(candidates)
                items.append(f"... on {t.name}{self.directive()} " + self.selection_set(t, depth - 1, fragments, spreads, indent + 1))
            if is_abstract_type(parent) and rng.random() < (0.03 if self.deep else p.similar):
                items += self.similar(parent, depth, fragments, spreads, indent)
            if isinstance(parent, GraphQLInterfaceType) and depth > 1 and rng.random() < p.narrowed:
                items += self.narrowed(parent, depth, fragments, spreads, indent)
            if not self.deep and rng.random() < p.same_paths:
                items += self.same_paths(parent)
            usable = [f for f in fragments if (not self.deep or self.width < 3) and do_types_overlap(self.schema, parent, self.schema.type_map[f.on])]
            many = self.crowd and depth == self.depth
            for f in rng.sample(usable, min(len(usable), rng.randint(1, 30) if many else pick(rng, [(0, 4), (1, 4), (2, 2)]))):
                items.append(f"...{f.name}{self.directive()}")
                if f not in spreads:
                    spreads.append(f)
        if not items:
            items.append("__typename")
        rng.shuffle(items)
        out = "{"
        for item in items:
            out += self.sep(indent) + item
        return out + "\n" + "  " * (indent - 1) + "}"

    def alternatives(self, parent, depth, fragments, spreads, indent):
        rng = self.rng
        types = list(self.sc.possible(parent))
        nested = [n for n in (types[0].fields if types else ()) if all(n in t.fields and is_composite_type(get_named_type(t.fields[n].type)) for t in types)]
        if len(types) < 2 or not nested:
            return []
        n, odd = rng.choice(nested), rng.choice(types)
        bodies = {}
        items = []
        for t in types:
            key = t is odd or str(t.fields[n].type)
            if key not in bodies:
                bodies[key] = self.field(t, n, t.fields[n], depth - 1, fragments, spreads, indent + 1)
            body = list(bodies[key])
            leaves = [f for f in t.fields if is_leaf_type(get_named_type(t.fields[f].type))]
            if t is odd and leaves:
                f = rng.choice(leaves)
                body += self.field(t, f, t.fields[f], 0, fragments, spreads, indent)
            if not body:
                return []
            items.append(f"... on {t.name} {{ " + "\n".join(body) + " }")
        rng.shuffle(items)
        return items

    def similar(self, parent, depth, fragments, spreads, indent):
        """Selections which are almost the same on several of the possible types"""
        rng = self.rng
        types = self.sc.possible(parent)
        types = rng.sample(types, min(len(types), rng.randint(2, 5) if len(types) < 60 else rng.randint(2, len(types))))
        if not types:
            return []
        names = sorted({n for t in types for n in t.fields})
        shared = rng.sample(names, min(len(names), rng.randint(1, 3) if len(names) < 75 else rng.randint(1, 70)))
        nested = [n for n in names if any(n in t.fields and is_composite_type(get_named_type(t.fields[n].type)) for t in types)]
        if nested and rng.random() < 0.4:
            shared = [rng.choice(nested)]
        templates = {}
        churn = rng.choice([0.05, 0.2, 0.45])
        items = []
        for t in types:
            body = []
            for n in shared:
                if n not in t.fields or rng.random() < 0.12:
                    continue
                key = (n, str(t.fields[n].type))
                if key not in templates or rng.random() < churn:
                    templates[key] = self.field(t, n, t.fields[n], depth - 1, fragments, spreads, indent + 1)
                body += templates[key]
            if rng.random() < 0.3:
                body.append("__typename")
            if body:
                items.append(f"... on {t.name} {{ " + "\n".join(body) + " }")
        return items

    def plain(self, t):
        """Selects what can not conflict"""
        names = [n for n, f in getattr(t, "fields", {}).items() if not f.args and is_leaf_type(get_named_type(f.type))]
        return "{ " + " ".join(["__typename"] * (not names or self.rng.random() < 0.2) + self.rng.sample(names, min(len(names), self.rng.randint(1, 3)))) + " }"

    def narrowed(self, parent, depth, fragments, spreads, indent):
        """A field selected on an interface and on something that implements it with a narrower type"""
        rng = self.rng
        options = [(n, t) for t in self.sc.schema.type_map.values() if t is not parent and parent in getattr(t, "interfaces", ())
                   for n, f in parent.fields.items() if is_composite_type(get_named_type(f.type)) and get_named_type(f.type) is not get_named_type(t.fields[n].type)
                   and re.sub(r"\w", "", str(f.type)) == re.sub(r"\w", "", str(t.fields[n].type))]
        if not options:
            return []
        n, t = rng.choice(options)
        alias = rng.choice(["", "", f"{n}Both: "])
        call = alias + n + self.arguments(parent.fields[n]) + " "
        wide, narrow = (get_named_type(x.fields[n].type) for x in (parent, t))
        sets = [self.plain(x) if rng.random() < 0.8 else self.selection_set(x, depth - 1, fragments, spreads, indent + 1) for x in (wide, narrow)]
        return [call + sets[0], f"... on {t.name} {{ {call}{sets[1]} }}"]

    def same_paths(self, parent):
        """Different selections whose paths are the same when joined by underscores"""
        rng = self.rng
        outer = [n for n, f in getattr(parent, "fields", {}).items() if is_composite_type(get_named_type(f.type))]
        if not outer:
            return []
        n, other = rng.choice(outer), rng.choice(outer)
        t, u = (get_named_type(parent.fields[x].type) for x in (n, other))
        inner = [x for x, f in getattr(t, "fields", {}).items() if is_composite_type(get_named_type(f.type))]
        first, second = (rng.choice(["a", "left", "item_", "_of", "page"]) + str(rng.randrange(100)) for _ in range(2))
        items = []
        if is_abstract_type(t) and (not inner or rng.random() < 0.4):
            types = self.sc.possible(t)
            if not types:
                return []
            second = rng.choice(types).name
            items.append(f"{first}: {n}{self.arguments(parent.fields[n])} {{ ... on {second} {self.plain(self.schema.type_map[second])} ...on {t.name} {{ __typename }} }}")
        elif inner:
            m = rng.choice(inner)
            body = f"{second}: {m}{self.arguments(t.fields[m])} {self.plain(get_named_type(t.fields[m].type))}"
            items.append(f"{first}: {n}{self.arguments(parent.fields[n])} {{ {body} }}")
        items.append(f"{first}_{second}: {other}{self.arguments(parent.fields[other])} {self.plain(u)}")
        return items

    def field(self, parent, name, field, depth, fragments, spreads, indent):
        rng, p = self.rng, self.p
        named = get_named_type(field.type)
        alias = ""
        r = rng.random()
        composite = is_composite_type(named)
        if r < p.swap_alias:
            others = [n for n in getattr(parent, "fields", {}) if n != name]
            if others:
                alias = rng.choice(others) + ": "
        elif r < p.swap_alias + 0.15:
            base = name
            alias = base + rng.choice(["Alias", "Two", "X9"])
            if composite and rng.random() < p.snake:
                alias = rng.choice(SNAKE)
            if rng.random() < p.long_names:
                alias = rng.choice(LONG) + rng.choice(["", "2"])
            elif rng.random() < p.twins:
                alias = twin(rng, base) or alias
            alias += ": "
        args = self.arguments(field)
        if composite:
            if depth <= 0 or self.deep and self.width * len(self.sc.possible(named)) > 30:
                return []
            return [f"{alias}{name}{args}{self.directive(True)} " + self.selection_set(named, depth - 1, fragments, spreads, indent + 1)]
        return [f"{alias}{name}{args}{self.directive(True)}"]

    def operation(self, kind, name, fragments):
        rng = self.rng
        root = {"query": self.schema.query_type, "mutation": self.schema.mutation_type,
                "subscription": self.schema.subscription_type}[kind]
        spreads = []
        self.variables = {}
        self.allow_vars = rng.random() < self.p.variables
        self.begin()
        if kind == "subscription":
            names = list(root.fields)
            body = None
            for _ in range(10):
                n = rng.choice(names)
                items = self.field(root, n, root.fields[n], self.depth, fragments, spreads, 2)
                if items:
                    body = "{ " + items[0] + " }"
                    break
            if body is None:
                return None
        else:
            body = self.selection_set(root, self.depth, fragments, spreads)
            sinks = [n for n in root.fields if n.startswith("sink")]
            if sinks and rng.random() < 0.9:
                extra = []
                for n in rng.sample(sinks, rng.randint(1, len(sinks))):
                    t = str(root.fields[n].args["v"].type)
                    var = rng.choice(WORDS) + rng.choice(["", "2", "_x", "Id", "Var", "_" + rng.choice(WORDS)])
                    if var in self.variables:
                        continue
                    default = None
                    if not t.endswith("!") and rng.random() < 0.3:
                        t += "!"
                    elif rng.random() < 0.25:
                        default = self.literal(root.fields[n].args["v"].type)
                        if t.endswith("!") and rng.random() < 0.3:
                            t = t[:-1]
                    self.variables[var] = (t, default)
                    extra.append(f"s_{n}: {n}(v: ${var})")
                body = body[:-1].rstrip() + "\n  " + "\n  ".join(extra) + "\n}"
        decls = ""
        if self.variables:
            parts = [f"${n}: {t}" + (f" = {d}" if d is not None else "") for n, (t, d) in self.variables.items()]
            rng.shuffle(parts)
            decls = "(" + rng.choice([", ", "\n  ", ",\n  "]).join(parts) + ")"
        return f"{kind}{' ' + name if name else ''}{decls}{self.directive()} {body}", spreads

    def fragment(self, name, fragments):
        rng = self.rng
        self.variables, self.allow_vars = {}, False
        self.begin()
        composites = [t for t in self.schema.type_map.values() if is_composite_type(t) and not t.name.startswith("__")]
        t = rng.choice(composites)
        spreads = []
        body = self.selection_set(t, max(1, self.depth - 1), fragments, spreads)
        return f"fragment {name} on {t.name}{self.directive()} {body}", spreads, t.name


RULES = [r for r in specified_rules if r is not NoUnusedFragmentsRule]


def definition_text(doc):
    return doc.body


def combined(doc):
    """The document a client would send: the definition and all of the fragments it imports."""
    return "\n".join([doc.body] + [d.body for d in doc.closure()])


def combined_ast(doc):
    return parse(combined(doc), no_location=True)


def is_valid(schema, doc):
    try:
        return not validate(schema, parse(combined(doc)), RULES)
    except (RecursionError, GraphQLSyntaxError):
        return False


DIRS = ["", "", "a", "b", "a/c", "b/c", "a/c/b/c", "deep/er/st", "with space", "dot.dir", "ünï", "x.graphql"]


def relative_spelling(rng, from_path, to_path, prefix, simple):
    """A way to import to_path from from_path, both relative to the root."""
    from_dir = os.path.dirname(from_path)
    rel = os.path.relpath(to_path, from_dir or ".")
    if not rel.startswith("."):
        rel = "./" + rel
    choices = [(to_path, 3), (rel, 3)]
    if to_path.startswith("."):
        choices = [(rel, 3)]
    if prefix and not simple:
        choices.append((prefix + to_path, 4))
    elif prefix:
        choices.append((prefix + to_path, 2))
    if not simple:
        if "/" in rel:
            choices.append((rel.replace("./", ".//", 1) if rel.startswith("./") else "./" + rel, 1))
        d = os.path.dirname(to_path)
        if d and not to_path.startswith("."):
            choices.append((d + "/../" + d.split("/")[-1] + "/" + os.path.basename(to_path), 1))
    if prefix:
        choices = [(s, w) for s, w in choices if s.startswith(prefix + to_path) or not s.startswith(prefix)]
    return pick(rng, choices)


def import_header(rng, lines):
    out = []
    noise = ["", "# a comment", "#comment", "   ", "#import without quote", "# import \"nope.graphql\"", "#IMPORT \"x\"", "\t"]
    for line in lines:
        while rng.random() < 0.2:
            out.append(rng.choice(noise))
        out.append(line + rng.choice(["", "", "", ";", " ", " # trailing"]))
    while rng.random() < 0.2:
        out.append(rng.choice(noise))
    return "".join(l + "\n" for l in out)


def namesake(rng, schema, used):
    """What an enum or input object is called, or what the types of a document of that name would share with it"""
    from graphql import GraphQLEnumType, GraphQLInputObjectType
    names = sorted(n for n, t in schema.type_map.items() if isinstance(t, (GraphQLEnumType, GraphQLInputObjectType)) and not n.startswith("__"))
    name = rng.choice(names or [""])
    if name.endswith("Variables"):
        name = name[:-len("Variables")]
    elif "_" in name[1:] and rng.random() < 0.5:
        name = name[:name.rindex("_")]
    return None if name in used or name in RESERVED or not name.strip("_") else name


class Project:
    """A schema and a tree of documents below one root directory."""

    def __init__(self):
        self.docs = []
        self.prefix = None

    @property
    def fragments(self):
        return [d for d in self.docs if d.is_fragment]

    def files(self):
        return {d.path: d.text for d in self.docs}


def place(rng, used, stem):
    while True:
        d = rng.choice(DIRS)
        name = stem + rng.choice(["", ".x", "-1", " 2", "_y"]) + ".graphql"
        if used and rng.random() < 0.2:
            name = os.path.basename(rng.choice(sorted(used)))
            if rng.random() < 0.3:
                name = "index.graphql"
        path = os.path.join(d, name)
        if path not in used:
            used.add(path)
            return path


def large_schema(rng):
    """Types with very many fields, and unions and interfaces with very many types"""
    many = rng.sample([f"{w}{k}" for w in ("col", "Row", "total_", "x") for k in range(60)], rng.randint(80, 200))
    kinds = {n: rng.choice(["Int", "String!", "[Float]", "[ID!]!", "Kind", "Boolean"]) for n in many}
    few = rng.sample(many, 6)
    sdl = ["enum Kind { A B C }", "interface Common { " + " ".join(f"{n}: {kinds[n]}" for n in few[:4]) + " }"]
    names = [f"Type{k}" for k in range(rng.randint(65, 120))]
    for k, name in enumerate(names):
        own = [n for n in many if rng.random() < 0.95] if k < 4 else rng.sample(few, rng.randint(1, 4))
        own = list(dict.fromkeys(few[:4] + own))
        sdl.append(f"type {name} implements Common {{ " + " ".join(f"{n}: {kinds[n]}" for n in own) + " }")
    sdl += ["union All = " + " | ".join(rng.sample(names, len(names))), "union Wide = " + " | ".join(names[:4]),
            "type Query { all: All! wide: [Wide!] one: Type0 two: Type1! common: Common commons: [Common!]! }"]
    return SchemaCase("\n".join(sdl))


class Large(Profile):
    wide = 0.5
    max_depth = 2
    fragments = (0, 1)
    documents = (2, 3)
    similar = 0.8
    alternatives = 0
    swap_alias = 0
    twins = 0


def make_project(rng, profile, schema_case=None, prefix="random"):
    if schema_case is None and issubclass(profile if isinstance(profile, type) else type(profile), Large):
        schema_case = large_schema(rng)
    pr = Project()
    pr.sc = schema_case or make_schema(rng, profile)
    if prefix == "random":
        pr.prefix = rng.choice([None, None, "@/", "~", "src/", "root:"])
    else:
        pr.prefix = prefix
    gen = DocGen(rng, profile, pr.sc)
    used = set()
    n_frag = rng.randint(*profile.fragments)
    if profile.fragments[1] and rng.random() < profile.crowd:
        n_frag = rng.randint(15, 40)
        gen.crowd = True
    fragments = []
    for i in range(n_frag):
        for _ in range(8):
            name = rng.choice(["Frag", "frag", "On", "Bits", "_F"]) + str(i) + rng.choice(["", "Part"])
            if rng.random() < profile.odd_names:
                name = rng.choice([n for n in NAMES if n not in [f.name for f in fragments]])
            if rng.random() < profile.namesakes:
                name = namesake(rng, pr.sc.schema, [f.name for f in fragments]) or name
            # mostly spread recent fragments, to get deep chains
            visible = [f for f in fragments if rng.random() < (0.1 if gen.crowd else 0.6) and not (gen.crowd and f.spreads)]
            text, spreads, on = gen.fragment(name, visible)
            doc = finish_doc(rng, pr, place(rng, used, name), "fragment", name, text, spreads, profile, on)
            if is_valid(pr.sc.schema, doc):
                fragments.append(doc)
                pr.docs.append(doc)
                break
    kinds = ["query"]
    if pr.sc.schema.mutation_type:
        kinds.append("mutation")
    if pr.sc.schema.subscription_type:
        kinds.append("subscription")
    for i in range(rng.randint(*profile.documents)):
        for _ in range(8):
            kind = pick(rng, [(k, 6 if k == "query" else 2) for k in kinds])
            name = None if rng.random() < 0.07 else rng.choice(["Get", "list", "My", "_Do"]) + str(i) + rng.choice(["Query", "Op", "Thing"])
            if name and rng.random() < profile.odd_names:
                name = rng.choice(NAMES)
            if name and rng.random() < profile.namesakes:
                name = namesake(rng, pr.sc.schema, ()) or name
            made = gen.operation(kind, name, fragments)
            if made is None:
                continue
            text, spreads = made
            doc = finish_doc(rng, pr, place(rng, used, name or "anon%d" % i), kind, name, text, spreads, profile)
            if is_valid(pr.sc.schema, doc):
                doc.variables = dict(gen.variables)
                pr.docs.append(doc)
                break
    if not pr.docs and n_frag + profile.documents[1]:
        return make_project(rng, profile, schema_case, prefix)
    return pr


def finish_doc(rng, pr, path, kind, name, body, spreads, profile, on=None):
    doc = Doc(path, kind, name, None, spreads, on)
    doc.body = body
    doc.imports = list(spreads)
    many = 0.7 if len(pr.fragments) > 12 and rng.random() < 0.4 else 0.1
    extra = [f for f in pr.fragments if f not in spreads and rng.random() < many]
    doc.imports += extra
    rng.shuffle(doc.imports)
    lines, doc.import_pairs = [], []
    for d in doc.imports:
        for _ in range(2 if rng.random() < 0.05 else 1):
            lines.append(f'#import "{relative_spelling(rng, path, d.path, pr.prefix, profile.simple_paths)}"')
            doc.import_pairs.append((lines[-1], d))
    doc.import_lines = lines
    doc.header = import_header(rng, lines)
    if rng.random() < profile.long_files:
        shape = rng.choice(["# and so on", "#", "", "# {"])
        header = doc.header.split("\n")[:-1]
        at = rng.randint(0, len(header))
        header[at:at] = [shape] * rng.choice([40, 70, 130, 300, 520, 1000, 1100, 1100, 10200])
        doc.header = "\n".join(header) + "\n"
    doc.text = doc.header + rng.choice(["", "", "\n", "# doc\n"]) + body + rng.choice(["", "\n", "\n\n"])
    style = rng.random()
    if style < 0.08:
        doc.text = doc.text.replace("\n", "\r\n" if style < 0.065 else "\r")
    if rng.random() < 0.04:
        doc.text = "\ufeff" + doc.text
    return doc
