"""Descriptions and deprecations are carried over to the right place."""
import re

from graphql import GraphQLEnumType

from ..flow import Compiled, Options, generate
from ..gen import Profile
from ..model import Comparer

LEVEL = "exploration"
TECHNIQUE = "reference-model monitor over documentation comments"
NOTE = "Comments that TypeScript attaches to each property are compared with the schema's descriptions and deprecations. Sampled inputs."
BUDGET = {"quick": (500, 60), "thorough": (20000, 780)}
RULE = ("A case is a random schema whose elements have descriptions with a unique word each and deprecations, and a tree of valid "
        "documents, compiled by the real qlc. An evaluation compares the comment of every property of one module, as TypeScript "
        "attaches it, with the schema's description and deprecation of the selected field. Non-trivial: some property has a comment; "
        "distinct by module.")
ASSUMPTIONS = ["where a property stands for fields of several types at once, it carries the documentation of one of them",
               "comment delimiters in descriptions are dropped (their containment is C05)"]
MUST_OBSERVE = ["documented", "deprecated", "both", "neither", "enums", "input_fields", "deprecated_input_fields", "lines"]


class P(Profile):
    descriptions = 0.6
    deprecated = 0.3
    sinks = 3
    similar = 0.4


def parse_comment(comments):
    """(the words before tags or None, whether it's deprecated), or None if it's malformed."""
    if not comments:
        return None, False
    if len(comments) > 1:
        return "several comments", False
    text = comments[0]
    if not text.startswith("/**"):
        return "not a documentation comment", False
    lines = [re.sub(r"^\s*\*? ?", "", l) for l in text[3:-2].split("\n")]
    deprecated = any(l.strip() == "@deprecated" or l.strip().startswith("@deprecated ") for l in lines)
    words = " ".join(l for l in lines if not l.strip().startswith("@deprecated")).split()
    return (" ".join(words) if words else None), deprecated


def words(description):
    if description is None or not description.split():
        return None
    return " ".join(description.split())


def matches(comments, candidates):
    got = parse_comment(comments)
    return any(got == (words(d), dep) for d, dep in candidates)


def case(ctx, rng, index, out):
    project = generate(rng, P)
    options = Options(rng)
    with ctx.scratch() as root:
        c = Compiled(ctx, project, root, options)
        if c.run.code != 0:
            out.count(not_compiled=1)
        for doc in project.docs:
            module = c.module(doc)
            if module is None:
                if c.run.code == 0:
                    out.violation("no-module", f"{doc.path}: a run that succeeded wrote no module", **c.details(doc))
                continue
            comparer = Comparer(c.operation(doc), module, options.scalars, not options.readonly_off)
            errors = comparer.data(doc.data_name)
            if errors:
                # What the properties are is another property's matter (C02), but those that could not be paired
                # with what they stand for cannot be judged here.
                out.count(unpaired=1)
            some = False
            for (oid, name), candidates in comparer.candidates.items():
                prop = [p for p in comparer.objects[oid]["props"] if p["name"] == name][0]
                some = some or bool(prop["doc"])
                d, dep = parse_comment(prop["doc"])
                out.count(documented=int(d is not None), deprecated=int(dep), both=int(dep and d is not None),
                          neither=int(d is None and not dep), lines="".join(prop["doc"]).count("\n"))
                if not matches(prop["doc"], candidates):
                    out.violation("wrong-documentation", f"{doc.path}: {name} has the comment {prop['doc']} but the schema says {sorted(candidates, key=str)}",
                                  **c.details(doc))
            out.ran((doc.text, c.text(doc)) if some else None)
            for tname, t in module.types.items():
                # the first declaration comes after the header comment
                stray = [x for x in t["doc"] if x.startswith("/**")]
                if stray:
                    out.violation("stray-documentation", f"{doc.path}: the type {tname} has the comment {stray}", **c.details(doc))
                vars_name = doc.data_name + "Variables"
                if tname == vars_name and t["type"]["k"] == "obj" and any(p["doc"] for p in t["type"]["props"]):
                    out.violation("stray-documentation", f"{doc.path}: a variable has a comment", **c.details(doc))
        g = c.globals
        if g is None:
            return
        text = c.outputs["graphql-globals.ts"]
        out.ran(text if "/**" in text else None)
        for n, e in g["enums"].items():
            t = project.sc.schema.type_map.get(n)
            if not isinstance(t, GraphQLEnumType):
                continue
            comments = [x for x in e["doc"] if x.startswith("/**")]
            out.count(enums=1, documented=int(bool(comments)))
            if not matches(comments, {(t.description, False)}):
                out.violation("wrong-documentation", f"the enum {n} has the comment {comments} but the schema says {t.description!r}", globals=text, **c.details())
            if any(m["doc"] for m in e["members"]):
                # Documenting enum values is not promised, but what there is has to be right
                for m in e["members"]:
                    v = t.values.get(m["name"])
                    if m["doc"] and v and not matches(m["doc"], {(v.description, v.deprecation_reason is not None), (v.description, False)}):
                        out.violation("wrong-documentation", f"the enum value {n}.{m['name']} has the comment {m['doc']}", globals=text, **c.details())
        for n, t in g["types"].items():
            stray = [x for x in t["doc"] if x.startswith("/**")]
            declared = getattr(project.sc.schema.type_map.get(n), "fields", None)
            if declared is None or t["type"]["k"] != "obj":
                continue
            if stray and not matches(stray, {(project.sc.schema.type_map[n].description, False)}):
                out.violation("stray-documentation", f"the type {n} has the comment {stray}", globals=text, **c.details())
            for p in t["type"]["props"]:
                f = declared.get(p["name"])
                if f is None:
                    continue
                out.count(input_fields=1, deprecated_input_fields=int(f.deprecation_reason is not None), documented=int(bool(p["doc"])))
                if not matches(p["doc"], {(f.description, f.deprecation_reason is not None)}):
                    out.violation("wrong-documentation", f"{n}.{p['name']} has the comment {p['doc']} but the schema says {f.description!r}",
                                  globals=text, **c.details())
        out.sample(globals=text[:600])
