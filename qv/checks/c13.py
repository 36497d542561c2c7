"""Warnings are exactly the deprecated uses and dead spreads of the file itself."""
import collections
import os
import re

from graphql import FieldNode, FragmentSpreadNode, InlineFragmentNode, is_composite_type, get_named_type, is_required_argument

from ..common import write_tree
from ..flow import generate
from ..gen import Profile, relative_spelling
from ..mutate import Source, insert, position, with_import
from ..work import outputs, prefix_args, run_qlc, write_project

LEVEL = "exploration"
TECHNIQUE = "reference-model monitor over printed warnings"
NOTE = ("The exact multiset of warnings with their places is computed from graphql-core's schema and compared with what the compiler prints; "
        "modules and exit status are compared between paired runs. Sampled documents and deprecations.")
BUDGET = {"quick": (420, 60), "thorough": (20000, 780)}
RULE = ("A case is a random schema with many deprecated fields and a tree of valid documents into which spreads that can not match are "
        "inserted. It is compiled with and without deprecation warnings and, for comparison, before those insertions. An evaluation is one "
        "document, whose warnings (kind, field or type, line and column) must be exactly those the reference model derives from its own "
        "text. Non-trivial: at least one warning is due; distinct by document text.")
ASSUMPTIONS = ["no tab stands before a selection in its line"]
MUST_OBSERVE = ["deprecated", "dead", "dead_named", "dead_nested", "foreign_deprecated", "without_any", "runs"]


class P(Profile):
    deprecated = 0.4
    fragments = (0, 4)
    documents = (1, 4)
    max_depth = 4


class Few(P):
    deprecated = 0.05


def dead_spread(rng, s, doc, project):
    """Inserts a spread which shares no possible type with its parent"""
    place = rng.choice(s.places)
    if rng.random() < 0.4:
        options = [f for f in project.fragments if f is not doc and f not in doc.closure() and doc not in f.closure()
                   and not (s.possible(s.schema.type_map[f.on]) & place.reach)]
        if options:
            f = rng.choice(options)
            at = rng.choice(place.node.selections).loc.end
            text = insert(s.text, at, f"\n  ...{f.name}\n")
            return with_import(rng, text, relative_spelling(rng, doc.path, f.path, project.prefix, True))[0], f
    types = [t for t in s.schema.type_map.values() if is_composite_type(t) and not t.name.startswith("__") and not (s.possible(t) & place.reach)]
    if not types:
        return None
    t = rng.choice(types)
    fields = getattr(t, "fields", {})
    leaves = [n for n, f in fields.items() if not is_composite_type(get_named_type(f.type)) and not any(is_required_argument(a) for a in f.args.values())]
    body = rng.choice(["__typename"] + [n for n in leaves])
    if rng.random() < 0.3:
        body += f" ... on {t.name} {{ __typename }}"
    at = rng.choice(place.node.selections).loc.end
    return insert(s.text, at, f"\n  ... on {t.name} {{ {body} }}\n"), None


def due(s, fragments, deprecations):
    """The warnings a document is to have: [(message, {line: columns})]"""
    out = []
    for node, place in s.items:
        if isinstance(node, FieldNode):
            if deprecations and node.name.value != "__typename":
                f = place.parent.fields[node.name.value]
                if f.deprecation_reason is not None:
                    out.append((f"use of deprecated field `{node.name.value}` on type `{place.parent.name}`", (node.loc.start, node.name.loc.start)))
        elif isinstance(node, InlineFragmentNode):
            name = node.type_condition.name
            if not (s.possible(s.schema.type_map[name.value]) & place.reach):
                out.append((f"fragment over narrowing with type `{name.value}`", (node.loc.start, name.loc.start)))
        elif isinstance(node, FragmentSpreadNode):
            on = fragments[node.name.value]
            if not (s.possible(s.schema.type_map[on]) & place.reach):
                out.append((f"fragment over narrowing with type `{on}`", (node.loc.start, node.name.loc.start)))
    return out


def case(ctx, rng, index, out):
    project = generate(rng, rng.choice([P, P, Few]))
    schema = project.sc.schema
    with ctx.scratch() as top:
        root = os.path.join(top, "root")
        write_project(root, project)
        base_args = [root] + prefix_args(project)
        base = run_qlc(ctx, base_args)
        base_out = outputs(root)
        texts = {d.path: d.text for d in project.docs}
        dead = 0
        for doc in project.docs:
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                made = dead_spread(rng, Source(schema, texts[doc.path]), doc, project)
                if made:
                    texts[doc.path] = made[0]
                    dead += 1
                    if made[1] is not None:
                        doc.imports.append(made[1])
        write_tree(root, texts)
        fragments = {d.name: d.on for d in project.fragments}
        seen = {}
        for flag in ([], ["--show-deprecation-warnings"]):
            run = run_qlc(ctx, base_args + flag)
            seen[bool(flag)] = run, outputs(root)
            facts = dict(arguments=run and base_args + flag, run=run.brief(), files=texts, schema=project.sc.sdl)
            if base.code == 0 and run.code != 0:
                out.violation("failed-by-warning", f"exit status {run.code} with spreads that can not match, 0 without", **facts)
                return
            if run.code != 0:
                out.count(not_compiled=1)
                return
            if seen[bool(flag)][1] != base_out:
                changed = [p for p in set(base_out) | set(seen[bool(flag)][1]) if base_out.get(p) != seen[bool(flag)][1].get(p)]
                out.violation("module-changed", f"{changed[:3]} change by {'the flag' if flag and seen[False][1] == base_out else 'spreads that can not match'}",
                              before={p: base_out.get(p) for p in changed[:2]}, after={p: seen[bool(flag)][1].get(p) for p in changed[:2]}, **facts)
                return
            got = collections.defaultdict(list)
            for d in run.report.warnings:
                got[os.path.relpath(d.path, root) if d.path else None].append(d)
            for doc in project.docs:
                text = texts[doc.path]
                s = Source(schema, text)
                expected = due(s, fragments, bool(flag))
                mine = got.pop(doc.path, [])
                foreign = sum(any(f.deprecation_reason is not None for f in getattr(p.parent, "fields", {}).values())
                              for i in doc.closure() for p in Source(schema, i.text).places) if flag else 0
                out.ran((text, bool(flag)) if expected else None, runs=1, deprecated=sum(m.startswith("use of") for m, _ in expected),
                        dead=sum(m.startswith("fragment") for m, _ in expected), without_any=int(not expected),
                        dead_named=sum(isinstance(n, FragmentSpreadNode) and not (s.possible(schema.type_map[fragments[n.name.value]]) & p.reach) for n, p in s.items),
                        dead_nested=sum(not p.reach for p in s.places), foreign_deprecated=foreign)
                left = list(mine)
                for message, (start, end) in expected:
                    line, first = position(text, start)
                    line2, last = position(text, end)
                    hit = next((d for d in left if d.message == message and d.line == line and first <= d.column <= (last if line == line2 else 10**6)), None)
                    if hit is None:
                        out.violation("missing-warning", f"{doc.path}: no warning '{message}' at {line}:{first} {'with' if flag else 'without'} "
                                      f"deprecation warnings: {[repr(d) for d in left][:3]}", file=doc.path, text=text, **facts)
                        return
                    left.remove(hit)
                if left:
                    out.violation("stray-warning", f"{doc.path}: {left[0]!r} {'with' if flag else 'without'} deprecation warnings",
                                  file=doc.path, text=text, **facts)
                    return
                if expected:
                    out.sample(file=doc.path, expected=[m for m, _ in expected][:4], printed=[repr(d)[:120] for d in mine][:4])
            if got:
                out.violation("stray-warning", f"warnings about {list(got)[:3]}", **facts)
                return
