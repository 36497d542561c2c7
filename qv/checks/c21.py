"""A schema from the download helper compiles like the canonical introspection."""
import json
import os
import re

from graphql import get_introspection_query, graphql_sync

from ..common import REPO, execute as run_process, write_file, write_tree
from ..flow import Options, generate
from ..gen import Profile, SchemaCase, make_schema
from ..httpd import Server, response
from ..mutate import mutate
from ..work import outputs, prefix_args, run_qlc

LEVEL = "exploration"
TECHNIQUE = "differential monitor over paired runs"
NOTE = ("The helper from the working tree downloads random schemas from a server which executes its query with graphql-core; qlc compiles the same "
        "documents with that file and with the result of graphql-core's introspection query. Files and diagnostics have to be the same. Sampled.")
BUDGET = {"quick": (300, 70), "thorough": (12000, 780)}
RULE = ("An evaluation is a pair of runs of the real qlc over one project (random schema of all kinds of types, with descriptions, deprecations, "
        "default values and lists up to three deep; valid documents, and some with a mistake), once with what bin/qlc-download-schema wrote and once with "
        "the canonical introspection result. Non-trivial: at least one file or diagnostic; distinct by schema and documents.")
ASSUMPTIONS = ["the server executes queries as graphql-core does", "lists are nested up to three deep", "the canonical query leaves out deprecated input values, as by default"]
MUST_OBSERVE = ["modules", "deprecation_warnings", "deep_types", "errors", "globals", "descriptions", "abstract", "inputs", "custom_roots"]


class P(Profile):
    max_list = 3
    descriptions = 0.5
    deprecated = 0.3
    documents = (1, 4)
    fragments = (0, 3)
    sinks = 3
    custom_roots = 0.4
    global_leaves = 0.5




DEEP = re.compile(r"\[\[\[\w+!\]!\]!\]!")


def deepen(rng, sdl):
    """Some fields of the deepest type that is covered"""
    lines = []
    for line in sdl.split("\n"):
        m = re.match(r"^(type|input) \w+ \{$", line) or re.match(r"^(type|input) \w+ implements .* \{$", line)
        lines.append(line)
        if m and rng.random() < 0.4:
            lines.append("  veryDeep: " + rng.choice(["[[[Int!]!]!]!", "[[[String]!]!]!", "[[[ID!]!]!]", "[[[Boolean]]]"]))
    return "\n".join(lines)


def case(ctx, rng, index, out):

    profile = P
    sc = make_schema(rng, profile)
    if rng.random() < 0.6:
        sc = SchemaCase(deepen(rng, sc.sdl))
    project = generate(rng, profile, schema_case=sc)
    files = project.files()
    mutations = []
    if rng.random() < 0.4:
        m = mutate(rng, project, rng.choice(project.docs))
        if m is not None:
            mutations.append(m.kind)
            files.update(m.files)
            files[m.doc.path] = m.text
    canonical_query = get_introspection_query(specified_by_url=rng.random() < 0.5, directive_is_repeatable=rng.random() < 0.5, schema_description=rng.random() < 0.5)
    canonical = json.dumps({"data": graphql_sync(sc.schema, canonical_query).data})
    asked = []

    def answer(q, n):
        asked.append(q)
        result = graphql_sync(sc.schema, json.loads(q.body)["query"])
        body = {"data": result.data}
        if result.errors:
            body["errors"] = [e.formatted for e in result.errors]
        return [response(json.dumps(body, ensure_ascii=rng.random() < 0.5).encode(), framing=rng.choice(["length", "chunked"]), pieces=[5000] * 500)[0]]

    with ctx.scratch() as top:
        args = ["root"] + prefix_args(project) + Options(rng).args + ["--show-deprecation-warnings"] * (rng.random() < 0.7)
        facts = dict(arguments=args, files=files, schema=sc.sdl, mutations=mutations)
        seen = []
        for kind in ("canonical", "helper"):
            base = os.path.join(top, kind)
            root = os.path.join(base, "root")
            os.makedirs(root)
            write_tree(root, files)
            if kind == "canonical":
                write_file(os.path.join(root, "schema.json"), canonical)
            else:
                with Server(answer) as server:
                    got = run_process(["node", os.path.join(REPO, "pkg/npm/bin/qlc-download-schema"), f"http://127.0.0.1:{server.port}/graphql", "root/schema.json"], cwd=base)
                if got.code != 0 or not os.path.exists(os.path.join(root, "schema.json")):
                    out.violation("download-failed", f"the helper ends with exit status {got.code}", helper=got.brief(), **facts)
                    return
            run = run_qlc(ctx, args, cwd=base)
            if run.crashed:
                out.violation("crash", f"exit status {run.code}", run=run.brief(), kind=kind, **facts)
                return
            seen.append({"files": outputs(root), "messages": run.report.keys(), "summary": sorted(run.report.summaries), "exit": run.code, "stderr": run.err,
                         "stray": run.report.stray})
        canonical_run, helper_run = seen
        c = canonical_run
        used = "".join(c["files"].values())
        out.ran((sc.sdl, sorted(map(repr, files.items()))) if c["files"] or c["messages"] else None, modules=len([p for p in c["files"] if p.endswith(".d.ts")]),
                globals=int("graphql-globals.ts" in c["files"]), deprecation_warnings=sum("warning:" in m for m in c["messages"]),
                errors=sum("error:" in m for m in c["messages"]), deep_types=int(bool(DEEP.search(sc.sdl))), descriptions=int("/**" in used),
                abstract=sum("... on" in d.text for d in project.docs), inputs=int("Input" in used), custom_roots=int("QueryRoot" in sc.sdl))
        if canonical_run != helper_run:
            different = [k for k in c if c[k] != helper_run[k]]
            what = {}
            for k in different:
                if k == "files":
                    names = [p for p in sorted(set(c[k]) | set(helper_run[k])) if c[k].get(p) != helper_run[k].get(p)]
                    what[k] = {p: [c[k].get(p), helper_run[k].get(p)] for p in names[:3]}
                else:
                    what[k] = [c[k], helper_run[k]]
            out.violation("other-" + different[0], f"compiling with the downloaded schema gives other {different}: {str(what)[:900]}", differences=what,
                          query=asked[0].body.decode() if asked else None, **facts)
            return
        out.sample(types=len(sc.schema.type_map), files=len(c["files"]), messages=len(c["messages"]), arguments=args)
