"""Output is a deterministic function of the inputs."""
import copy
import json
import os
import time

from ..common import write_file, write_tree
from ..flow import Options, generate
from ..gen import Profile
from ..mutate import mutate
from ..work import outputs, prefix_args, run_qlc

LEVEL = "exploration"
TECHNIQUE = "differential trace monitor over schedules, hash seeds and input orders"
NOTE = ("Every case is compiled by several processes with different thread counts, injected delays, hash seeds (per process), directory entry "
        "orders and schema orders; all bytes written and all diagnostics must agree. Schedules and orders are sampled.")
BUDGET = {"quick": (210, 60), "thorough": (20000, 780)}
RULE = ("A case is a random project, usually with mistakes and deprecated fields in it, compiled by one process and then again by several, each "
        "with another thread count, delays at the worker pool's yield points, another order of creating files, another order of everything "
        "the schema lists, or over existing outputs (its own, or what a run with other options, schema or documents left, or that padded or "
        "cut). An evaluation is one such pair: equal file bytes, multiset of diagnostics, summary and "
        "exit status. Non-trivial: something was written or reported; distinct by inputs and schedule.")
ASSUMPTIONS = ["the hash seed differs between processes, as in the standard library"]
MUST_OBSERVE = ["pairs", "with_diagnostics", "with_globals", "shuffled_schema", "delayed", "threads", "over_existing", "created_in_other_order",
                "over_other_options", "over_other_schema", "over_other_documents", "over_longer", "over_shorter"]


class P(Profile):
    deprecated = 0.3
    fragments = (0, 5)
    documents = (1, 6)


SURROUNDINGS = {
    "LANG": ["C", "de_DE.UTF-8", "tr_TR.UTF-8", "ja_JP.eucJP"], "LC_ALL": ["C", "en_US.UTF-8", "tr_TR"], "TZ": ["UTC", "Asia/Kolkata", "Pacific/Apia"],
    "HOME": ["/nonexistent", "/", ""], "USER": ["root", "nobody", "ünï"], "COLUMNS": ["1", "20", "400"], "PWD": ["/", "/tmp"], "CI": ["true", "1"], "NODE_ENV": ["production", "test"],
    "RUST_LOG": ["trace"], "RUST_BACKTRACE": ["1", "full"], "PATH": ["/nonexistent"], "TMPDIR": ["/nonexistent"], "SOURCE_DATE_EPOCH": ["0", "1700000000"], "RUST_MIN_STACK": ["8000000"],
}


class Wide(P):
    """Many interchangeable things"""
    big = 0.8
    similar = 0.6
    global_leaves = 0.7


def shuffled(rng, value, key=None):
    """The same schema with everything in another order. The order of types within a list type or of arguments does not matter either."""
    if isinstance(value, list):
        out = [shuffled(rng, v) for v in value]
        rng.shuffle(out)
        return out
    if isinstance(value, dict):
        items = [(k, shuffled(rng, v, k)) for k, v in value.items()]
        rng.shuffle(items)
        return dict(items)
    return value


def undocumented(value):
    """Another schema, for the same documents: without what describes its parts"""
    if isinstance(value, list):
        return [undocumented(v) for v in value]
    if isinstance(value, dict):
        return {k: None if k == "description" else undocumented(v) for k, v in value.items()}
    return value


def leave_outputs(ctx, rng, out, top, root, project, files, args):
    """What earlier runs with other inputs, or anyone else, have left where modules are to be written"""
    how = rng.choice(["options", "schema", "documents", "longer", "shorter"])
    old = dict(files)
    introspection = project.sc.introspection
    if how == "options":
        args = ["root"] + prefix_args(project) + rng.choice([["--disable-readonly-types"], ["--use-custom-scalars"], ["--use-custom-scalars", "--custom-scalar-prefix", "Old"],
                                                             ["--typed-graphql-documentnode-module-name", "elsewhere"], []])
    elif how == "schema":
        introspection = undocumented(introspection)
    elif how == "documents":
        for doc in project.docs:
            root_type = project.sc.schema.query_type.name
            if rng.random() < 0.5:
                old[doc.path] = f"fragment {doc.name} on {root_type} {{ __typename }}" if doc.is_fragment else f"query {doc.name or ''} {{ __typename }}"
    write_tree(root, {**old, "schema.json": json.dumps(introspection)})
    run_qlc(ctx, args, cwd=top)
    if how in ("longer", "shorter"):
        for p in outputs(root):
            with open(os.path.join(root, p), "a") as f:
                if how == "longer":
                    f.write("\n// more\n" * 500)
                else:
                    f.truncate(rng.randint(0, 60))
    out.count(**{("over_" if how in ("longer", "shorter") else "over_other_") + how: 1})


def observation(root, run):
    return {"files": outputs(root), "messages": run.report.keys(), "summary": sorted(run.report.summaries), "exit": run.code, "stderr": run.err,
            "stray": run.report.stray}


def case(ctx, rng, index, out):
    project = generate(rng, rng.choice([P, Wide]))
    introspection = project.sc.introspection
    files = project.files()
    mutations = []
    if rng.random() < 0.6:
        for doc in rng.sample(project.docs, rng.randint(1, min(3, len(project.docs)))):
            m = mutate(rng, project, doc)
            if m is not None:
                mutations.append(m)
                files.update(m.files)
                files[m.doc.path] = m.text
    args = ["root"] + prefix_args(project) + Options(rng).args
    if rng.random() < 0.6:
        args.append("--show-deprecation-warnings")
    facts = dict(arguments=args, files=files, schema=project.sc.sdl, mutations=[m.kind for m in mutations])
    first = None
    for n in range(8 if ctx.thorough else 6):
        with ctx.scratch() as top:
            root = os.path.join(top, "root")
            os.makedirs(root)
            order = list(files.items())
            schema = introspection
            env, extra = {}, []
            if n:
                if rng.random() < 0.7:
                    rng.shuffle(order)
                    out.count(created_in_other_order=1)
                if rng.random() < 0.6:
                    schema = shuffled(rng, copy.deepcopy(introspection))
                    out.count(shuffled_schema=1)
                if rng.random() < 0.6:
                    env["QLC_VERIF_DELAY"] = f"{rng.randrange(10**6)}:{rng.choice([5, 30, 70])}:{rng.choice([50, 500, 2000])}"
                    out.count(delayed=1)
                if rng.random() < 0.7:
                    extra = ["--num-threads", str(rng.choice([1, 1, 2, 3, 4, 8, 16, 40]))]
                    out.count(threads=1)
                if rng.random() < 0.4:
                    # What a program may look at, but has no business here
                    env.update({k: rng.choice(v) for k, v in SURROUNDINGS.items() if rng.random() < 0.6})
                    out.count(surroundings=1)
            left = {}
            if n and rng.random() < 0.4:
                leave_outputs(ctx, rng, out, top, root, project, files, args)
                left = outputs(root)
            for p, t in order:
                write_file(os.path.join(root, p), t)
            write_tree(root, {"schema.json": json.dumps(schema)})
            if n and rng.random() < 0.5:
                when = time.time() + rng.choice([-10**6, -3600, 0, 3600])
                for p in list(files) + ["schema.json"]:
                    os.utime(os.path.join(root, p), (when, when))
            run = run_qlc(ctx, args + extra, cwd=top, env=env)
            if run.crashed:
                out.violation("crash", f"exit status {run.code}", run=run.brief(), **facts)
                return
            seen = observation(root, run)
            if n and rng.random() < 0.5:
                # again over what was written
                before = {p: os.stat(os.path.join(root, p)).st_size for p in seen["files"]}
                out.count(over_existing=1)
                again = observation(root, run_qlc(ctx, args + extra, cwd=top, env=env))
                if again != seen:
                    different = [k for k in seen if seen[k] != again[k]]
                    out.violation("rerun-differs", f"running again gives other {different}", first={k: seen[k] for k in different},
                                  again={k: again[k] for k in different}, sizes=before, **facts)
                    return
            if first is None:
                first = seen
                out.count(with_diagnostics=int(bool(seen["messages"])), with_globals=int("graphql-globals.ts" in seen["files"]))
                continue
            out.ran((index, n, env, extra) if seen["files"] or seen["messages"] else None, pairs=1)
            expected = {**first, "files": {**left, **first["files"]}}
            if seen != expected:
                different = [k for k in seen if seen[k] != expected[k]]
                what = {}
                for k in different:
                    if k == "files":
                        names = [p for p in set(seen[k]) | set(expected[k]) if seen[k].get(p) != expected[k].get(p)]
                        what[k] = {p: [expected[k].get(p), seen[k].get(p)] for p in names[:3]}
                    else:
                        what[k] = [first[k], seen[k]]
                signature = "other-" + different[0] + ("-by-schema-order" if schema is not introspection else "")
                out.violation(signature, f"another run gives other {different}: {str(what)[:700]}", differences=what, env=env, threads=extra, **facts)
                return
    out.sample(files=sorted(first["files"]), messages=len(first["messages"]), threads=extra, env=env)
