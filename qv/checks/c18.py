"""No undefined behaviour or data race in any execution."""
import concurrent.futures
import json
import os
import re

from .. import build
from ..common import BASE_ENV, execute, snapshot, write_tree
from ..flow import generate
from ..gen import Profile, SchemaCase, make_project
from ..mutate import mutate
from ..work import Report, outputs, prefix_args, run_qlc
from .c10 import graph, mangle, nesting, odd_shapes, odd_values

LEVEL = "exploration"
TECHNIQUE = "Miri, ThreadSanitizer and AddressSanitizer over schedules and hostile inputs"
NOTE = ("The real compiler with its libraries runs in Miri (undefined behaviour, data races, deadlocks, leaks; random schedules), and, with "
        "an instrumented standard library, under ThreadSanitizer with delays injected at its yield points and under AddressSanitizer on hostile "
        "inputs. Sampled executions.")
BUDGET = {"quick": (90, 70), "thorough": (20000, 720)}
RULE = ("An evaluation is one run of the compiler in Miri (small schema, 1 to 5 threads, random seed and preemption rate), under ThreadSanitizer "
        "(a tree of documents, 2 to 16 threads, random delays) or under AddressSanitizer (documents and schemas damaged as for C10). Any report, "
        "a signal, a panic or a deadlock is a violation, and in Miri and under ThreadSanitizer the modules and messages must be those of an "
        "uninstrumented run. Distinct by project, instrument, seed and threads.")
ASSUMPTIONS = ["Miri's model of the file system and threads", "AddressSanitizer does not look for leaks, Miri does"]
MUST_OBSERVE = ["miri", "tsan", "asan", "miri_errors", "miri_threads", "tsan_threads", "asan_hostile"]
CHUNK = 1

REPORTS = re.compile(r"Undefined Behavior|ThreadSanitizer|AddressSanitizer|LeakSanitizer|deadlock|memory leaked|unsafe precondition|panicked at|"
                     r"abnormal termination|data race|stack overflow|has overflowed its stack", re.I)
UNSUPPORTED = re.compile(r"unsupported operation|resource exhaustion|can't call foreign function|not available when isolation")

SMALL = ["""
enum Kind { A B }
input Filter { kind: Kind, and: [Filter!], not: Filter }
scalar Date
interface Node { id: ID! }
type User implements Node { id: ID! name: String @deprecated kind: Kind friends(by: Filter): [User!]! at: Date pet: Pet }
type Cat implements Node { id: ID! lives: Int }
type Dog implements Node { id: ID! name: String! owner: User }
union Pet = Cat | Dog
type Query { user(id: ID): User node: Node pets: [[Pet!]] }
type Mutation { rename(id: ID!, to: String, by: Filter): User }
""", """
enum Color { RED GREEN }
type Query { a: Int b: Query color: Color list: [Query!]! }
""", """
interface A { x: Int a: A }
interface B { x: Int y: String }
type M implements A & B { x: Int a: A y: String }
type N implements A { x: Int a: A n: [Int!]! @deprecated(reason: "old") }
type Query { a: A b: [B] m(v: [Int!]): M }
type Subscription { a: A }
"""]


class Small(Profile):
    fragments = (1, 3)
    documents = (1, 3)
    max_depth = 2
    wide = deep = crowd = 0


class Tree(Profile):
    fragments = (2, 8)
    documents = (4, 14)
    max_depth = 3


class Hostile(Profile):
    fragments = (0, 4)
    documents = (1, 3)
    max_depth = 3


def setup(ctx):
    with concurrent.futures.ThreadPoolExecutor() as pool:
        jobs = {"tsan": pool.submit(build.sanitized, "thread"), "asan": pool.submit(build.sanitized, "address"), "miri": pool.submit(build.miri)}
        for name, job in jobs.items():
            ctx.shared[name] = job.result()


READ = {"data", "__schema", "types", "kind", "name", "fields", "type", "ofType", "enumValues", "possibleTypes", "inputFields", "queryType", "mutationType",
        "subscriptionType", "isDeprecated", "description"}


def stripped(x):
    """The interpreter takes its time with what the compiler does not look at."""
    if isinstance(x, dict):
        return {k: stripped(v) for k, v in x.items() if k in READ and v is not None and v is not False
                and not (isinstance(v, dict) and str(v.get("name")).startswith("__"))}
    if isinstance(x, list):
        return [stripped(v) for v in x if not (isinstance(v, dict) and str(v.get("name")).startswith("__"))]
    return x


def broken(rng, project, tree, times):
    for _ in range(times):
        m = mutate(rng, project)
        if m:
            tree.update(m.files)
            tree[m.doc.path] = m.text


def judge(out, kind, run, facts):
    text = run.err + run.out
    if run.hang:
        out.violation(f"{kind}-hang", f"{kind}: did not end", **facts)
        return False
    if kind == "miri" and UNSUPPORTED.search(run.err) and "Undefined Behavior" not in run.err:
        out.count(miri_unsupported=1)
        return False
    m = REPORTS.search(run.err)
    if m or run.code not in (0, 1, 2):
        where = text.find(m.group(0)) if m else 0
        out.violation(f"{kind}-{m.group(0).lower() if m else 'exit'}", f"{kind} run ended with {run.code}: {text[max(0, where - 100):where + 900]}", **facts)
        return False
    return True


def clean(root, sources):
    for p in set(snapshot(root)) - sources:
        p = os.path.join(root, p)
        if os.path.isfile(p):
            os.remove(p)


def paired(ctx, out, kind, root, args, top, repeats):
    """Runs which must do what an uninstrumented one does"""
    sources = set(snapshot(root))
    plain = run_qlc(ctx, args, cwd=top)
    def keys(report):
        # the interpreter words them differently
        return [re.sub(r"`: .*?\(os error.*?'", "`: <error of the system>'", k) for k in report.keys()]
    expected = (plain.code, keys(plain.report), outputs(root))
    for run, facts, signature in repeats:
        clean(root, sources)
        r = run()
        facts = dict(facts, run=r.brief(), files={p: c[1].decode("utf-8", "replace") for p, c in snapshot(root).items() if p in sources and c[0] == "file"})
        out.ran((kind,) + signature, **{kind: 1, f"{kind}_errors": int(plain.code != 0), f"{kind}_threads": int(facts["threads"] > 1)})
        if not judge(out, kind, r, facts):
            return
        got = (r.code, keys(Report(r.out)), outputs(root))
        if got != expected:
            what = [n for n, a, b in zip(("exit status", "messages", "modules"), got, expected) if a != b]
            out.violation(f"{kind}-differs", f"{kind}: other {what} than without instrumentation", plain=plain.brief(), **facts)
            return
        out.sample(kind=kind, threads=facts["threads"], exit=r.code, documents=len([p for p in sources if p.endswith(".graphql")]))


def miri_case(ctx, rng, index, out):
    argv, env = ctx.shared["miri"]
    project = make_project(rng, Small, schema_case=SchemaCase(rng.choice(SMALL)))
    tree = project.files()
    style = rng.choice(["valid", "valid", "mistakes", "bytes", "graph"])
    if style == "mistakes":
        broken(rng, project, tree, 3)
    elif style == "bytes":
        for p in rng.sample(list(tree), rng.randint(1, len(tree))) if tree else []:
            tree[p] = mangle(rng, tree[p].encode())
    elif style == "graph" and project.docs:
        tree = dict(list(graph(rng, project)[0].items())[:8])
    schema = stripped(project.sc.introspection)
    if rng.random() < 0.1:
        schema = odd_shapes(rng, schema)
    with ctx.scratch() as top:
        root = os.path.join(top, "root")
        write_tree(root, {**tree, "schema.json": json.dumps(schema)})
        threads = rng.choice([1, 2, 3, 5])
        args = [root, "--num-threads", str(threads)] + prefix_args(project) + rng.choice([[], ["--show-deprecation-warnings"], ["--use-custom-scalars"]])
        seed, rate = rng.randrange(10**6), rng.choice(["0.01", "0.05", "0.2", "0.6"])
        flags = f"-Zmiri-disable-isolation -Zmiri-seed={seed} -Zmiri-preemption-rate={rate}" + rng.choice(["", "", " -Zmiri-tree-borrows", " -Zmiri-symbolic-alignment-check"])
        full = {**env, "MIRIFLAGS": flags}

        def run():
            return execute(argv + ["--no-color"] + args, cwd=top, env=full, wall=200, cpu=150)
        paired(ctx, out, "miri", root, args, top, [(run, dict(flags=flags, threads=threads, style=style), (index, seed, threads))])


def sanitized_env(rng):
    return {"QLC_VERIF_DELAY": f"{rng.randrange(1 << 30)}:{rng.choice([5, 20, 50])}:{rng.choice([20, 200, 1500])}", "RUST_MIN_STACK": str(64 << 20),
            "TSAN_OPTIONS": "halt_on_error=1 exitcode=66", "ASAN_OPTIONS": "detect_leaks=0 detect_stack_use_after_return=1"}


def tsan_case(ctx, rng, index, out):
    project = generate(rng, Tree)
    tree = project.files()
    if rng.random() < 0.4:
        broken(rng, project, tree, 4)
    for i in range(rng.choice([0, 0, 10, 60])):
        tree[f"many{rng.choice(['', '/x', '/y/z'])}/t{i}.graphql"] = f"query T{i} {{ __typename }}"
    with ctx.scratch() as top:
        root = os.path.join(top, "root")
        write_tree(root, {**tree, "schema.json": json.dumps(project.sc.introspection)})
        for i in range(rng.choice([0, 0, 20])):
            os.makedirs(os.path.join(root, f"empty{i % 3}/" * (i % 4 + 1)), exist_ok=True)
        repeats = []
        base = [root] + prefix_args(project) + (["--show-deprecation-warnings"] if rng.random() < 0.5 else [])
        for n in range(14):
            threads = rng.choice([2, 3, 4, 8, 16])
            env = sanitized_env(rng)

            def run(threads=threads, env=env):
                return execute([ctx.shared["tsan"], "--no-color"] + base + ["--num-threads", str(threads)], cwd=top, env=env)
            repeats.append((run, dict(env=env, threads=threads), (index, n, threads)))
        paired(ctx, out, "tsan", root, base, top, repeats)


def asan_case(ctx, rng, index, out):
    project = generate(rng, Hostile)
    base = project.sc.introspection
    for n in range(24):
        style = rng.choice(["bytes", "bytes", "schema_bytes", "schema_values", "schema_shapes", "graphs", "nesting", "mistakes", "valid"])
        tree, schema = project.files(), json.dumps(base).encode()
        if style == "bytes":
            for p in rng.sample(list(tree), rng.randint(1, len(tree))):
                tree[p] = mangle(rng, tree[p].encode())
        elif style == "schema_bytes":
            schema = mangle(rng, schema)
        elif style == "schema_values":
            schema = json.dumps(odd_values(rng, base)).encode()
        elif style == "schema_shapes":
            schema = json.dumps(odd_shapes(rng, base)).encode()
        elif style == "graphs":
            tree, _ = graph(rng, project)
        elif style == "nesting":
            tree = nesting(rng, project)
        elif style == "mistakes":
            broken(rng, project, tree, 4)
        with ctx.scratch() as top:
            root = os.path.join(top, "root")
            write_tree(root, {**tree, "schema.json": schema})
            args = [root] + prefix_args(project) + ["--num-threads", str(rng.choice([1, 2, 8]))]
            args += [f for f in ("--use-custom-scalars", "--disable-readonly-types", "--show-deprecation-warnings") if rng.random() < 0.3]
            r = execute([ctx.shared["asan"], "--no-color"] + args, cwd=top, env=sanitized_env(rng))
            out.ran(("asan", index, n, style), asan=1, asan_hostile=int(style not in ("valid", "mistakes")))
            if not judge(out, "asan", r, dict(style=style, arguments=args[1:], files=tree, schema=schema.decode("utf-8", "replace") if style.startswith("schema") else project.sc.sdl, run=r.brief())):
                return


def case(ctx, rng, index, out):
    kind = [miri_case, tsan_case, asan_case][index % 3]
    kind(ctx, rng, index, out)
