"""Every document in the tree is compiled exactly once, and nothing else is touched."""
import collections
import os
import re
import socket

from ..common import snapshot, write_file
from ..gen import SchemaCase
from ..work import output_of, run_qlc
import json

LEVEL = "exploration"
TECHNIQUE = "trace and file-system monitors over perturbed schedules"
NOTE = ("Random trees are compiled under many thread counts and injected delays; before/after snapshots, diagnostics and the worker event "
        "log are checked. Schedules are sampled, not enumerated.")
BUDGET = {"quick": (260, 60), "thorough": (20000, 780)}
RULE = ("A case is a random directory tree (nested and wide directories, directories with document names, links to files, directories and "
        "ancestors, fifos, sockets, lookalike names, stale outputs, valid and invalid documents, fragments), and an evaluation is one run "
        "of the hooked qlc on it with a thread count and random delays at its yield points, after which the tree is compared with what it "
        "was, every valid document must have its module and every invalid one exactly one diagnostic. Non-trivial: more than one thread "
        "and at least two documents; distinct by tree and by the order in which threads ran the work (from the event log).")
ASSUMPTIONS = ["no other process changes the tree during the run"]
MUST_OBSERVE = ["runs", "modules", "invalid", "links", "specials", "events", "wide", "deep", "empty", "hard_links", "huge"]
FROM_HOOKS = ["events"]

SDL = """
enum Kind { A B }
input Filter { kind: Kind, and: [Filter!] }
type User { id: ID! name: String kind: Kind friends(by: Filter): [User!]! }
type Query { user(id: ID): User users: [User!] }
type Mutation { rename(id: ID!, to: String): User }
"""


def setup(ctx):
    ctx.shared["introspection"] = json.dumps(SchemaCase(SDL).introspection)


class Tree:
    def __init__(self, rng, huge=False):
        self.rng, self.huge = rng, huge
        self.dirs = [""]
        self.files = {}
        self.links = {}
        self.special = {}
        self.valid = {}
        self.invalid = {}
        self.n = 0
        self.kinds = set()
        self.uses_globals = False

    def add_dirs(self):
        rng = self.rng
        style = self.style = "huge" if self.huge else rng.choice(["small", "small", "bushy", "deep", "wide", "chainy", "empty", "flat"])
        self.kinds.add(style)
        names = ["a", "b", "src", "node_modules", "x.graphql", ".hidden", "with space", "é", "__generated__", "d.ts", "{}", "-x"]
        target = {"small": 4, "bushy": 40, "deep": 0, "wide": 90, "chainy": 25, "empty": rng.choice([0, 6]), "flat": 0,
                  "huge": rng.choice([0, 0, 300, 1300])}[style]
        if style == "deep":
            d = ""
            for _ in range(rng.randint(10, 70)):
                d = os.path.join(d, rng.choice(names))
                self.dirs.append(d)
        for i in range(target):
            parent = "" if style in ("wide", "huge") else (self.dirs[-1] if style == "chainy" and rng.random() < 0.8 else rng.choice(self.dirs))
            d = os.path.join(parent, rng.choice(names) + (str(i) if rng.random() < 0.7 else ""))
            if d not in self.dirs:
                self.dirs.append(d)
        return style

    def free(self, path):
        return path not in self.files and path not in self.dirs and path not in self.links and path not in self.special

    def add(self):
        rng = self.rng
        style = self.add_dirs()
        count = {"small": rng.randint(1, 8), "bushy": 30, "deep": 12, "wide": rng.choice([5, 120]), "chainy": rng.randint(1, 30), "empty": 0,
                 "flat": rng.randint(2, 40), "huge": rng.choice([600, 1100, 2200, 4300])}[style]
        fragments = []
        for _ in range(count):
            d = self.dirs[-1] if style == "chainy" and rng.random() < 0.4 else "" if style == "huge" and rng.random() < 0.9 else rng.choice(self.dirs)
            self.n += 1
            stem = rng.choice(["doc", "Query", "a.b", "sp ace", "ü", "x.graphql", "--flag", ".dot"]) + str(self.n)
            path = os.path.join(d, stem + ".graphql")
            if not self.free(path):
                continue
            name = f"D{self.n}"
            r = rng.random()
            if r < 0.2:
                text = f"fragment {name} on User {{ id name }}"
                fragments.append((path, name))
                self.valid[path] = name
            elif r < 0.35:
                # exactly one mistake each, so exactly one diagnostic
                text = rng.choice([f"query {name} {{ user {{ id nope }} }}", f"query {name} {{ user }}", f"query {name} {{ user {{ id ", "{ user { id } }",
                                   f"query {name} {{ user {{ ...Missing }} }}", f"fragment {name} on Nothing {{ id }}", b"query \xff\xfe { user }",
                                   f"query {name}($v: Nope) {{ user {{ id }} }}", "", "# only a comment\n", f"query {name} {{ users {{ id }} }} query B {{ users {{ id }} }}"])
                self.invalid[path] = text
            elif r < 0.5 and fragments:
                fpath, fname = rng.choice(fragments)
                text = f'#import "{fpath if not fpath.startswith(".") else "./" + os.path.relpath(fpath, d or ".")}"\nquery {name} {{ users {{ ...{fname} }} }}'
                self.valid[path] = name
            elif r < 0.65:
                text = f"mutation {name}($f: Filter) {{ rename(id: 1) {{ kind friends(by: $f) {{ id }} }} }}"
                self.valid[path] = name
                self.uses_globals = True
            else:
                text = f"query {name} {{ users {{ id friends {{ name }} }} }}"
                self.valid[path] = name
            self.files[path] = text
        self.hard_links = {}
        for _ in range(rng.choice([0, 0, 1, 3]) if self.files else 0):
            target = rng.choice(list(self.files))
            self.n += 1
            path = os.path.join(rng.choice([rng.choice(self.dirs), os.path.dirname(target)]), f"hard{self.n}.graphql")
            if self.free(path) and "#import" not in str(self.files[target]):
                self.hard_links[path] = target
                self.files[path] = self.files[target]
                for known in (self.valid, self.invalid):
                    if target in known:
                        known[path] = known[target]
        for _ in range(rng.randint(0, 5)):
            d = rng.choice(self.dirs)
            name = rng.choice(["notes.txt", "a.graphql.d.ts", "b.graphql.bak", "c.graphqls", "d.gql", "E.GRAPHQL", ".graphql", "graphql", "f.graphql~", "old.ts", "x.d.ts", "y.graphql.ts"])
            path = os.path.join(d, name)
            if self.free(path):
                self.files[path] = rng.choice(["query Wrong { nope }", "", "text", "query Fine { users { id } }"])
        for i in range(rng.choice([0, 0, 1, 3])):
            d = rng.choice(self.dirs)
            target = rng.choice([".", "..", "../outside", rng.choice(self.dirs) or ".", "missing", "/nonexistent/x.graphql", "OUTSIDE", "OUTSIDE/o.graphql"] + list(self.files)[:3])
            path = os.path.join(d, rng.choice([f"link{i}", f"link{i}.graphql"]))
            if self.free(path):
                self.links[path] = target
        if rng.random() < 0.25:
            d = rng.choice(self.dirs)
            path = os.path.join(d, rng.choice(["pipe.graphql", "sock.graphql", "pipe2.graphql"]))
            if self.free(path):
                self.special[path] = "socket" if "sock" in path else "fifo"

    def create(self, root, outside, schema_rel):
        order = list(self.dirs)
        for d in order:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        items = list(self.files.items())
        self.rng.shuffle(items)
        for p, t in items:
            write_file(os.path.join(root, p), t)
        for p, t in self.hard_links.items():
            while t in self.hard_links:
                t = self.hard_links[t]
            os.unlink(os.path.join(root, p))
            os.link(os.path.join(root, t), os.path.join(root, p))
        for p, t in self.links.items():
            os.symlink(t.replace("OUTSIDE", outside), os.path.join(root, p))
        here = os.getcwd()
        for p, kind in self.special.items():
            if kind == "fifo":
                os.mkfifo(os.path.join(root, p))
            else:
                s = socket.socket(socket.AF_UNIX)
                try:
                    os.chdir(os.path.join(root, os.path.dirname(p)))
                    s.bind(os.path.basename(p))
                except OSError:
                    pass
                finally:
                    os.chdir(here)
                    s.close()
        write_file(os.path.join(outside, "o.graphql"), "query Outside { users { id } }")
        write_file(os.path.join(outside, "sub/p.graphql"), "query Outside2 { users { id } }")


def entry(root, path):
    full = os.path.join(root, path)
    st = os.lstat(full)
    return (st.st_mode, st.st_ino, st.st_mtime_ns if not os.path.isdir(full) or os.path.islink(full) else 0)


def observe(root):
    result = {}
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            rel = os.path.relpath(os.path.join(base, n), root)
            result[rel] = entry(root, rel)
    return result


def case(ctx, rng, index, out):
    tree = Tree(rng, index % 65 == 31)
    tree.add()
    with ctx.scratch() as top:
        root, outside = os.path.join(top, "root"), os.path.join(top, "outside")
        os.makedirs(root)
        schema = os.path.join(top, "schema.json") if rng.random() < 0.5 else os.path.join(root, "schema.json")
        tree.create(root, outside, schema)
        write_file(schema, ctx.shared["introspection"])
        out.count(links=len(tree.links), hard_links=len(tree.hard_links), specials=len(tree.special), invalid=len(tree.invalid), wide=int("wide" in tree.kinds),
                  deep=int("deep" in tree.kinds), huge=int(tree.huge), empty=int("empty" in tree.kinds))
        expected_new = {output_of(p) for p in tree.valid}
        if tree.uses_globals:
            expected_new.add("graphql-globals.ts")
        runs = 2 if tree.huge else 12 if ctx.thorough else 7
        for n in range(runs):
            for p in expected_new:
                if p not in tree.files and os.path.lexists(os.path.join(root, p)):
                    os.remove(os.path.join(root, p))
            before, before_outside = observe(root), snapshot(outside)
            before_content = snapshot(root)
            threads = rng.choice([1, 2, 2, 3, 4, 8, 8, 16, 33, None])
            env = {}
            log = os.path.join(top, f"log{n}")
            env["QLC_VERIF_LOG"] = log
            if rng.random() < 0.75:
                env["QLC_VERIF_DELAY"] = f"{rng.randrange(10**6)}:{rng.choice([3, 20, 60])}:{rng.choice([20, 300, 1500]) if len(tree.files) < 60 else rng.choice([20, 100])}"
            spelling = rng.choice(["abs", "abs/", "rel", "dot", "none"])
            args = {"abs": [root], "abs/": [root + "/"], "rel": ["root"], "dot": ["."], "none": []}[spelling]
            cwd = root if spelling in ("dot", "none") else top
            args = args + ["-s", schema] + (["--num-threads", str(threads)] if threads else [])
            run = run_qlc(ctx, args, cwd=cwd, env=env)
            events = []
            if os.path.exists(log):
                with open(log, encoding="utf-8", errors="replace") as f:
                    events = [l.rstrip("\n").split("\t") for l in f]
                os.remove(log)
            names = {}
            order = "".join(names.setdefault(e[0], chr(65 + len(names) % 50)) + e[1][0] for e in events if len(e) == 3)
            out.ran((index, order) if threads != 1 and len(tree.files) > 1 else None, runs=1, events=len(events), modules=len(tree.valid),
                    delayed=int("QLC_VERIF_DELAY" in env), threads_that_worked=len({e[0] for e in events if e[1:2] == ["run"]}))
            facts = dict(arguments=args, threads=threads, env=env, run=run.brief(), files=tree.files, dirs=tree.dirs, links=tree.links,
                         special=tree.special)
            if run.hang:
                out.violation("hang", "the run did not end", **facts)
                return
            if run.crashed:
                out.violation("crash", f"exit status {run.code}", **facts)
                return
            after = observe(root)
            problems = []
            missing = expected_new - set(after)
            if missing:
                problems.append(("missing-module", f"not written: {sorted(missing)[:5]}"))
            surplus = set(after) - set(before) - expected_new
            if surplus:
                problems.append(("stray-file", f"created: {sorted(surplus)[:5]}"))
            gone = set(before) - set(after)
            if gone:
                problems.append(("stray-change", f"removed: {sorted(gone)[:5]}"))
            changed = [p for p in before if p in after and p not in expected_new and before[p] != after[p]]
            if changed:
                problems.append(("stray-change", f"changed: {changed[:5]}"))
            after_content = snapshot(root)
            changed = [p for p in before_content if p not in expected_new and before_content[p] != after_content.get(p)]
            if changed:
                problems.append(("stray-change", f"changed: {changed[:5]}"))
            if snapshot(outside) != before_outside:
                problems.append(("stray-change", "changed something outside of the root"))
            for p, name in tree.valid.items():
                kind, content = after_content.get(output_of(p), (None, b""))
                if kind == "file" and not re.search(rf"export type {name} = ".encode(), content):
                    problems.append(("wrong-module", f"{output_of(p)} is not the module of {name}"))
            # one diagnostic for every invalid document
            named = collections.Counter()
            for d in run.report.errors:
                if d.path is not None:
                    named[os.path.relpath(os.path.join(cwd, d.path), root)] += 1
                else:
                    for p in re.findall(r"`([^`]*)`", d.message):
                        named[os.path.relpath(os.path.join(cwd, p), root)] += 1
            for p in tree.invalid:
                if named[p] != 1:
                    problems.append(("wrong-reports", f"{named[p]} errors name {p}, which has one mistake"))
            if len(run.report.errors) != len(tree.invalid):
                problems.append(("wrong-reports", f"{len(run.report.errors)} errors for {len(tree.invalid)} invalid documents"))
            if (run.code == 1) != bool(tree.invalid):
                problems.append(("wrong-exit", f"exit status {run.code} with {len(tree.invalid)} invalid documents"))
            ran = {}
            for e in events:
                if len(e) == 3 and e[1] == "run" and e[2].endswith('.graphql"'):
                    ran[e[2]] = ran.get(e[2], 0) + 1
            twice = [p for p, k in ran.items() if k > 1]
            if twice:
                problems.append(("compiled-twice", f"compiled more than once: {twice[:3]}"))
            for signature, message in problems[:2]:
                out.violation(signature, message, **facts)
            if problems:
                return
        out.sample(dirs=len(tree.dirs), documents=len(tree.valid), invalid=len(tree.invalid), threads=threads, schedule=order[:120])
