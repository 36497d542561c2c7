"""A module depends only on its document, its imports, the schema and options."""
import json
import os

from ..common import write_tree
from ..flow import Options, generate
from ..gen import Profile, make_project
from ..mutate import mutate
from ..work import output_of, outputs, prefix_args, run_qlc

LEVEL = "exploration"
TECHNIQUE = "metamorphic trace monitor over sub-trees and edits"
NOTE = ("Modules from a whole tree are compared with those from just a document and its imports, from the tree with other files added, and "
        "from the tree after files outside of the import closure were edited, broken or deleted, under random schedules. Sampled.")
BUDGET = {"quick": (260, 60), "thorough": (20000, 780)}
RULE = ("A case is a random project compiled whole, then: single documents with only the files they transitively import; the tree with "
        "unrelated valid and invalid files added (also ones with the same fragment names); the tree with one file changed, broken or "
        "deleted, in a new place or over the existing outputs. An evaluation compares one document's module of such a run with that of the "
        "whole tree, byte for byte, and looks for all globals that it needs. Non-trivial: the sets of files differ; distinct by document and files.")
ASSUMPTIONS = ["only modules of documents that do not transitively import an edited file are compared after the edit"]
MUST_OBSERVE = ["alone", "with_others", "after_edit", "after_break", "after_delete", "over_existing", "with_imports", "delayed", "globals"]


class P(Profile):
    fragments = (0, 5)
    documents = (1, 5)


def closure_files(doc):
    return {d.path: d.text for d in [doc] + doc.closure()}


class Runner:
    def __init__(self, ctx, rng, project, options, out):
        self.ctx, self.rng, self.project, self.options, self.out = ctx, rng, project, options, out
        self.schema = json.dumps(project.sc.introspection)

    def run(self, files, root=None):
        if root is None:
            with self.ctx.scratch() as root:
                return self.run(files, root)
        write_tree(root, {**files, "schema.json": self.schema})
        env, args = {}, [root] + prefix_args(self.project) + self.options.args
        if self.rng.random() < 0.4:
            env["QLC_VERIF_DELAY"] = f"{self.rng.randrange(10**6)}:{self.rng.choice([5, 40])}:{self.rng.choice([50, 800])}"
            self.out.count(delayed=1)
        if self.rng.random() < 0.6:
            args += ["--num-threads", str(self.rng.choice([1, 2, 3, 8, 20]))]
        run = run_qlc(self.ctx, args, env=env)
        return run, outputs(root)


def case(ctx, rng, index, out):
    project = generate(rng, P)
    runner = Runner(ctx, rng, project, Options(rng), out)
    files = project.files()
    run, whole = runner.run(files)
    facts = dict(arguments=runner.options.args + prefix_args(project), files=files, schema=project.sc.sdl)
    if run.code != 0:
        out.count(not_compiled=1)

    def defined(text):
        return {d.strip() for d in (text or "").split("\n\n")}

    needed = {}

    def globals_of(doc):
        """The definitions that the document needs, by what is written when it is compiled alone"""
        if doc not in needed:
            needed[doc] = defined(runner.run(closure_files(doc))[1].get("graphql-globals.ts")) - {""}
        return needed[doc]

    def compare(doc, found, signature, what, **more):
        name = output_of(doc.path)
        if "graphql-globals" in whole.get(name, ""):
            out.count(globals=1)
            lost = globals_of(doc) - defined(found.get("graphql-globals.ts"))
            if lost:
                out.violation(signature + "-globals", f"{doc.path}: {len(lost)} of the globals it needs are not as when it is compiled alone when {what}",
                              lost=sorted(lost)[:3], globals=found.get("graphql-globals.ts"), **more, **facts)
                return False
        out.ran((doc.text, what, repr(sorted(more.get("other_files", {})))), with_imports=int(bool(doc.imports)))
        if found.get(name) != whole.get(name):
            out.violation(signature, f"{doc.path}: its module {'is missing' if name not in found else 'differs'} when {what}", file=doc.path,
                          whole=whole.get(name), found=found.get(name), **more, **facts)
            return False
        return True

    # alone
    for doc in rng.sample(project.docs, min(len(project.docs), 3)):
        run, found = runner.run(closure_files(doc))
        out.count(alone=1)
        if not compare(doc, found, "differs-alone", "compiled with nothing but its imports", run=run.brief()):
            return
    # among others
    other = make_project(rng, P, schema_case=project.sc, prefix=project.prefix)
    extra = {"zz/" + p: t for p, t in other.files().items()} if rng.random() < 0.5 else {p: t for p, t in other.files().items() if p not in files}
    taken = [f.name for f in project.fragments]
    for i in range(rng.randint(0, 3)):
        name = rng.choice(taken) if taken and rng.random() < 0.6 else "Other"
        root_type = project.sc.schema.query_type.name
        extra[os.path.join(rng.choice(["", "a", "0", "zzz"]), f"other{i}.graphql")] = rng.choice(
            [f"fragment {name} on {root_type} {{ __typename }}", "query {", "", f"fragment {name} on Missing {{ a }}", f"query {name} {{ ...Missing }}",
             f"mutation {name}($x: Nope) {{ nope }}", b"\xff\xfe", '#import "missing.graphql"\nquery X { __typename }'])
    extra = {p: t for p, t in extra.items() if p not in files}
    run, found = runner.run({**files, **extra})
    out.count(with_others=1)
    for doc in project.docs:
        if not compare(doc, found, "differs-among-others", "compiled together with unrelated files", other_files=extra, run=run.brief()):
            return
    # after edits
    for _ in range(3):
        m = mutate(rng, project)
        edited = dict(files)
        style = rng.choice(["break", "break", "edit", "delete"])
        if style == "break" and m is not None:
            victim = m.doc
            edited.update(m.files)
            edited[victim.path] = m.text
        elif style == "delete":
            victim = rng.choice(project.docs)
            del edited[victim.path]
        else:
            victim = rng.choice(project.docs)
            replacement = [d for d in other.docs if d.kind == victim.kind and not d.imports] or [victim]
            edited[victim.path] = "# edited\n" + rng.choice(replacement).body
            style = "edit"
        changed = {p: t for p, t in edited.items() if files.get(p) != t}
        in_place = rng.random() < 0.4
        if in_place:
            with ctx.scratch() as root:
                runner.run(files, root)
                if victim.path not in edited:
                    os.remove(os.path.join(root, victim.path))
                run, found = runner.run(edited, root)
            out.count(over_existing=1)
        else:
            run, found = runner.run(edited)
        out.count(**{"after_" + style: 1})
        if run.crashed:
            out.violation("crash", f"exit status {run.code}", changed=changed, run=run.brief(), **facts)
            return
        for doc in project.docs:
            if doc is victim or victim in doc.closure():
                continue
            if not compare(doc, found, f"differs-after-{style}", f"{victim.path}, which it does not import, was {style}ed", changed=changed, run=run.brief()):
                return
        out.sample(files=sorted(files), edit=style, victim=victim.path, unaffected=[d.path for d in project.docs if d is not victim and victim not in d.closure()])
