"""Invalid documents and imports are never silently accepted, valid ones never rejected."""
import os

from ..common import write_tree
from ..flow import Compiled, Options, generate
from ..gen import Profile
from ..mutate import KINDS, may_fail, must_fail, mutate
from ..work import output_of, outputs, run_qlc

LEVEL = "exploration"
TECHNIQUE = "mutation workload with a validity oracle over diagnostics"
NOTE = ("graphql-core validates the projects that must compile; each of 22 classes of mistake is planted at random positions of random "
        "documents and fragments, and every document it makes invalid must be reported, and no other. Sampled.")
BUDGET = {"quick": (420, 60), "thorough": (20000, 780)}
RULE = ("A case is a random valid project, which must compile without any error, and then a number of single mistakes planted into it one "
        "at a time at random positions of documents or (transitively) imported fragments; each is an evaluation: one run of the real qlc, "
        "whose errors must be about all of the documents that the mistake makes invalid and about none that it can not affect. "
        "Non-trivial: every mistake; distinct by mutated text.")
ASSUMPTIONS = ["a fragment's conflicting selections are a mistake of that fragment's document; whether documents spreading it are reported "
               "too depends on the types they spread it on",
               "anonymous selection sets and inline fragments without a type condition are documented as unsupported and are not generated"]
MUST_OBSERVE = ["valid_projects", "mistakes", "in_imported_fragments", "spreaders"] + [k.__name__ for k in KINDS]


class P(Profile):
    fragments = (1, 5)
    documents = (1, 4)
    max_depth = 3


def file_of(root, d):
    """The document an error is about, relative to the root"""
    import re
    if d.path is not None:
        return os.path.relpath(d.path, root)
    for p in re.findall(r"`([^`]*)`", d.message):
        if p.startswith(root):
            return os.path.relpath(os.path.normpath(p), root)
    return None


def case(ctx, rng, index, out):
    project = generate(rng, P)
    with ctx.scratch() as root:
        c = Compiled(ctx, project, root, Options(), dump=False)
        if c.run.code != 0 or c.run.report.errors or any("error" in l for l in c.run.report.summaries):
            errors = [repr(e) for e in c.run.report.errors]
            out.violation("valid-rejected", f"a valid project has errors: {errors[:2] or c.run.brief()}", **c.details(), errors=errors)
            return
        missing = [d.path for d in project.docs if output_of(d.path) not in c.outputs]
        if missing:
            out.violation("valid-rejected", f"no module was written for {missing}", **c.details())
            return
        out.count(valid_projects=1)
        kinds = rng.sample(KINDS, 7)
        for kind in kinds:
            doc = rng.choice(project.fragments) if project.fragments and rng.random() < 0.5 else None
            m = mutate(rng, project, doc, kind) or mutate(rng, project, None, kind)
            if m is None:
                continue
            for p in c.outputs:
                if p not in m.files and os.path.exists(os.path.join(root, p)):
                    os.remove(os.path.join(root, p))
            write_tree(root, {**m.files, m.doc.path: m.text})
            run = run_qlc(ctx, c.args)
            must, may = must_fail(project, m), may_fail(project, m)
            involved = set()
            if m.kind == "duplicate-import":
                # it is between an import of this document and one of a document that it imports: either may be blamed
                involved = {i.path for d in project.docs if d.path in may for i in d.closure()}
            out.ran((m.doc.path, m.text), mistakes=1, spreaders=len(must) - 1, in_imported_fragments=int(m.doc.is_fragment and len(may) > 1),
                    **{kind.__name__: 1})
            facts = dict(arguments=c.args[1:], run=run.brief(), files={**project.files(), **m.files}, schema=project.sc.sdl, **m.details())
            errors = run.report.errors
            about = {file_of(root, e) for e in errors}
            if run.crashed:
                out.violation("crash", f"{m.kind} in {m.doc.path}: exit status {run.code}", **facts)
                return
            if run.code != 1:
                out.violation("accepted-" + m.kind, f"{m.kind} in {m.doc.path}: exit status {run.code}", **facts)
                return
            silent = must - about
            if silent and not (silent == {m.doc.path} and about & involved):
                out.violation("accepted-" + m.kind, f"{m.kind} in {m.doc.path}: no error about {sorted(silent)}, only {sorted(map(str, about))}", **facts)
                return
            wrong = {a for a in about if a not in may | involved}
            if wrong:
                out.violation("valid-rejected", f"{m.kind} in {m.doc.path}: errors about {sorted(map(str, wrong))}", **facts)
                return
            written = outputs(root)
            gone = [d.path for d in project.docs if d.path not in may | involved and output_of(d.path) not in written]
            if gone:
                out.violation("valid-rejected", f"{m.kind} in {m.doc.path}: no module for {gone}", **facts)
                return
            out.sample(mistake=m.kind, file=m.doc.path, must=sorted(must), errors=[repr(e)[:200] for e in errors[:2]])
            write_tree(root, {m.doc.path: m.doc.text})
            for p in m.files:
                os.remove(os.path.join(root, p))
                if os.path.exists(os.path.join(root, output_of(p))):
                    os.remove(os.path.join(root, output_of(p)))
