"""Data types are exact."""
from ..flow import Compiled, Options, generate
from ..gen import Large, Profile
from ..model import Comparer

LEVEL = "exploration"
TECHNIQUE = "reference-model monitor over emitted types"
NOTE = "Two-way comparison of emitted types, parsed by TypeScript, with the specification's field collection for every concrete type. Sampled inputs; trusts graphql-core's schema model and the TypeScript parser."
BUDGET = {"quick": (420, 70), "thorough": (20000, 780)}
RULE = ("A case is a random schema with a tree of valid documents, compiled by the real qlc with random options; an evaluation "
        "compares one document's emitted data type, as TypeScript parses it, with what the specification's CollectFields gives for "
        "every concrete type at every level, in both directions. Non-trivial: at least two object types were compared; distinct by "
        "document and module text.")
ASSUMPTIONS = ["where one field is selected through several types which declare different types for it, what all of them allow is exact",
               "documents do not use @include or @skip"]
MUST_OBSERVE = ["objects", "lists", "merged", "alternatives", "imports", "narrowed"]


class Merging(Profile):
    similar = 0.7
    big = 0.5
    documents = (1, 2)
    covariance = 0.4
    narrowing = 0.5
    narrowed = 0.5


class Lists(Profile):
    deep_lists = 1
    max_list = 5


class Deep(Profile):
    max_depth = 6
    fragments = (4, 9)
    documents = (1, 2)


def case(ctx, rng, index, out):
    project = generate(rng, Large if index % 30 == 13 else rng.choice([Profile, Merging, Merging, Deep, Lists]))
    options = Options(rng)
    with ctx.scratch() as root:
        c = Compiled(ctx, project, root, options)
        for doc in project.docs:
            module = c.module(doc)
            if module is None:
                if c.run.code == 0:
                    out.violation("no-module", f"{doc.path}: a run that succeeded wrote no module", **c.details(doc))
                else:
                    out.count(not_compiled=1)
                continue
            comparer = Comparer(c.operation(doc), module, options.scalars, not options.readonly_off)
            errors = comparer.data(doc.data_name)
            facts = comparer.facts
            out.ran((doc.text, c.text(doc)) if facts["objects"] > 1 else None, documents=1, imports=len(doc.closure()), **facts)
            if errors:
                out.violation("inexact", f"{doc.path}: {errors[0]}", **c.details(doc, errors=errors[:6]))
            elif doc.spreads and facts["merged"]:
                out.sample(file=doc.path, document=doc.text, compared=facts)
