"""Data types accept every response a conforming server can return."""
from ..flow import Compiled, Options, generate
from ..gen import Large, Profile
from ..model import Responder, rejects

LEVEL = "exploration"
TECHNIQUE = "online membership monitor over executed responses"
NOTE = 'Every response graphql-core executes for generated documents is tested for membership in the type the real compiler emitted (as parsed by TypeScript). Sampled, not exhaustive; trusts graphql-core and the TypeScript parser.'
BUDGET = {"quick": (340, 70), "thorough": (20000, 780)}
RULE = ("A case is a random schema with a tree of valid documents (graphql-core validates them), compiled by the real qlc; an "
        "evaluation is one response that graphql-core's executor produced with random values (random nulls, list lengths, concrete "
        "types), checked for membership in the emitted type as TypeScript parses it. Non-trivial: the response has an object, list "
        "or null below its root; distinct by document and response.")
ASSUMPTIONS = ["graphql-core's executor produces only responses a conforming server can return",
               "documents do not use @include or @skip"]
MUST_OBSERVE = ["responses", "nulls", "lists", "abstract_documents", "fragments", "imports"]


class P(Profile):
    pass


class Lists(Profile):
    deep_lists = 1
    max_list = 5


class Merging(Profile):
    similar = 0.7
    big = 0.5
    documents = (1, 2)
    covariance = 0.4


def size(value):
    if isinstance(value, dict):
        o, l, n = 1, 0, 0
        for v in value.values():
            a = size(v)
            o, l, n = o + a[0], l + a[1], n + a[2]
        return o, l, n
    if isinstance(value, list):
        o, l, n = 0, 1, 0
        for v in value:
            a = size(v)
            o, l, n = o + a[0], l + a[1], n + a[2]
        return o, l, n
    return 0, 0, 1 if value is None else 0


def case(ctx, rng, index, out):
    project = generate(rng, Large if index % 30 == 13 else rng.choice([P, P, Merging, Merging, Lists]))
    with ctx.scratch() as root:
        c = Compiled(ctx, project, root, Options(rng))
        enums = {n: [m["value"] for m in e["members"]] for n, e in (c.globals["enums"] if c.globals else {}).items()}
        for doc in project.docs:
            module = c.module(doc)
            if module is None:
                if c.run.code == 0:
                    out.violation("no-module", f"{doc.path}: a run that succeeded wrote no module", **c.details(doc))
                else:
                    out.count(not_compiled=1)
                continue
            op = c.operation(doc)
            data = module.types.get(doc.data_name)
            if data is None:
                out.violation("no-data-type", f"{doc.path}: no type {doc.data_name}", **c.details(doc))
                continue
            if not op.possible(op.root):
                out.count(without_responses=1)
                continue
            responder = Responder(op)
            out.count(documents=1, fragments=int(doc.is_fragment), imports=len(doc.closure()),
                      abstract_documents=int("... on" in doc.text))
            for n in range(6 if ctx.thorough else 4):
                value, errors = responder.response(rng, null_rate=rng.choice([0, 0.2, 0.6]), max_list=rng.choice([1, 3]))
                if errors:
                    out.inconclusive.append(f"{doc.path}: {errors[0]}")
                    break
                objects, lists, nulls = size(value)
                out.ran((doc.text, repr(value)) if objects > 1 or lists or nulls else None, responses=1, objects=objects, lists=lists,
                        nulls=nulls)
                why = rejects(module, data["type"], value, enums)
                if why:
                    out.violation("response-rejected", f"{doc.path}: {why}", **c.details(doc, response=value))
                    break
            if doc.spreads:
                out.sample(file=doc.path, document=doc.text, response=value, verdict=why or "accepted")
