"""DataOf and VariablesOf recover a document's types."""
from ..flow import Compiled, Options, generate
from ..gen import Profile
from ..model import PRIMITIVES
from ..tsnode import GRAPHQL_STUB, typed_documentnode
from ..work import output_of

from graphql import GraphQLScalarType

LEVEL = "exploration"
TECHNIQUE = "type-identity monitor in the TypeScript checker"
NOTE = ("Emitted modules, and documents written by hand with other types, are type-checked with the package's typed-documentnode.d.ts together "
        "with assertions that DataOf and VariablesOf of their default exports are identical to their types. Sampled; trusts the TypeScript checker.")
BUDGET = {"quick": (180, 70), "thorough": (8000, 780)}
RULE = ("A case compiles a random project with the real qlc. An evaluation is one default export (of an emitted module, or a node type over random "
        "data and variables types) for which TypeScript judges whether DataOf and VariablesOf, and what a generic function infers, are identical to the types it was "
        "declared with, and whether it can be used as a DocumentNode. "
        "Distinct by module text.")
ASSUMPTIONS = ["TypeScript 5.9 in strict mode", "a stand-in declares graphql's DocumentNode"]
MUST_OBSERVE = ["queries", "mutations", "subscriptions", "fragments", "with_variables", "unions", "unnamed", "custom_scalars", "readonly", "mutable", "by_hand", "other_module"]


class P(Profile):
    subscription = 1.0
    mutation = 1.0
    documents = (3, 7)
    fragments = (1, 4)
    variables = 0.7
    max_depth = 3
    sinks = 2


IDENTICAL = """type Identical<A, B> = (<T>() => T extends A ? 1 : 2) extends (<T>() => T extends B ? 1 : 2) ? true : false;
type Expect<T extends true> = T;
"""

DATA = ["{ readonly a: string }", "{ a: string | null; b: number[] }", "{}", "{ readonly a: { readonly b: 'X' } | { readonly b: 'Y'; readonly c: any } | null }",
        "{ readonly a: string } | { readonly b: number }", "{ readonly a: ReadonlyArray<string | null> | null }", "{ a: any }", "{ a?: string }",
        "{ readonly constructor_: string; readonly length: number; readonly kind: string }", "Record<string, unknown>", "{ readonly kind: 'Document'; readonly definitions: string }"]
VARIABLES = ["never", "{ a: string }", "{ a?: string | null }", "{ a: string[] | null; b?: ReadonlyArray<number> }", "{}", "{ a: any }", "{ a: { b: string } } | { c: number }",
             "Record<string, unknown>", "{ readonly a: string }"]
KINDS = {"query": "Query", "mutation": "Mutation", "subscription": "Subscription", "fragment": "Fragment"}


def case(ctx, rng, index, out):
    project = generate(rng, P)
    options = Options(rng, default=0.3)
    module_name = rng.choice(["@notarize/qlc-cli/typed-documentnode", "@notarize/qlc-cli/typed-documentnode", "my-nodes", "@/lib/nodes"])
    args = [] if module_name.startswith("@notarize") else ["--typed-graphql-documentnode-module-name", module_name]
    with ctx.scratch() as root:
        c = Compiled(ctx, project, root, options, args=args)
        if c.run.code != 0:
            out.count(not_compiled=1)
        program = {"/root/" + p: t for p, t in c.outputs.items()}
        program["/fixed/typed-documentnode.d.ts"] = typed_documentnode()
        program["/fixed/graphql.d.ts"] = GRAPHQL_STUB
        scalars = [n for n, t in project.sc.schema.type_map.items() if isinstance(t, GraphQLScalarType) and n not in PRIMITIVES]
        if options.use_scalars:
            program["/fixed/scalars.d.ts"] = "\n".join(f"declare type {(options.scalar_prefix or '') + n} = {rng.choice(['string', 'number', '{ readonly iso: string }'])};"
                                                       for n in scalars) + "\n"
        paths = {"graphql": ["/fixed/graphql.d.ts"], "graphql-globals": ["/root/graphql-globals.ts"], module_name: ["/fixed/typed-documentnode.d.ts"]}
        tests = {}
        imports = f'import type {{ DataOf, VariablesOf }} from "{module_name}";\n' + IDENTICAL
        facts = dict(c.details())
        for n, doc in enumerate(project.docs):
            module = c.module(doc)
            if module is None:
                continue
            name = doc.data_name
            variables = name + "Variables" if not doc.is_fragment and c.operation(doc).definition.variable_definitions else "never"
            lines = [imports, f'import type document from "./{doc.path}";', f'import type {{ {name} }} from "./{doc.path}";']
            if variables != "never":
                lines.append(f'import type {{ {variables} }} from "./{doc.path}";')
            lines.append(f"export type D = Expect<Identical<DataOf<typeof document>, {name}>>;")
            lines.append(f"export type V = Expect<Identical<VariablesOf<typeof document>, {variables}>>;")
            # what clients do: they take a document of a kind, and infer, or any document
            kind = KINDS[doc.kind]
            parameters = "D extends Record<string, unknown>" + ("" if doc.is_fragment else ", V extends Record<string, unknown>")
            lines += [f'import type {{ {kind}DocumentNode }} from "{module_name}";', 'import type { DocumentNode } from "graphql";',
                      f"declare function client<{parameters}>(document: {kind}DocumentNode<{'D' if doc.is_fragment else 'D, V'}>): [{'D' if doc.is_fragment else 'D, V'}];",
                      "declare const value: typeof document;", "export const inferred = client(value);",
                      f"export type I = Expect<Identical<typeof inferred, [{name if doc.is_fragment else name + ', ' + variables}]>>;",
                      "export const plain: DocumentNode = value;"]
            # and they have to be told from other types (never & X is never)
            if f"export type {name} = never;" not in c.text(doc):
                lines.append("// @ts-expect-error")
                lines.append(f"export type OtherD = Expect<Identical<DataOf<typeof document>, {name} & {{ qv: 1 }}>>;")
            lines.append("// @ts-expect-error")
            lines.append("export type OtherV = Expect<Identical<VariablesOf<typeof document>, { qv: 1 }>>;")
            at = f"/root/qv-test-{n}.ts"
            tests[at] = (doc, "\n".join(lines) + "\n")
            data = module.types.get(name)
            out.ran(c.text(doc), **{{"query": "queries", "mutation": "mutations", "subscription": "subscriptions", "fragment": "fragments"}[doc.kind]: 1},
                    with_variables=int(variables != "never"), unions=int(bool(data) and data["type"]["k"] == "union"), unnamed=int(doc.name is None),
                    custom_scalars=int(options.use_scalars and any(s in c.text(doc) for s in scalars)), readonly=int(not options.readonly_off),
                    mutable=int(options.readonly_off), other_module=int(bool(args)))
        for n in range(3):
            kind, d, v = rng.choice(list(KINDS)), rng.choice(DATA), rng.choice(VARIABLES)
            node = f"{KINDS[kind]}DocumentNode<MyData{'' if kind == 'fragment' else ', MyVariables'}>"
            at = f"/root/qv-hand-{n}.ts"
            lines = [imports, f'import type {{ {KINDS[kind]}DocumentNode }} from "{module_name}";', f"type MyData = {d};", f"type MyVariables = {'never' if kind == 'fragment' else v};",
                     f"export type D = Expect<Identical<DataOf<{node}>, MyData>>;", f"export type V = Expect<Identical<VariablesOf<{node}>, MyVariables>>;",
                     'import type { DocumentNode } from "graphql";', f"declare const value: {node};", "export const plain: DocumentNode = value;"]
            tests[at] = (None, "\n".join(lines) + "\n")
            out.ran((kind, d, v), by_hand=1)
        program.update({at: t for at, (_, t) in tests.items()})
        diagnostics = ctx.node.check(program, paths)
        wrong = [d for d in diagnostics if d["file"] in tests]
        broken = {d["file"] for d in diagnostics if d["file"] not in tests}
        if any(not f or not f.endswith(".graphql.d.ts") for f in broken):
            wrong = [d for d in diagnostics if d["file"] == "/fixed/typed-documentnode.d.ts"] or wrong
            if not wrong:
                out.count(other_errors=len(diagnostics))  # whether modules type-check is for C05
                return
        for d in wrong:
            doc, text = tests.get(d["file"], (None, None))
            if doc is not None and "/root/" + output_of(doc.path) in broken:
                out.count(other_errors=1)
                continue
            what = f"{doc.path} ({doc.kind})" if doc else "a document written by hand" if text else "typed-documentnode.d.ts"
            line = text.split("\n")[d["line"] - 1] if text else ""
            out.violation("not-recovered" if text else "does-not-type-check", f"{what}: {line} gives {d['message']}", test=text, module=c.text(doc) if doc else None,
                          diagnostics=diagnostics[:5], **facts)
            return
        out.sample(documents=[d.path for d in project.docs], test=list(tests.values())[0][1][-500:])
