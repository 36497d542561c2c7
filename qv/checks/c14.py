"""Imports resolve as documented and spreading equals inlining."""
import json
import os

from graphql import FragmentSpreadNode, InlineFragmentNode, NamedTypeNode, parse, print_ast, visit, Visitor
from graphql.language import SelectionSetNode

from ..common import write_tree
from ..flow import Compiled, Options, generate
from ..gen import Profile, SchemaCase, combined
from ..work import output_of, outputs, prefix_args, run_qlc

LEVEL = "exploration"
TECHNIQUE = "metamorphic monitor over modules, and a resolution oracle with decoys"
NOTE = ("Modules of documents with imported fragments are compared with those of the same documents with the fragments inlined; import "
        "spellings are resolved by an independent oracle among decoy files. Sampled trees and spellings.")
BUDGET = {"quick": (420, 60), "thorough": (20000, 780)}
RULE = ("A case is either a random project, each of whose documents with spreads is compiled once more with all spreads replaced by inline "
        "fragments (by graphql-core's printer) and must have the same types; or a tree with one importer, decoys of the same fragment at "
        "every place a wrong resolution would look at, and a random spelling and header, whose module must have the marker of the right "
        "one; or a row of up to 380 files which import one another, whose first has to have the fields of all. Non-trivial: all; distinct by document or by spelling and layout.")
ASSUMPTIONS = ["no import path is absolute, and no quote follows an import's closing quote on its line"]
MUST_OBSERVE = ["inlined", "nested_spreads", "resolved", "by_prefix", "by_dot", "by_root", "transitive", "decoys", "diamonds", "crlf", "quotes", "links", "cr", "marks", "late_imports", "long_chains"]

SDL = "type Query { a: Int b: Int c: Int d: Int e: Int self: Query! }"


class P(Profile):
    fragments = (2, 6)
    documents = (1, 4)
    max_depth = 4
    crowd = 0.06
    long_files = 0.08


def setup(ctx):
    ctx.shared["introspection"] = json.dumps(SchemaCase(SDL).introspection)


def inline(text):
    """A document's definition with all of its spreads replaced"""
    ast = parse(text, no_location=True)
    fragments = {d.name.value: d for d in ast.definitions[1:]}

    class Inliner(Visitor):
        def enter_fragment_spread(self, node, *_):
            f = fragments[node.name.value]
            return InlineFragmentNode(type_condition=f.type_condition, directives=(), selection_set=visit(f.selection_set, Inliner()))
    printed = print_ast(visit(ast.definitions[0], Inliner()))
    return "query " + printed if printed.startswith("{") else printed


def normal(dump):
    """What a module says, up to the order of properties and alternatives"""
    def go(x):
        if isinstance(x, dict):
            return {k: go(v) for k, v in x.items()}
        if isinstance(x, list):
            return sorted((go(v) for v in x), key=lambda v: json.dumps(v, sort_keys=True))
        return x
    return go(dump)


def inlining(ctx, rng, index, out):
    project = generate(rng, P)
    with ctx.scratch() as root:
        options = Options(rng)
        c = Compiled(ctx, project, root, options, dump=False)
        if c.run.code != 0:
            out.count(not_compiled=1)
        docs = [d for d in project.docs if d.spreads]
        if not docs:
            return
        texts = {d.path: inline(combined(d)) for d in docs}
        with ctx.scratch() as other:
            write_tree(other, {**texts, "schema.json": json.dumps(project.sc.introspection)})
            run = run_qlc(ctx, [other] + prefix_args(project) + options.args)
            inlined = outputs(other)
        for doc in docs:
            depth = sum(bool(f.spreads) for f in doc.closure())
            out.ran((doc.text, texts[doc.path]), inlined=1, nested_spreads=depth, diamonds=int(len(doc.closure()) < sum(len(f.imports) for f in [doc] + doc.closure())))
            mine, theirs = c.text(doc), inlined.get(output_of(doc.path))
            if mine == theirs:
                continue
            facts = c.details(doc, inlined=texts[doc.path], inlined_module=theirs, inlined_run=run.brief())
            if mine is None:
                out.violation("spread-rejected", f"{doc.path}: compiles with its spreads inlined but not with them", **facts)
                return
            if theirs is None:
                out.violation("inlined-rejected", f"{doc.path}: compiles with spreads but not with them inlined", **facts)
                return
            dumps = ctx.node.dump({"mine.ts": mine, "theirs.ts": theirs})
            if normal(dumps["mine.ts"]) != normal(dumps["theirs.ts"]):
                out.violation("inlined-differs", f"{doc.path}: its types differ from those with the fragments inlined", **facts)
                return
        out.sample(document=docs[0].text, inlined=texts[docs[0].path])


def join(*parts):
    return os.path.normpath(os.path.join(*parts))


def resolve(importer, spelling, prefix):
    """What the documentation says an import is, relative to the root"""
    if prefix is not None and spelling.startswith(prefix):
        return join(spelling[len(prefix):]), "by_prefix"
    if spelling.startswith("."):
        return join(os.path.dirname(importer), spelling), "by_dot"
    return join(spelling), "by_root"


NAMES = ["f.graphql", "g.graphql", ".h.graphql", "@f.graphql", "a f.graphql", "ü.graphql", "noext", "f.gql", "~f.graphql", 'q"f.graphql']
DIRS = ["", "a", "b", "a/b", "a/b/c", "@", "src", ".hid", "~", "root:", "x.graphql", "a/a", '"d"']
PREFIXES = [None, None, "@/", "@", "~/", "~", "src/", "src", "root:", "./", ".", "a", "a/", "", "../", "#"]


def spelling_for(rng, importer, prefix):
    kind = rng.choice(["plain", "plain", "prefix", "prefix", "dot", "dot", "up", "weird"])
    target = os.path.join(rng.choice(DIRS), rng.choice(NAMES))
    if kind == "prefix" and prefix:
        return prefix + target
    if kind == "dot":
        return "./" + target
    if kind == "up":
        return "../" * rng.randint(1, 2) + target
    if kind == "weird":
        return rng.choice(["a/../", ".//", "./a/../", "./././", "a//../", "b/./../"]) + target
    return target


def candidates(importer, spelling, prefix):
    """Wherever a wrong resolution might look"""
    rest = [spelling] + ([spelling[len(prefix):]] if prefix and spelling.startswith(prefix) else []) + [spelling.lstrip("./")] + \
        ([prefix + spelling] if prefix else [])
    out = set()
    for r in rest:
        if r.startswith("/"):
            continue
        for base in ("", os.path.dirname(importer), "cwd-decoy"):
            out.add(join(base, r))
    return out


def resolution(ctx, rng, index, out):
    prefix = rng.choice(PREFIXES)
    with ctx.scratch() as top:
        base = "x/y/z/w"   # so that going up stays in the scratch directory
        root = os.path.join(top, base)
        os.makedirs(root)
        depth = rng.choice([1, 1, 2, 3])
        importer = os.path.join(rng.choice(DIRS), "importer.graphql")
        files, where, current, resolved, kinds = {}, [], importer, [], set()
        decoys = 0
        chain = []
        for level in range(depth):
            for _ in range(40):
                spelling = spelling_for(rng, current, prefix)
                if spelling.startswith("/") or (prefix and spelling.startswith(prefix) and spelling[len(prefix):].startswith("/")):
                    continue
                target, kind = resolve(current, spelling, prefix)
                if target.count("..") > 3 or target in ("importer.graphql", ".") or target.endswith("importer.graphql") or target in resolved or target.endswith("..") \
                        or any(target == d or d.startswith(target + "/") for d in files) or any(target.startswith(d + "/") for d in files):
                    continue
                break
            else:
                return
            chain.append((current, spelling, target))
            kinds.add(kind)
            out.count(**{kind: 1})
            resolved.append(target)
            files[target] = None
            current = target
        # what they say
        for level, target in enumerate(resolved):
            mine = f"fragment F{level} on Query {{ right{level}: a {f'...F{level + 1}' if level + 1 < depth else ''} }}"
            files[target] = (mine, chain[level + 1][1] if level + 1 < depth else None)
        header_noise = ["", "# a comment", "   ", "#import", "#imports \"no\"", "# import \"no.graphql\"", "\t", "#"]
        eol = rng.choice(["\n", "\n", "\n", "\n", "\r\n", "\r"])
        mark = "\ufeff" if rng.random() < 0.15 else ""

        def document(text, spelling):
            lines = []
            if spelling is not None:
                line = f'#import "{spelling}"' + rng.choice(["", "", "", ";", " ", " # note"])
                lines = [line] * rng.choice([1, 1, 1, 2])
            out_lines = []
            if lines and rng.random() < 0.05:
                out_lines += [rng.choice(header_noise)] * rng.choice([40, 70, 150, 300, 1100])
                out.count(late_imports=1)
            for l in lines:
                while rng.random() < 0.4:
                    out_lines.append(rng.choice(header_noise))
                out_lines.append(l)
            while rng.random() < 0.3:
                out_lines.append(rng.choice(header_noise))
            return mark + "".join(l + eol for l in out_lines) + text + eol
        tree = {t: document(*f) for t, f in files.items()}
        tree[importer] = document("query Importer { own: b ...F0 }", chain[0][1])
        for source, spelling, target in chain:
            level = resolved.index(target)
            for place in candidates(source, spelling, prefix):
                if place in tree or place.count("..") > 3 or place in (".", "") or place.endswith("..") or any(place == d or d.startswith(place + "/") for d in tree) \
                        or any(place.startswith(d + "/") for d in tree):
                    continue
                tree[place] = f"fragment F{level} on Query {{ decoy{level}: c }}\n"
                decoys += 1
        tree["schema.json"] = ctx.shared["introspection"]
        write_tree(root, {p: t for p, t in tree.items()})
        link = rng.random() < 0.2
        if link:  # the last one imports nothing, so it does not matter where it really is
            stored = os.path.join(top, "stored")
            os.rename(os.path.join(root, resolved[-1]), stored)
            os.symlink(stored, os.path.join(root, resolved[-1]))
        args = [root] + (["--root-dir-import-prefix=" + prefix] if prefix is not None else [])
        for d in DIRS + [os.path.dirname(t) for t in tree]:
            for sub in ("", "a", "b"):  # which spellings go through
                try:
                    os.makedirs(os.path.join(root, d, sub), exist_ok=True)
                except (FileExistsError, NotADirectoryError):
                    pass
        cwd = os.path.join(root, "cwd-decoy")
        os.makedirs(cwd, exist_ok=True)
        style = rng.choice(["abs", "rel"])
        if style == "rel":
            args[0] = ".."
        run = run_qlc(ctx, args, cwd=cwd)
        module = outputs(root).get(output_of(importer))
        out.ran((prefix, importer, tuple(c[1] for c in chain)), resolved=1, transitive=int(depth > 1), decoys=decoys, crlf=int(eol == "\r\n"), cr=int(eol == "\r"), marks=int(bool(mark)),
                quotes=int(any('"' in c[1] for c in chain)), links=int(link))
        facts = dict(prefix=prefix, importer=importer, chain=chain, link=link, files=tree, run=run.brief(), module=module)
        if module is None:
            out.violation("unresolved", f"{importer} imports {chain[0][1]!r} with prefix {prefix!r}, which is {resolved[0]}: no module", **facts)
            return
        wrong = [f"right{n}" for n in range(depth) if f"right{n}:" not in module.replace('"', "")] + [f"decoy{n}" for n in range(depth) if f"decoy{n}:" in module.replace('"', "")]
        if wrong:
            out.violation("wrong-file", f"{importer} imports {[c[1] for c in chain]} with prefix {prefix!r}, which are {resolved}: wrong are {wrong}", **facts)
            return
        if "own" not in module:
            out.violation("wrong-file", f"{importer}: its own selection is missing", **facts)
        out.sample(prefix=prefix, importer=importer, imports=[(c[1], c[2]) for c in chain], decoys=decoys)


def long_chain(ctx, rng, out):
    """Very many files which import one another in a row"""
    prefix = rng.choice([None, "~/", "@"])
    with ctx.scratch() as root:
        length = rng.choice([rng.randint(5, 60), rng.randint(60, 200), rng.randint(200, 380)])
        nested = rng.random() < 0.5
        paths = ["importer.graphql"] + [os.path.join(rng.choice(["", "a", "b/c", "b", "d e"]), f"f{n}.graphql") for n in range(length)]
        tree = {}
        for n, path in enumerate(paths):
            lines, spread = [], ""
            if n < length:
                target = paths[n + 1]
                near = os.path.relpath(target, os.path.dirname(path) or ".")
                spelling = rng.choice([target, near if near.startswith(".") else "./" + near] + [(prefix or "") + target] * bool(prefix))
                lines = [f'#import "{spelling}"']
                spread = f"...F{n}"
                if nested and rng.random() < 0.05:
                    spread = f"self {{ below{n}: a {spread} }}"
            lines.append(f"fragment F{n - 1} on Query {{ right{n - 1}: a {spread} }}" if n else f"query Importer {{ own: b {spread} }}")
            tree[path] = "\n".join(lines) + "\n"
        tree["schema.json"] = ctx.shared["introspection"]
        write_tree(root, tree)
        run = run_qlc(ctx, ["."] + (["--root-dir-import-prefix=" + prefix] if prefix else []), cwd=root)
        module = outputs(root).get(output_of("importer.graphql"))
        out.ran((length, prefix, nested, tuple(paths)), long_chains=1)
        wrong = None if module is None else [f"right{n}" for n in range(length) if f"right{n}:" not in module]
        if wrong is None or wrong:
            out.violation("long-chain", f"a document and {length} fragments that import one another in a row: " + (f"{wrong[:3]} are missing" if wrong else "no module"),
                          files=tree, run=run.brief(), module=module)


def case(ctx, rng, index, out):
    if index % 25 == 7:
        return long_chain(ctx, rng, out)
    if rng.random() < 0.45:
        inlining(ctx, rng, index, out)
    else:
        for _ in range(5):
            resolution(ctx, rng, index, out)
