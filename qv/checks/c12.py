"""Diagnostics point at the mistake and the summary counts them."""
import json
import os
import re

from ..common import write_tree
from ..flow import generate
from ..gen import Large, Profile
from ..mutate import KINDS, UNSUPPORTED, lines_of, mutate
from ..work import prefix_args, run_qlc, write_project

LEVEL = "exploration"
TECHNIQUE = "diagnostics monitor over a mutation workload"
NOTE = ("Every printed diagnostic is compared with the file it names (path, line, column, quoted source, caret), each planted mistake with the "
        "place it was planted at, and the summary with what was printed. Sampled mistakes and positions.")
BUDGET = {"quick": (420, 60), "thorough": (20000, 780)}
RULE = ("A case is a random valid project (with deprecated fields); evaluations are runs of the real qlc on it with one or several mistakes "
        "planted at random positions. All diagnostics printed are parsed and checked against the files on disk; with a single mistake one "
        "of them must be at its exact place. Some cases plant hundreds of mistakes at once and expect an error for each. Non-trivial: at least one located diagnostic; distinct by the mutated texts.")
ASSUMPTIONS = ["documents have no tabs before a mistake, as the parser library counts a tab as several columns"]
MUST_OBSERVE = ["errors", "located", "warnings", "single", "several", "many_errors", "one_error", "no_error", "one_warning", "many_warnings",
                "no_warning", "later_lines", "crlf", "cr", "mark", "not_ascii", "crowds", "multiples_of_256", "suggestions", "misspelt_field", "misspelt_spread", "far_lines"]


class P(Profile):
    fragments = (0, 4)
    documents = (1, 5)
    max_depth = 3
    deprecated = 0.3


AT = [(re.compile(p), k) for p, k in [
    (r"^unknown field `(.*)`$", "field"), (r"^use of deprecated field `(.*)` on type `.*`$", "field"),
    (r"^unknown spread fragment name `(.*)`$", "spread"), (r"^cannot spread fragment `(.*)`$", "spread"),
    (r"^unknown type for variable `(.*)`$", "variable"), (r"^unexpected type for variable `(.*)`$", "variable")]]


def check_shown(root, cwd, d, out):
    """Whether what a diagnostic shows is what the file has"""
    if d.path is None:
        m = re.match(r"^could not read `(.*)`: ", d.message)
        if not m or not os.path.lexists(os.path.join(cwd, m.group(1))):
            return f"{d!r} has no path"
        return None
    path = os.path.join(cwd, d.path)
    if not os.path.exists(path):
        return f"{d!r} is about a file that does not exist"
    if d.line is None:
        return None if "parse error" in d.message or "missing def" in d.message else f"{d!r} has no line"
    out.count(located=1, later_lines=int(d.line > 1), far_lines=int(d.line > 999))
    with open(path, encoding="utf-8", newline="") as f:
        text = f.read()
    lines = lines_of(text)
    out.count(crlf=int("\r\n" in text), cr=int("\n" not in text and "\r" in text), mark=int(text.startswith("\ufeff")), not_ascii=int(not lines[min(d.line, len(lines)) - 1].isascii()))
    if d.line > len(lines):
        return f"{d!r} is about line {d.line} of {len(lines)}"
    if "\r" in "".join(d.raw):
        return f"{d!r} is printed with a carriage return"
    if d.source != lines[d.line - 1]:
        return f"{d!r} shows {d.source!r} but the line is {lines[d.line - 1]!r}"
    if d.caret != d.column:
        return f"{d!r} has its caret at {d.caret}"
    for pattern, kind in AT:
        m = pattern.match(d.message)
        if not m:
            continue
        rest, name = lines[d.line - 1][d.column - 1:], re.escape(m.group(1))
        form = {"field": rf"(\w+\s*:\s*)?{name}\b", "spread": rf"(\.\.\.\s*)?{name}\b", "variable": rf"\$\w+\s*:\s*[\[]*{name}\b"}[kind]
        if not re.match(form, rest):
            return f"{d!r} points at {rest[:30]!r}"
    return None


def check_counts(run):
    """Whether the summary is right"""
    errors, warnings = len(run.report.errors), len(run.report.warnings)
    said = {"error": 0, "warning": 0}
    for line in run.report.summaries:
        for n, what, many in re.findall(r"(\d+) (error|warning)(s?)\b", line):
            said[what] += int(n)
            if (n == "1") == bool(many):
                return f"the summary says {n} {what}{many}"
    if said["error"] != errors or said["warning"] != warnings:
        return f"{errors} errors and {warnings} warnings were printed but the summary is {run.report.summaries}"
    if run.code != (1 if errors else 0):
        return f"exit status {run.code} with {errors} errors"
    if errors == 0 and any("fail" in l for l in run.report.summaries):
        return f"no errors were printed but the summary is {run.report.summaries}"
    if run.report.stray:
        return f"printed {run.report.stray[:1]}"
    return None


def check_suggested(m, named, out):
    """Whether what is proposed instead of a misspelt name includes the right one, and would work"""
    for d in named:
        proposed = re.findall(r"`(\w+)`", (d.help or "").partition("Did you mean")[2])
        out.count(suggested=len(proposed), suggestions=1)
        if m.meant not in proposed:
            return f"{m.meant} is written {m.names[0]} but it is not proposed: {d!r}"
        wrong = sorted(set(proposed) - m.known)
        if wrong:
            return f"{wrong} are proposed instead of {m.names[0]} but do not exist there: {d!r}"
        if len(set(proposed)) != len(proposed):
            return f"proposed twice: {d!r}"
    return None


def plural(out, name, n):
    out.count(**{("no_" if n == 0 else "one_" if n == 1 else "many_") + name + ("s" if n > 1 else ""): 1})


def crowd(ctx, rng, out, project, top):
    """Very many mistakes at once, each of which has its own error"""
    root = os.path.join(top, "crowd")
    planted, files = [], {}
    several = rng.choice([1, 1, 1, 5, 40, 300])
    wanted = rng.choice([101, 130, 256, 256, 260, 512, 700, 1024, 1100])
    for i in range(-(-wanted // several)):
        lines, path = [rng.choice(["query {", "query Q {", "fragment F%d on %s {" % (i, project.sc.schema.query_type.name)])], rng.choice(["", "a/", "deep/er/"]) + f"q{i}.graphql"
        for j in range(min(several, wanted - len(planted))):
            name = f"zz{i}x{j}"
            lines.append(rng.choice(["", "  ", "    ", "      # a\n "]) + rng.choice([name, name, "..." + name, f"o{j}: " + name, name + " { id }"]))
            line = "\n".join(lines).count("\n") + 1
            planted.append((path, line, name))
        files[path] = "\n".join(lines + ["}"])
    write_tree(root, {**files, "schema.json": json.dumps(project.sc.introspection)})
    args = ["crowd", "--num-threads", str(rng.choice([1, 2, 8, 30]))]
    run = run_qlc(ctx, args, cwd=top)
    report = run.report
    out.ran(("crowd", several, planted[0], planted[-1]), runs=1, crowds=1, errors=len(report.errors), multiples_of_256=int(wanted % 256 == 0))
    facts = dict(arguments=args, planted=planted[:20], run={"exit": run.code, "stdout": run.out[-3000:], "stderr": run.err[-500:]}, files=dict(list(files.items())[:2]))
    if run.crashed or run.code == 2:
        out.violation("crash", f"exit status {run.code} for {len(planted)} mistakes", **facts)
        return
    why = check_counts(run)
    if why:
        out.violation("wrong-summary", why, **facts)
        return
    for d in report.messages:
        why = check_shown(root, top, d, out)
        if why:
            out.violation("wrong-place", why, **facts)
            return
    found = sorted((os.path.relpath(os.path.join(top, d.path), root), d.line, re.sub(r".*`(.*)`$", r"\1", d.message)) for d in report.errors if d.path)
    if found != sorted(planted):
        lost = sorted(set(planted) - set(found))
        out.violation("not-all", f"{len(planted)} mistakes in {len(files)} files but {len(report.errors)} errors; without one: {lost[:3]}", **facts)


def case(ctx, rng, index, out):
    if index % 14 == 7:
        project = generate(rng, P)
        with ctx.scratch() as top:
            crowd(ctx, rng, out, project, top)
        return
    project = generate(rng, Large if index % 30 == 13 else P)
    with ctx.scratch() as top:
        root = os.path.join(top, "root")
        write_project(root, project)
        spelling = rng.choice(["root", root, "./root", "root/"])
        for n in range(6):
            wanted = rng.choice([0, 1, 1, 1, 1, 2, 3, 5]) if n else 0
            mutations = []
            for doc in rng.sample(project.docs, min(len(project.docs), wanted)):
                m = mutate(rng, project, doc, rng.choice(KINDS + UNSUPPORTED))
                if m is not None:
                    mutations.append(m)
            write_tree(root, project.files())
            for m in mutations:
                write_tree(root, {**m.files, m.doc.path: m.text})
            args = [spelling] + prefix_args(project) + (["--show-deprecation-warnings"] if rng.random() < 0.6 else [])
            run = run_qlc(ctx, args, cwd=top)
            facts = dict(arguments=args, run=run.brief(), files=project.files(), schema=project.sc.sdl, mutations=[m.details() for m in mutations])
            report = run.report
            out.ran(tuple(str(m.text) for m in mutations) or None if any(d.line for d in report.messages) else None, runs=1,
                    errors=len(report.errors), warnings=len(report.warnings), single=int(len(mutations) == 1), several=int(len(mutations) > 1))
            plural(out, "error", len(report.errors))
            plural(out, "warning", len(report.warnings))
            if run.crashed or run.code == 2:
                out.violation("crash", f"exit status {run.code}", **facts)
                return
            if not mutations and report.errors:
                out.violation("no-mistake", f"{report.errors[0]!r} although all documents are valid", **facts)
                return
            why = check_counts(run)
            if why:
                out.violation("wrong-summary", why, **facts)
                return
            for d in report.messages:
                if "Did you mean" in (d.help or "") and not re.search(r"Did you mean[^`]*`\w+`", d.help):
                    out.violation("wrong-suggestion", f"{d!r} proposes nothing", **facts)
                    return
                why = check_shown(root, top, d, out)
                if why:
                    out.violation("wrong-place", why, **facts)
                    return
            if len(mutations) == 1:
                m = mutations[0]
                mine = [d for d in report.errors if d.path is not None and os.path.relpath(os.path.join(top, d.path), root) == m.doc.path]
                allowed = m.allowed()
                named = [d for d in mine if all(x in d.message + (d.help or "") for x in m.names)]
                if m.kind == "duplicate-import":
                    named = mine = []  # which of the imports is at fault is open
                elif m.kind == "bad-bytes":
                    if not any(m.doc.path in d.message for d in report.errors):
                        out.violation("not-located", f"{m.kind}: no error names {m.doc.path}", **facts)
                        return
                elif not named:
                    out.violation("not-located", f"{m.kind} in {m.doc.path}: no error about it names {m.names}: {[repr(d) for d in mine][:2]}", **facts)
                    return
                elif allowed and not any(d.line == line and d.column is not None and first <= d.column <= last for d in named for line, first, last in allowed):
                    out.violation("wrong-place", f"{m.kind} in {m.doc.path}: errors are at {[(d.line, d.column) for d in named]}, not in {allowed}",
                                  **facts)
                    return
                if m.meant:
                    why = check_suggested(m, [d for d in named if d.message.startswith("unknown ")], out)
                    if why:
                        out.violation("wrong-suggestion", f"{m.kind} in {m.doc.path}: {why}", **facts)
                        return
                out.count(**{m.kind.replace("-", "_"): 1})
                out.sample(mistake=m.kind, file=m.doc.path, at=allowed, error=repr(report.errors[0])[:300])
            for m in mutations:
                for p in m.files:
                    os.remove(os.path.join(root, p))
