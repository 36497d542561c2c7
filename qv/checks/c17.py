"""I/O failures are reported, located and contained."""
import errno
import os
import re

from ..build import compile_c
from ..common import VERIF, snapshot
from ..flow import generate
from ..gen import Profile
from ..work import output_of, prefix_args, run_qlc, write_project

LEVEL = "fault_enumeration"
TECHNIQUE = "system-call fault injection with a file-system and diagnostics monitor"
NOTE = ("A preloaded library records the file operations of a run and then fails them, one or several at a time, in further runs of the real "
        "compiler. Modules are compared with the run without a failure. Quick samples the operations of each project, thorough fails each "
        "of them with several error codes.")
BUDGET = {"quick": (170, 70), "thorough": (4000, 780)}
RULE = ("A case is a random project; its fault-free run is recorded. Each evaluation is one run with injected faults at recorded operations "
        "(opening or listing a directory, learning an entry's kind, opening or reading a document, import or the schema, creating or writing "
        "a module or the globals file), which is counted only if the fault was hit. Distinct by operation, error code, position of the call "
        "and kind of file. Interrupted calls and short reads and writes are injected too, and must have no effect.")
ASSUMPTIONS = ["a failing close of a file is not observed, as Rust's standard library does not report it"]
MUST_OBSERVE = ["opendir", "readdir", "stat", "open", "read", "create", "write", "combined", "benign", "globals_faults", "import_faults", "schema_faults",
                "unaffected_modules"]
CHUNK = 1

ERRORS = {
    "opendir": ["EACCES", "EIO", "EMFILE", "ENOENT", "ENOMEM", "ENOTDIR", "ELOOP", "EINTR"],
    "readdir": ["EIO", "EBADF", "ENOENT"],
    "stat": ["EIO", "EACCES", "ENOENT"],
    "open": ["EACCES", "EIO", "EMFILE", "ENOENT", "ENOMEM", "EISDIR", "EPERM", "ENFILE"],
    "read": ["EIO", "EISDIR", "ENOMEM", "EAGAIN", "EBADF"],
    "create": ["EACCES", "EIO", "EMFILE", "ENOSPC", "EROFS", "EDQUOT", "ENOENT", "EEXIST", "EPERM"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "EBADF", "EPIPE", "EAGAIN"],
}


class P(Profile):
    documents = (2, 6)
    fragments = (1, 5)
    global_leaves = 0.5


def setup(ctx):
    ctx.shared["shim"] = compile_c("iofault.so", os.path.join(VERIF, "qv", "iofault.c"), ["-shared", "-fPIC", "-ldl", "-lpthread"])


def paths_in(text, cwd):
    found = set()
    for m in re.finditer(r"`([^`\n]+)`|--> ([^\n]+)", text):
        p = m.group(1) or re.sub(r"(:\d+)*$", "", m.group(2))
        found.add(os.path.normpath(os.path.join(cwd, p)))
    return found


def importers(project, doc):
    """The documents which read the given one"""
    out = {doc}
    while True:
        more = {d for d in project.docs if d not in out and any(i in out for i in d.imports)}
        if not more:
            return out
        out |= more


def case(ctx, rng, index, out):
    project = generate(rng, P)
    by_path = {d.path: d for d in project.docs}
    with ctx.scratch() as top:
        root = os.path.join(top, "root")
        write_project(root, project)
        schema = os.path.join(root, "schema.json")
        log = os.path.join(top, "log")
        sources = set(snapshot(root))
        relative = rng.random() < 0.3
        args = [("." if rng.random() < 0.5 else "../root") if relative else root] + prefix_args(project)
        cwd = root if relative else top
        args += ["--num-threads", str(rng.choice([1, 2, 4, 8]))]

        def run(faults=(), unknown=False):
            after = snapshot(root)
            for p in sorted(set(after) - sources, reverse=True):
                os.remove(os.path.join(root, p))
            if os.path.exists(log):
                os.remove(log)
            env = {"LD_PRELOAD": ctx.shared["shim"], "QV_ROOT": root, "QV_LOG": log,
                   "QV_FAULTS": "\n".join("|".join(map(str, f)) for f in faults)}
            if unknown:
                env["QV_DT_UNKNOWN"] = "1"
            r = run_qlc(ctx, args, cwd=cwd, env=env)
            new = {p: c[1] for p, c in snapshot(root).items() if p not in sources}
            events = []
            if os.path.exists(log):
                with open(log, encoding="utf-8", errors="surrogateescape") as f:
                    events = [tuple(l.rstrip("\n").split("\t")) for l in f]
            return r, new, events

        unknown = rng.random() < 0.3
        control, reference, events = run(unknown=unknown)
        if control.code != 0:
            out.count(rejected_projects=1)
            return
        dumps = ctx.node.dump({p: c.decode() for p, c in reference.items()})
        modules = {output_of(p) for p in by_path}
        globals_path = next((p for p in reference if p not in modules), None)
        counts = {}
        for op, _, path in events:
            if path == os.path.join(root, ".qlcrc.json"):
                continue
            counts[op, path] = counts.get((op, path), 0) + 1
        out.count(recorded_operations=len(events))

        def judge(faults, benign=False):
            r, files, seen = run(faults, unknown)
            hit = {(op, path) for op, what, path in seen if what == "failed"}
            facts = dict(faults=faults, hit=sorted(hit), run=r.brief(), arguments=args, cwd=os.path.relpath(cwd, top), files=project.files(), schema=project.sc.sdl)
            if r.crashed:
                out.violation("crash", f"{faults}: exit status {r.code}", **facts)
                return False
            if benign:
                out.ran((faults[0][:3], len(seen)), benign=1, shortened=sum(1 for e in seen if e[1] == "short"), interrupted=len(hit))
                if r.code != 0 or files != reference:
                    different = sorted(p for p in set(files) | set(reference) if files.get(p) != reference.get(p))
                    out.violation("interrupted", f"{faults[:2]} had an effect: exit status {r.code}, other files {different}", **facts)
                    return False
                return True
            if not hit:
                # The schedule did not get there
                out.count(not_hit=1)
                if r.code != 0 or files != reference:
                    out.violation("unstable", "a run in which nothing failed differs from another", **facts)
                    return False
                return True
            affected, dirs, written = set(), set(), set()
            schema_failed = False
            for op, path in hit:
                rel = os.path.relpath(path, root)
                out.count(**{op: 1})
                if path == schema:
                    schema_failed = schema_failed or op != "stat"
                    out.count(schema_faults=1)
                if op in ("opendir", "readdir"):
                    dirs.add(rel)
                elif op == "stat":
                    # of an entry while its directory is read
                    dirs.add(os.path.dirname(rel) or ".")
                elif op in ("create", "write"):
                    written.add(rel)
                    out.count(globals_faults=int(rel == globals_path))
                elif rel in by_path:
                    affected |= {output_of(d.path) for d in importers(project, by_path[rel])}
                    out.count(import_faults=int(len(importers(project, by_path[rel])) > 1))
            out.ran(tuple(sorted({(f[0], f[1], f[2], os.path.splitext(f[3])[1]) for f in faults})) + (len(hit), len(affected)),
                    combined=int(len(hit) > 1))
            if schema_failed:
                if files or r.code != 1 or not r.report.errors:
                    out.violation("schema", f"the schema could not be read, exit status {r.code}, wrote {sorted(files)}", **facts)
                    return False
                return True
            if r.code != 1:
                out.violation("ignored", f"{sorted(hit)} failed but the exit status is {r.code}", **facts)
                return False
            named = paths_in("\n".join("\n".join(m.raw) for m in r.report.errors), cwd)
            for op, path in hit:
                if op == "stat":
                    ok = path in named or os.path.dirname(path) in named
                else:
                    ok = path in named
                    for op2, path2 in hit:
                        # what was not reached any more is not reported
                        if path2 != path and not ok and op in ("open", "read") and path2 in named:
                            ok = True
                if not ok:
                    out.violation("unlocated", f"no error names {os.path.relpath(path, top)}, where {op} failed", **facts)
                    return False
            below = {p for p in modules if any(d == "." or p.startswith(d + "/") for d in dirs)}
            for p in sorted(reference):
                if p in written:
                    continue
                if p == globals_path:
                    continue
                if p not in files:
                    if p not in affected | below:
                        out.violation("not-contained", f"{sorted(hit)} failed and {p} is missing", **facts)
                        return False
                    continue
                if files[p] != reference[p]:
                    out.violation("not-contained", f"{sorted(hit)} failed and {p} differs", module=files[p].decode("utf-8", "replace"),
                                  reference=reference[p].decode("utf-8", "replace"), **facts)
                    return False
                if p not in affected | below:
                    out.count(unaffected_modules=1)
            # A file whose import could not be read has no module, unless that was read for another reason
            extra = sorted(p for p in files if p not in reference)
            if extra:
                out.violation("extra-file", f"{sorted(hit)} failed and there is {extra}", **facts)
                return False
            for op, path in hit:
                rel = os.path.relpath(path, root)
                if op in ("open", "read") and rel in by_path and output_of(rel) in files and counts[op, path] == sum(1 for e in seen if e[0] == op and e[2] == path and e[1] == "failed"):
                    out.violation("unread-module", f"{rel} was never read, yet has a module", **facts)
                    return False
            if globals_path is not None and globals_path not in written:
                needed = set()
                for p in files:
                    if p != globals_path and p in dumps and p not in written:
                        for i in dumps[p]["imports"]:
                            if i["module"] != "@notarize/qlc-cli/typed-documentnode":
                                needed |= set(i["names"])
                have = ctx.node.dump({globals_path: files[globals_path].decode()})[globals_path] if globals_path in files else {"types": {}, "enums": {}}
                for kind in ("types", "enums"):
                    for n, t in (have.get(kind) or {}).items():
                        # the first declaration has the comment of the file too
                        if {**dumps[globals_path][kind].get(n, {}), "doc": None} != {**t, "doc": None}:
                            out.violation("globals-differ", f"{sorted(hit)} failed and {n} in {globals_path} differs", **facts)
                            return False
                missing = needed - set(have.get("types") or {}) - set(have.get("enums") or {})
                if missing:
                    out.violation("globals-incomplete", f"{sorted(hit)} failed and {globals_path} lacks {sorted(missing)}", **facts)
                    return False
            return True

        def rule(op, path):
            n = counts[op, path]
            k = rng.choice([1, n, rng.randint(1, n)])
            return (op, f"{k}{rng.choice(['', '+'])}", getattr(errno, rng.choice(ERRORS[op])), path)

        every = sorted(k for k in counts if k[0] in ERRORS)
        if ctx.thorough:
            picked = [k for k in every for _ in range(2)]
        else:
            kinds = {}
            for k in every:
                kinds.setdefault((k[0], k[1] == schema, k[1].endswith(".ts") and not k[1].endswith(".d.ts")), []).append(k)
            picked = [rng.choice(v) for v in kinds.values()] + rng.sample(every, min(6, len(every)))
        rng.shuffle(picked)
        for op, path in picked:
            f = rule(op, path)
            if not judge([f]):
                return
            out.sample(fault=[f[0], f[1], errno.errorcode[f[2]], os.path.relpath(f[3], root)])
        others = [k for k in every if k[1] != schema]
        for _ in range(3):
            if not judge([rule(*k) for k in rng.sample(others, min(len(others), rng.randint(2, 4)))]):
                return
        # no failures
        for faults in ([("read", "short", rng.choice([1, 3, 17]), "*"), ("write", "short", rng.choice([1, 5, 100]), "*")],
                       [(op, rng.randint(1, counts[op, p]), errno.EINTR, p) for op, p in rng.sample(every, min(len(every), 20))
                        if op in ("open", "read", "create", "write")]):
            if faults and not judge(faults, benign=True):
                return
