"""Running the compiler on projects and reading what it says."""
import os
import re

from .common import execute, snapshot, write_tree, dump_json
import json

HEAD = re.compile(r"^(warning|error|program error): (.*)$")
WHERE = re.compile(r"^ *--> (.*?)(?::(\d+)(?::(\d+))?)?$")


class Diagnostic:
    """One printed message."""

    def __init__(self, level, message):
        self.level, self.message = level, message
        self.path = self.line = self.column = self.source = self.help = None
        self.caret = None
        self.raw = []

    def key(self):
        return (self.level, self.message, self.path, self.line, self.column, self.source, self.help)

    def __repr__(self):
        return f"{self.level}: {self.message} @ {self.path}:{self.line}:{self.column} [{self.source}] {self.help or ''}"


class Report:
    """All that a run printed on standard output."""

    def __init__(self, text):
        self.messages, self.summaries, self.stray = [], [], []
        blocks = text.split("\n\n")
        # Every message is followed by an empty line, the summaries are not
        for i, block in enumerate(blocks):
            lines = block.split("\n")
            while lines and not lines[0]:
                lines.pop(0)
            while lines and not lines[-1]:
                lines.pop()
            if not lines:
                continue
            if i == len(blocks) - 1:
                self.summaries += [l for l in lines]
                continue
            m = HEAD.match(lines[0])
            if not m:
                if not self.messages:
                    self.stray.append(block)
                    continue
                # what follows an empty line in a message
                d = self.messages[-1]
                d.raw += lines
                rest = list(lines)
            else:
                d = Diagnostic(m.group(1), m.group(2))
                d.raw = lines
                rest = lines[1:]
                self.messages.append(d)
            # a message of several lines
            while rest and not WHERE.match(rest[0]):
                d.message += "\n" + rest.pop(0)
            if rest:
                w = WHERE.match(rest.pop(0))
                d.path = w.group(1)
                d.line = int(w.group(2)) if w.group(2) else None
                d.column = int(w.group(3)) if w.group(3) else None
            for j, l in enumerate(rest):
                m = re.match(r"^(\d+) \| (.*)$", l)
                if m and int(m.group(1)) == d.line and d.source is None:
                    d.source = m.group(2)
                if re.match(r"^ *\| *\^$", l):
                    d.caret = l.index("^") - len(f"{d.line} | ") + 1  # as seen below the quoted line
                m = re.match(r"^ *= help: (.*)$", l)
                if m:
                    d.help = m.group(1)

    @property
    def errors(self):
        return [m for m in self.messages if m.level != "warning"]

    @property
    def warnings(self):
        return [m for m in self.messages if m.level == "warning"]

    def keys(self):
        return sorted(repr(m.raw) for m in self.messages)


def run_qlc(ctx, args=(), cwd=None, env=None, binary=None, color=False, **kw):
    argv = [binary or ctx.qlc] + ([] if color else ["--no-color"]) + list(args)
    run = execute(argv, cwd=cwd, env=env, **kw)
    run.report = Report(run.out)
    return run


def write_project(root, project, schema_name="schema.json"):
    write_tree(root, project.files())
    write_tree(root, {schema_name: json.dumps(project.sc.introspection)})


def prefix_args(project):
    return ["--root-dir-import-prefix", project.prefix] if project.prefix else []


def output_of(path):
    assert path.endswith(".graphql")
    return path + ".d.ts"


def outputs(root):
    """The generated files below the root."""
    return {p: c[1].decode("utf-8", "replace") for p, c in snapshot(root).items()
            if c[0] == "file" and (p.endswith(".graphql.d.ts") or p.endswith(".ts"))}
