"""The common course of a case: generate a project, compile it, dump the modules."""
from .common import Inconclusive
from .gen import combined, make_project
from .model import Module, Operation, Scalars
from .work import output_of, outputs, prefix_args, run_qlc, write_project

CRASH = "crash"


class Options:
    """Options which change the emitted types, and the flags for them."""

    def __init__(self, rng=None, default=0.5):
        self.use_scalars = self.readonly_off = False
        self.scalar_prefix = None
        if rng is not None and rng.random() >= default:
            self.use_scalars = rng.random() < 0.6
            if self.use_scalars and rng.random() < 0.5:
                self.scalar_prefix = rng.choice(["GraphQL_", "Qv", "$"])
            self.readonly_off = rng.random() < 0.5

    @property
    def scalars(self):
        return Scalars(self.use_scalars, self.scalar_prefix)

    @property
    def args(self):
        args = []
        if self.use_scalars:
            args.append("--use-custom-scalars")
        if self.scalar_prefix is not None:
            args += ["--custom-scalar-prefix", self.scalar_prefix]
        if self.readonly_off:
            args.append("--disable-readonly-types")
        return args


class Compiled:
    def __init__(self, ctx, project, root, options, args=(), dump=True, env=None):
        self.project, self.root, self.options = project, root, options
        write_project(root, project)
        self.args = [root] + prefix_args(project) + options.args + list(args)
        self.run = run_qlc(ctx, self.args, env=env)
        self.outputs = outputs(root)
        self.dump = ctx.node.dump(self.outputs) if dump else None
        self.schema = project.sc.schema

    def module(self, doc):
        d = self.dump.get(output_of(doc.path))
        return Module(d) if d is not None else None

    def text(self, doc):
        return self.outputs.get(output_of(doc.path))

    @property
    def globals(self):
        return self.dump.get("graphql-globals.ts")

    def operation(self, doc):
        return Operation(self.schema, combined(doc))

    def details(self, doc=None, **extra):
        d = {"arguments": self.args[1:], "run": self.run.brief(), **extra}
        if doc is not None:
            d.update(file=doc.path, document=combined(doc), module=self.text(doc), schema=self.project.sc.sdl)
        else:
            d.update(files=self.project.files(), schema=self.project.sc.sdl)
        return d


def accepted(compiled, out):
    """Whether the compiler took the valid project; where not it is for another property to say so,
    but for this one nothing could be observed of it."""
    if compiled.run.code == 0:
        return True
    out.count(rejected_projects=1)
    return False


def generate(rng, profile, **kw):
    project = make_project(rng, profile, **kw)
    if not project.docs:
        raise Inconclusive("no document could be generated")
    return project
