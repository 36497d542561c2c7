"""A persistent TypeScript compiler process."""
import json
import os
import subprocess

from .common import NODE_MODULES, REPO, Inconclusive

GRAPHQL_STUB = """export interface DocumentNode {
  readonly kind: "Document"; readonly definitions: ReadonlyArray<unknown>; readonly loc?: unknown;
}
"""


class TsNode:
    def __init__(self):
        self.proc = None

    def _start(self):
        self.proc = subprocess.Popen(["node", "--max-old-space-size=1500", os.path.join(os.path.dirname(__file__), "tsnode.js"),
                                      NODE_MODULES], stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def request(self, req):
        line = (json.dumps(req) + "\n").encode()
        for _ in range(2):
            if self.proc is None or self.proc.poll() is not None:
                self._start()
            try:
                self.proc.stdin.write(line)
                self.proc.stdin.flush()
                reply = self.proc.stdout.readline()
                if reply:
                    reply = json.loads(reply)
                    if "error" in reply:
                        raise Inconclusive("TypeScript process: " + reply["error"][:500])
                    return reply["ok"]
            except (BrokenPipeError, OSError):
                pass
            self.proc.kill()
            self.proc.wait()
            self.proc = None
        raise Inconclusive("TypeScript process died")

    def dump(self, files):
        return self.request({"cmd": "dump", "files": files})

    def check(self, files, paths):
        return self.request({"cmd": "check", "files": files, "paths": paths})


def typed_documentnode():
    with open(os.path.join(REPO, "pkg/npm/lib/typed-documentnode.d.ts"), encoding="utf-8") as f:
        return f.read()
