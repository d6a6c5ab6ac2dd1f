"""A Node.js child process used as the reference implementation of the format."""
from __future__ import annotations

import json
import os
import resource
import shutil
import struct
import subprocess

from harness.core import Inconclusive
from harness.model import FromJSON, ToJSON

HERE = os.path.dirname(os.path.abspath(__file__))


class NodeRefused(Exception):
    """Node.js raised: the message of its exception."""


class Node:
    def __init__(self):
        exe = shutil.which("node") or "/usr/bin/node"
        self.p = None
        self.exe = exe
        self.requests = 0

    def start(self):
        def unlimited():
            hard = resource.getrlimit(resource.RLIMIT_AS)[1]
            resource.setrlimit(resource.RLIMIT_AS, (hard, hard))

        soft = resource.getrlimit(resource.RLIMIT_AS)[0]
        env = dict(os.environ, TZ=os.environ.get("TZ", "UTC"))
        self.p = subprocess.Popen(
            [self.exe, "--max-old-space-size=1024", "--js-float16array", os.path.join(HERE, "node_side.js")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            preexec_fn=None if soft == resource.RLIM_INFINITY else unlimited, env=env)

    def ask(self, **q):
        if self.p is None:
            try:
                self.start()
            except OSError as e:
                raise Inconclusive(f"cannot start node: {e}")
        b = json.dumps(q).encode()
        try:
            self.p.stdin.write(struct.pack(">I", len(b)) + b)
            self.p.stdin.flush()
            n = struct.unpack(">I", self._read(4))[0]
            r = json.loads(self._read(n))
        except (OSError, struct.error, EOFError) as e:
            raise Inconclusive(f"node stopped: {e!r}")
        self.requests += 1
        if "error" in r:
            raise NodeRefused(f"{r['name']}: {r['error']}", r.get("stack"))
        return r.get("ok")

    def _read(self, n):
        out = b""
        while len(out) < n:
            c = self.p.stdout.read(n - len(out))
            if not c:
                raise EOFError
            out += c
        return out

    def read(self, data, plain=False):
        """The model of what Node.js deserializes from data."""
        return FromJSON().run(self.ask(op="read", data=bytes(data).hex(), plain=plain))

    def write(self, root, plain=False):
        """The bytes Node.js serializes for the model."""
        return bytes.fromhex(self.ask(op="write", graph=ToJSON().run(root), plain=plain))

    def echo(self, root):
        return FromJSON().run(self.ask(op="echo", graph=ToJSON().run(root)))

    def eval(self, code, arg=None):
        return self.ask(op="eval", code=code, arg=arg)

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            try:
                self.p.wait(10)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.p.stdout.close()
            self.p = None
