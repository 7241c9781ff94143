"""Machinery shared by the checks: building, running TLC, replaying, validating."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("POREADER_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
POREC = os.path.join(BUILD, "target", "debug", "porec")


class ToolError(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


class Scratch:
    def __init__(self, name):
        self.dir = os.path.join(BUILD, "run", "%s-%d" % (name, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------- building
def _sources_digest():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not (base == REPO and d in ("target", ".git")))
        for f in sorted(files):
            p = os.path.join(base, f)
            if os.path.isfile(p) and not os.path.islink(p):
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fd:
                    h.update(fd.read() + b"\0")
    return h.hexdigest()


def build():
    """Builds the harness against /repo's working tree (cargo alone would go by dates)."""
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, "target")
    mark = os.path.join(BUILD, "sources.sha256")
    digest = _sources_digest()
    old = open(mark).read() if os.path.exists(mark) else ""
    if old != digest:
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("poreader-"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TARGET_DIR=target,
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("the harness does not build:\n" + r.stdout[-4000:])
    with open(mark, "w") as f:
        f.write(digest)


# ---------------------------------------------------------------- TLC
class TlcRun:
    """One run of TLC in the background; its output goes to a file."""

    def __init__(self, scratch, name, module, env, workers=4, cfg=None, timeout=850, heap="5g"):
        self.name, self.module, self.timeout = name, module, timeout
        self.out = scratch.path(name + ".out")
        meta = scratch.path(name + ".meta")
        tmp = scratch.path(name + ".tmp")
        os.makedirs(tmp)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in env.items()})
        cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Djava.io.tmpdir=" + tmp,
               "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers), "-metadir", meta, "-config", (cfg or module) + ".cfg", module + ".tla"]
        self.env = env
        self.t0 = time.time()
        self.fd = open(self.out, "wb")
        self.proc = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=self.fd, stderr=subprocess.STDOUT)

    def wait(self):
        try:
            self.proc.wait(timeout=max(1, self.timeout - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
            raise ToolError("TLC took too long: " + self.name)
        finally:
            self.fd.close()
        self.wall = time.time() - self.t0
        self.generated = self.distinct = 0
        ok = False
        tail = []
        with open(self.out, errors="replace") as f:
            for l in f:
                if l.startswith('"{'):
                    continue
                tail.append(l)
                m = re.match(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", l)
                if m:
                    self.generated, self.distinct = int(m.group(1)), int(m.group(2))
                if "No error has been found" in l:
                    ok = True
        if not ok or self.proc.returncode != 0:
            text = "".join(tail)
            raise ToolError("TLC did not accept %s %s:\n%s" % (self.module, self.env, text[-3000:]))
        return self

    def kill(self):
        if self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()


def json_lines(path):
    """The JSON texts TLC printed."""
    with open(path, errors="replace") as f:
        for l in f:
            if l.startswith('"{'):
                try:
                    yield json.loads(json.loads(l))
                except ValueError:
                    pass


# ---------------------------------------------------------------- the real reader
class Crash(Exception):
    """The process running the real code died or hung."""

    def __init__(self, what, index=None):
        super().__init__(what)
        self.index = index


def porec(args, stdin_path, out_path, timeout=600):
    with open(stdin_path, "rb") as i, open(out_path, "wb") as o:
        try:
            r = subprocess.run(["bash", "-c", "ulimit -v 14000000; exec \"$0\" \"$@\"", POREC] + args, stdin=i, stdout=o, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Crash("no answer within %d s" % timeout)
    err = r.stderr.decode(errors="replace")
    m = re.search(r"TIMEOUT (\d+)", err)
    if m:
        raise Crash("hangs", int(m.group(1)))
    if r.returncode == 101:
        raise ToolError("harness error: " + err[-2000:])
    if r.returncode != 0:
        raise Crash("process ended with %d: %s" % (r.returncode, err[-300:].strip()))


def culprit(scratch, lines, args, head):
    """The line that makes the process die, by bisection."""
    def dies(part):
        p, q = scratch.path("bisect.in"), scratch.path("bisect.out")
        with open(p, "w") as f:
            f.writelines(head + part)
        try:
            porec(args, p, q, timeout=120)
            return False
        except Crash:
            return True
    t0 = time.time()
    while len(lines) > 1 and time.time() - t0 < 200:
        h = len(lines) // 2
        if dies(lines[:h]):
            lines = lines[:h]
        elif dies(lines[h:]):
            lines = lines[h:]
        else:
            break
    return lines[0]
