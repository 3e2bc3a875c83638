"""Client of harness/runner.c: runs cora programs in forked children of one
initialised process, several at a time."""
import os
import select
import subprocess
import time

from . import build as B

HARNESS = os.path.join(B.VERIF, "harness")


class Result:
    __slots__ = ("status", "out", "wall")

    def __init__(self, status, out, wall):
        self.status, self.out, self.wall = status, out, wall

    @property
    def rss(self):
        """kilobytes at most resident, or None"""
        for l in reversed(self.out.split("\n")):
            if l.startswith("=rss "):
                return int(l[5:])
        return None

    @property
    def values(self):
        return [l[3:] for l in self.out.split("\n") if l.startswith("=> ")]


class Runner:
    def __init__(self, b, scratch, imports=(), jobs=None, env=None, startup_gc=None):
        self.b, self.scratch = b, scratch
        self.jobs = jobs or os.cpu_count() or 4
        exe = os.path.join(b.base, "runner")
        src = os.path.join(HARNESS, "runner.c")
        if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
            tmp = exe + ".%d" % os.getpid()
            rc, out = b.cc(["-w", src, "-o", tmp] + b.libflags())
            if rc != 0:
                raise B.BuildError("runner: " + out)
            os.replace(tmp, exe)
        e = b.env(CORA_RUNNER_SRC=b.src)
        e["CORA_VERIF_STATS"] = os.path.join(scratch, "gcstats")
        if env:
            e.update(env)
        if startup_gc:
            e["CORA_VERIF_GC"] = str(startup_gc)
        self.errlog = os.path.join(scratch, "runner.err")
        with open(self.errlog, "w") as err:
            self.p = subprocess.Popen([exe] + list(imports), cwd=scratch, env=e,
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err)
        self.buf = b""
        self.n = 0
        l = self._line(240)
        if l != "ready":
            self.p.kill()
            self.p.wait()
            more = open(self.errlog, errors="replace").read()[-2000:]
            raise StartError("runner did not start (%r, rc %s): %s" % (l, self.p.returncode, more))

    def _line(self, timeout):
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                d = os.read(self.p.stdout.fileno(), 65536)
                if not d:
                    return None
                self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        s = l.decode("latin-1")
        if s != "ready" and not s[:1].isdigit():
            return self._line(timeout)       # noise of the startup
        return s

    def run(self, jobs):
        """jobs: iterable of dicts text/path, mode, timeout, gc, steps, tag. Yields (job, Result)
        as they finish."""
        it = iter(jobs)
        out = {}
        done = False
        while True:
            while not done and len(out) < self.jobs:
                try:
                    j = next(it)
                except StopIteration:
                    done = True
                    break
                self.n += 1
                i = str(self.n)
                path = j.get("path")
                if path is None:
                    path = os.path.join(self.scratch, "p%s.cora" % i)
                    with open(path, "w", encoding="latin-1") as f:
                        f.write(j["text"])
                o = os.path.join(self.scratch, "p%s.out" % i)
                cmd = "\t".join([i, j.get("mode", "E"), str(j.get("timeout", 20)), str(j.get("gc", 0)),
                                 str(j.get("steps", 0)), j.get("dir", self.scratch), path, o])
                self.p.stdin.write(cmd.encode() + b"\n")
                self.p.stdin.flush()
                out[i] = (j, path, o, time.time())
            if not out:
                return
            l = self._line(900)
            if l is None:
                raise RuntimeError("runner died: " + open(self.errlog, errors="replace").read()[-2000:])
            i, st = l.split()
            if i not in out:
                continue         # left over from a batch that was given up
            j, path, o, t0 = out.pop(i)
            try:
                with open(o, encoding="latin-1") as f:
                    text = f.read()
            except OSError:
                text = ""
            for ext in ("", ".c", ".so"):
                if j.get("path") is None and not j.get("keep"):
                    try:
                        os.unlink(path + ext)
                    except OSError:
                        pass
            try:
                os.unlink(o)
            except OSError:
                pass
            yield j, Result(int(st), text, time.time() - t0)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=30)
        except Exception:
            self.p.kill()
            self.p.wait()


class StartError(Exception):
    """The program under test could not start; its output is in the message."""


def gcstats(scratch):
    """sum of the statistics the collector hooks appended"""
    import json
    tot = {}
    try:
        for l in open(os.path.join(scratch, "gcstats")):
            try:
                for k, v in json.loads(l).items():
                    tot[k] = tot.get(k, 0) + v
            except ValueError:
                pass
    except OSError:
        pass
    return tot
