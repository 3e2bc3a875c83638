"""Run external commands of the code under test, several at a time, with limits."""
import concurrent.futures as F
import errno
import os
import resource
import signal
import subprocess
import time


class Out:
    __slots__ = ("status", "out", "err", "wall", "late")

    def __init__(self, status, out, err, wall, late):
        self.status, self.out, self.err, self.wall, self.late = status, out, err, wall, late


def run1(cmd, env=None, cwd=None, stdin=b"", timeout=60, nofile=None, fsize=None, mem=None):
    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if fsize:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    t = time.time()
    while True:
        try:
            p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 start_new_session=True, preexec_fn=pre)
            break
        except OSError as e:
            # a script that another thread's child still holds open for writing
            if e.errno != errno.ETXTBSY or time.time() - t > 20:
                raise
            time.sleep(0.01)
    late = False
    try:
        o, e = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        late = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
    return Out(p.returncode, o.decode("latin-1"), e.decode("latin-1"), time.time() - t, late)


def many(jobs, workers=None, stop=lambda: False):
    """jobs: iterable of (tag, kwargs of run1); yields (tag, kwargs, Out)"""
    it = iter(jobs)
    with F.ThreadPoolExecutor(workers or os.cpu_count() or 4) as ex:
        live = {}
        n = (workers or os.cpu_count() or 4) + 2
        done = False
        while True:
            while not done and len(live) < n:
                try:
                    tag, kw = next(it)
                except StopIteration:
                    done = True
                    break
                live[ex.submit(run1, **kw)] = (tag, kw)
            if not live:
                return
            for f in F.wait(live, return_when=F.FIRST_COMPLETED).done:
                tag, kw = live.pop(f)
                yield tag, kw, f.result()
            if stop():
                done = True


def settle(c, late, what):
    """commands that took too long, one after the other with more time: late is [(tag, kwargs of run1, text)]; yields what
    ended after all; what does not end is a violation, and one of those is enough"""
    for tag, kw, text in late[:3]:
        if c.full():
            return
        o = run1(**dict(kw, timeout=min(240, 2 * kw.get("timeout", 60))))
        if o.late:
            c.violation("hang", what, text + "\n" + o.out[-1500:] + o.err[-1500:])
            c.hung = True
        else:
            yield tag, kw, o
    c.inconclusive += len(late[3:])
