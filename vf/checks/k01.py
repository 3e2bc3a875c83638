"""Packages: what an import loads, in which order, how often, and from what, under edits, concurrency and kills."""
import concurrent.futures as F
import glob
import os
import re
import resource
import shutil
import signal
import subprocess
import time

RULE = ("a case is a random graph of packages and a sequence of runs over it (cold, warm, after an edit, several at once, after a kill, "
        "in odd directories); the values and the log of every run are compared with a model of the graph")

# preloaded: waits around the calls by which processes see each other's files
DELAY_C = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/stat.h>

static void nap(void) {
	const char *e = getenv("VERIF_DELAY");
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	if (e && atoi(e) > 0) {
		usleep(((unsigned)t.tv_nsec / 64 + getpid() * 7919) % atoi(e));
	}
}

int rename(const char *a, const char *b) {
	int (*f)(const char *, const char *) = dlsym(RTLD_NEXT, "rename");
	nap();
	int r = f(a, b);
	nap();
	return r;
}

int utimensat(int d, const char *p, const struct timespec *t, int fl) {
	int (*f)(int, const char *, const struct timespec *, int) = dlsym(RTLD_NEXT, "utimensat");
	nap();
	int r = f(d, p, t, fl);
	nap();
	return r;
}

int access(const char *p, int m) {
	int (*f)(const char *, int) = dlsym(RTLD_NEXT, "access");
	int r = f(p, m);
	if (strstr(p, ".so")) {
		nap();
	}
	return r;
}
"""

PROMPT = re.compile(r"^\d+ #> ", re.M)


class World:
    """a set of packages in a directory of its own"""

    def __init__(self, c, b, r, odd=""):
        self.r, self.b = r, b
        self.dir = c.dir()
        self.root = os.path.join(self.dir, "root" + odd)
        os.makedirs(os.path.join(self.root, "pkg"))
        os.symlink(b.tree, os.path.join(self.root, "pkg", "cora"))
        self.pk = []

    def make(self, n, density, cyc=False):
        r = self.r
        self.cyc = cyc
        for i in range(n):
            deps = [j for j in range(i) if r.random() < density]
            r.shuffle(deps)
            self.pk.append({"deps": deps, "v": r.randint(1, 99), "h": r.randint(1, 99), "m": r.randint(1, 99),
                            "name": r.choice(["p/k%d", "k%d", "p/q/k%d", "deep/er/k%d"]) % i,
                            "macro": not cyc and r.random() < 0.5, "back": [],
                            "lib": r.sample(["cora/lib/queue", "cora/lib/string", "cora/lib/hash"], r.choice([0, 0, 1]))})
        if cyc:
            # a cycle: an earlier package also imports a later one, and refers to it inside functions by its full name
            for _ in range(r.randint(1, 2)):
                j = r.randrange(n)
                i = r.randrange(n)
                if i <= j:
                    self.pk[i]["back"].append(j)
        for i in range(n):
            self.write(i)

    def text(self, i):
        k = self.pk[i]
        nm = k["name"]

        def far(s, d):
            return "%s#%s%d" % (self.pk[d]["name"], s, d) if self.cyc else "%s%d" % (s, d)
        body = ["(set 'log (cons %d (value-or 'log ())))" % i,
                "(def v%d %d)" % (i, k["v"]),
                "(def cell%d (vector 1))" % i,
                "(vector-set! cell%d 0 %d)" % (i, k["v"]),
                "(defun helper (x) (+ x %d))" % k["h"],
                "(defun twice (f x) (f (f x)))",
                "(defun f%d (x) (+ (helper x) %s))" % (i, fold(["(%s x)" % far("f", d) for d in k["deps"]], "v%d" % i)),
                "(defun g%d (x) (lambda (y) (twice (lambda (z) (+ z (helper x))) (%s y))))" % (
                    i, "helper" if not k["deps"] else far("f", k["deps"][0])),
                "(defun put%d (x) (vector-set! cell%d 0 x))" % (i, i),
                "(defun get%d () (vector-ref cell%d 0))" % (i, i),
                "(set 'seen%d (list %s))" % (i, " ".join("v%d" % d for d in k["deps"] if not self.cyc))]
        if k["macro"]:
            body.append("(defmacro mac%d (exp) (list '+ (cadr exp) %d))" % (i, k["m"]))
        body.append("(defun usemac%d (x) %s)" % (i, fold(["(mac%d x)" % d for d in k["deps"] if self.pk[d]["macro"]], "0")))
        for j in k["back"]:
            body.append("(defun back%d (x) (%s#f%d x))" % (i, self.pk[j]["name"], j))
        imps = ['(import "%s")' % self.pk[d]["name"] for d in k["deps"] + k["back"]] + ['(import "%s")' % l for l in k["lib"]]
        exps = "v%d f%d g%d put%d get%d usemac%d cell%d%s" % ((i,) * 7 + ("".join(" back%d" % i for _ in k["back"][:1]),))
        return '(package "%s"\n %s\n (export %s)\n %s)\n' % (nm, "\n ".join(imps), exps, "\n ".join(body))

    def path(self, i, ext=".cora"):
        return os.path.join(self.root, "pkg", self.pk[i]["name"] + ext)

    def write(self, i):
        p = self.path(i)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(self.text(i))

    # ---- model
    def f(self, i, x):
        k = self.pk[i]
        return x + k["h"] + k["v"] + sum(self.f(d, x) for d in k["deps"])

    def g(self, i, x, y):
        k = self.pk[i]
        a = y + k["h"] if not k["deps"] else self.f(k["deps"][0], y)
        return a + 2 * (x + k["h"])

    def mac(self, i, x):
        k = self.pk[i]
        return sum(x + self.pk[d]["m"] for d in k["deps"] if self.pk[d]["macro"])

    def order(self, roots):
        out, mark = [], set()

        def go(i):
            if i in mark:
                return
            mark.add(i)
            for d in self.pk[i]["deps"] + self.pk[i]["back"]:
                go(d)
            out.append(i)
        for i in roots:
            go(i)
        return out

    # ---- one run
    def program(self, roots):
        """(text for stdin, list of expected printed values)"""
        r = self.r
        forms = []
        for i in roots:
            forms.append(('(import "%s")' % self.pk[i]["name"], None))
        loaded = self.order(roots)
        forms.append(("log", show(loaded[::-1])))
        for i in r.sample(loaded, min(len(loaded), 5)):
            n = self.pk[i]["name"]
            x, y = r.randint(0, 9), r.randint(0, 9)
            forms.append(("(%s#f%d %d)" % (n, i, x), str(self.f(i, x))))
            forms.append(("((%s#g%d %d) %d)" % (n, i, x, y), str(self.g(i, x, y))))
            forms.append(("(list (%s#usemac%d %d) seen%d (%s#get%d))" % (n, i, x, i, n, i), "(%d %s %d)" % (
                self.mac(i, x), show([self.pk[d]["v"] for d in self.pk[i]["deps"] if not self.cyc]), self.pk[i]["v"])))
            forms.append(("(do (%s#put%d %d) (list (%s#get%d) (vector-ref %s#cell%d 0)))" % (n, i, x, n, i, n, i), "(%d %d)" % (x, x)))
            for j in self.pk[i]["back"][:1]:
                if self.pk[i]["back"] == [j]:
                    forms.append(("(%s#back%d %d)" % (n, i, x), str(self.f(j, x))))
            if self.pk[i]["macro"]:
                forms.append(("(mac%d %d)" % (i, x), str(x + self.pk[i]["m"])))
        # again: nothing is loaded twice
        for i in roots[::-1]:
            forms.append(('(import "%s")' % self.pk[i]["name"], None))
        forms.append(("log", show(loaded[::-1])))
        return forms

    def loadfile(self, roots):
        """a file that imports the roots and uses their names without prefix"""
        r = self.r
        t, e = [], []
        for i in roots:
            x = r.randint(0, 9)
            t.append("(f%d %d) ((g%d %d) 3) (usemac%d %d) v%d" % (i, x, i, x, i, x, i))
            e += [self.f(i, x), self.g(i, x, 3), self.mac(i, x), self.pk[i]["v"]]
        p = os.path.join(self.dir, "main%d.cora" % r.randrange(10**9))
        with open(p, "w") as f:
            f.write("%s\n(set 'res (list %s))\n" % ("\n".join('(import "%s")' % self.pk[i]["name"] for i in roots), " ".join(t)))
        loaded = self.order(roots)
        return [('(load "%s")' % p, None), ("res", show(e)), ("log", show(loaded[::-1]))]

    def start(self, forms, slash=False, delay=0):
        env = self.b.env()
        if delay:
            env["LD_PRELOAD"] = self.shim
            env["VERIF_DELAY"] = str(delay)
        env["CORAPATH"] = self.root + ("/" if slash else "")
        p = subprocess.Popen([self.b.cora], env=env, cwd=self.dir, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, start_new_session=True,
                             preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
        return p, "\n".join(t for t, _ in forms).encode() + b"\n"

    def run(self, forms, timeout=120):
        p, text = self.start(forms, self.r.random() < 0.5)
        try:
            out, _ = p.communicate(text, timeout=timeout)
            late = False
        except subprocess.TimeoutExpired:
            late = True
            kill(p)
            out, _ = p.communicate()
        clean(p.pid)
        return p.returncode, out.decode("latin-1"), late

    def judge(self, forms, res):
        rc, out, late = res
        if late:
            return "did not finish\n" + out[-1500:]
        got = [x.rstrip("\n") for x in PROMPT.split(out)[1:]][:-1]
        if rc != 0 or len(got) != len(forms):
            return "status %d, %d of %d forms answered\n%s" % (rc, len(got), len(forms), out[-1500:])
        for (t, e), g in zip(forms, got):
            if e is not None and g != e:
                return "%s\nexpected %s\ngot      %s\n%s" % (t, e, g, out[-1500:])
        return None


def own(w, r, name, k):
    """write a file, and give forms that load it and look at what it did"""
    p = os.path.join(w.dir, name + ".cora")
    a = r.randint(1, 99)
    with open(p, "w") as f:
        f.write("(set 'only (lambda (x) (+ x %d)))\n(set 'res (list %d (only 1)))\n" % (a, k))
    return [('(load "%s")' % p, None), ("res", "(%d %d)" % (k, a + 1)), ("(only 3)", str(a + 3))]


def fold(xs, z):
    out = z
    for x in reversed(xs):
        out = "(+ %s %s)" % (x, out)
    return out


def show(x):
    if isinstance(x, list):
        return "(" + " ".join(map(show, x)) + ")" if x else "()"
    return str(x)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def clean(pid):
    for f in glob.glob("/tmp/cora-xxx-%d-*" % pid):
        try:
            os.unlink(f)
        except OSError:
            pass


def scenario(c, b, kind, i):
    """-> (ident, steps observed, None or (key, message, text))"""
    r = c.rng(kind, i)
    odd = {"space": " with space & $x 'q'", "long": "/" + "d" * 200 + "/" + "e" * 220 + "/" + "f" * 150}.get(kind, "")
    if kind == "space":
        odd = r.choice([" with space", "a&b", "x$HOME", "it's", "(p);q", "*?[z]", '"q"'])
    w = World(c, b, r, odd)
    w.shim = c.shim
    n = r.randint(1, 4) if kind in ("kill", "during", "space", "long", "edit") else r.randint(2, 8)
    if kind == "chain":
        n = r.randint(10, 14)
    w.make(n, {"chain": 0}.get(kind, r.choice([0.2, 0.4, 0.7])), kind == "cycle")
    if kind == "chain":
        for j in range(1, n):
            w.pk[j]["deps"] = [j - 1]
        for j in range(n):
            w.write(j)
    seen = []
    top = n - 1

    def roots():
        x = [top] + [j for j in range(n) if r.random() < 0.3 and j != top]
        r.shuffle(x)
        return x

    def go(what, forms=None):
        forms = forms or (w.loadfile(roots()) if r.random() < 0.3 else w.program(roots()))
        v = w.judge(forms, w.run(forms))
        seen.append(what)
        if v:
            return (kind, "packages gave another result (%s)" % what,
                    v + "\n---- runs: " + " ".join(seen) + "\n---- input:\n" + "\n".join(t for t, _ in forms)
                    + "\n---- packages:\n" + "\n".join(w.text(j) for j in range(n)))

    def steps():
        if kind in ("dag", "cycle", "space", "long", "chain"):
            yield go("cold")
            yield go("warm")
            yield go("warm")
        elif kind == "edit":
            yield go("cold")
            for _ in range(3):
                for j in r.sample(range(n), r.randint(1, n)):
                    w.pk[j]["v"] = r.randint(1, 99)
                    w.pk[j]["h"] = r.randint(1, 99)
                    w.write(j)
                yield go("edited")
                yield go("warm")
        elif kind == "during":
            # an edit while the package is built: this run may see either source, the next must see the new one
            for _ in range(2):
                f = w.program(roots())
                p, text = w.start(f)
                p.stdin.write(text)
                p.stdin.close()
                p.stdin = None
                time.sleep(r.choice([0.01, 0.03, 0.06, 0.1, 0.15, 0.25]))
                j = r.randrange(n)
                w.pk[j]["v"] = r.randint(1, 99)
                w.write(j)
                if p.poll() is None:
                    seen.append("during")
                try:
                    p.communicate(timeout=120)
                except subprocess.TimeoutExpired:
                    kill(p)
                    p.communicate()
                clean(p.pid)
                yield go("edited")
        elif kind == "bin":
            # the sources of compiled packages are not needed
            yield go("cold", w.program(list(range(n))))
            for j in range(n):
                if r.random() < 0.6:
                    os.unlink(w.path(j))
            yield go("binary")
        elif kind == "together":
            if r.random() < 0.4:
                yield go("cold")
                for j in r.sample(range(n), r.randint(1, n)):
                    w.pk[j]["v"] = r.randint(1, 99)
                    w.write(j)
            forms = [w.program(roots()) for _ in range(4)]
            ps = []
            for f in forms:
                p, text = w.start(f, delay=r.choice([0, 0, 40000]))
                p.stdin.write(text)
                p.stdin.close()
                p.stdin = None
                ps.append(p)
                time.sleep(r.choice([0, 0, 0.01, 0.05, 0.15]))
            for p, f in zip(ps, forms):
                late = False
                try:
                    out, _ = p.communicate(timeout=150)
                except subprocess.TimeoutExpired:
                    late = True
                    kill(p)
                    out, _ = p.communicate()
                clean(p.pid)
                seen.append("together")
                v = w.judge(f, (p.returncode, out.decode("latin-1"), late))
                if v:
                    yield (kind, "processes that import the same packages at the same time disturb each other",
                           v + "\n---- packages:\n" + "\n".join(w.text(j) for j in range(n)))
            yield go("after")
        elif kind == "loads":
            # several processes load files of their own, and the same one
            ps = []
            both = own(w, r, "both", 0)
            for k in range(5):
                f = []
                for m in range(3):
                    f += own(w, r, "own%d_%d" % (k, m), k * 10 + m + 1)
                f.insert(r.randrange(0, len(f), 3), None)
                f = [x for y in f for x in (both if y is None else [y])]
                p, text = w.start(f, delay=60000)
                p.stdin.write(text)
                p.stdin.close()
                p.stdin = None
                ps.append((p, f))
            for p, f in ps:
                late = False
                try:
                    out, _ = p.communicate(timeout=150)
                except subprocess.TimeoutExpired:
                    late = True
                    kill(p)
                    out, _ = p.communicate()
                clean(p.pid)
                seen.append("loads")
                v = w.judge(f, (p.returncode, out.decode("latin-1"), late))
                if v:
                    yield (kind, "processes that load files at the same time disturb each other", v)
        elif kind == "kill":
            for _ in range(3):
                f = w.program(roots())
                p, text = w.start(f, delay=r.choice([0, 0, 40000]))
                try:
                    p.stdin.write(text)
                    p.stdin.close()
                except OSError:
                    pass
                p.stdin = None
                # while the compiler runs, most of the time
                for _ in range(r.choice([0, 30, 100, 300, 600])):
                    time.sleep(0.001)
                    if p.poll() is not None:
                        break
                else:
                    seen.append("killed")
                kill(p)
                p.communicate()
                clean(p.pid)
            yield go("after-kill")
            yield go("warm")
    v = None
    for s in steps():
        if s:
            v = s
            break
    shutil.rmtree(w.dir, ignore_errors=True)
    return "\n".join(w.text(j) for j in range(n)), seen, v


def run(c):
    b = c.build("plain")
    d = c.dir()
    c.shim = os.path.join(d, "delay.so")
    with open(os.path.join(d, "delay.c"), "w") as f:
        f.write(DELAY_C)
    subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", c.shim, os.path.join(d, "delay.c"), "-ldl"], check=True)
    plan = []
    for kind, q in (("dag", 20), ("edit", 14), ("during", 12), ("together", 16), ("kill", 18), ("cycle", 8), ("space", 7), ("long", 3), ("chain", 2),
                    ("bin", 6), ("loads", 6)):
        plan += [(kind, i) for i in range(c.n(q * 4, q * 40))]
    c.rng("order").shuffle(plan)
    with F.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        fs = []
        for kind, i in plan:
            fs.append(ex.submit(lambda k, j: None if c.full() else scenario(c, b, k, j), kind, i))
        for (kind, i), f in zip(plan, fs):
            x = f.result()
            if x is None:
                continue
            ident, seen, v = x
            c.case(kind + ident, True, ident[:600])
            c.count("scenario." + kind)
            for s in seen:
                c.count("run." + s)
            if v:
                c.violation(*v)
    for k, n in (("cold", 30), ("warm", 40), ("edited", 20), ("together", 30), ("loads", 30), ("killed", 5), ("after-kill", 10), ("during", 2)):
        c.floor("run." + k, n)
    c.assumptions = ["a change of a macro is not expected to reach packages that were compiled with the old one",
                     "two imported packages do not export the same name, and a package does not define a name that it imports",
                     "packages in a cycle use each other only inside functions and by full names",
                     "a kill is of the process and its compiler; loss of what the kernel has not written is not simulated"]
