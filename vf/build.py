"""Out-of-tree builds of /repo's current working tree.

A build lives in <cache>/<hash>-<variant>/ :
    bin/gcc                 wrapper that adds the variant's flags to every gcc the
                            makefiles (and cora's own import/load) start
    root/pkg/cora/          copy of the tree, built in place; CORAPATH=<..>/root
Nothing is written into /repo.
"""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))

BASE = ["-g", "-O0", "-fno-omit-frame-pointer", "-DCORA_VERIF"]
VARIANTS = {
    "plain": BASE,
    # guard off: what a user builds
    "user": ["-g"],
    "asan": BASE + ["-fsanitize=address,undefined",
                    "-fno-sanitize-recover=undefined",
                    # the value representation is built on these
                    "-fno-sanitize=alignment,pointer-overflow"],
    "tsan": BASE + ["-fsanitize=thread"],
    "cov": BASE + ["--coverage"],
}

SKIP_DIRS = {".git", ".deps", "__pycache__"}
SKIP_EXT = (".o", ".so", ".a", ".test", ".bin", ".gcda", ".gcno")


class BuildError(Exception):
    pass


def source_files(repo=REPO):
    out = []
    for d, ds, fs in os.walk(repo):
        ds[:] = sorted(x for x in ds if x not in SKIP_DIRS)
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, repo)
            if rel == "cora" or f.endswith(SKIP_EXT):
                continue
            if rel.startswith("test/t/") and rel.endswith(".c"):
                continue
            out.append(rel)
    return out


def tree_hash(repo=REPO):
    h = hashlib.sha256()
    for rel in source_files(repo):
        p = os.path.join(repo, rel)
        h.update(rel.encode() + b"\0")
        if os.path.islink(p):
            h.update(os.readlink(p).encode())
        elif os.path.isfile(p):
            with open(p, "rb") as f:
                h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:16]


def sh(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       stdin=subprocess.DEVNULL, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


class Build:
    def __init__(self, variant, base):
        self.variant = variant
        self.base = base
        self.root = os.path.join(base, "root")
        self.tree = os.path.join(self.root, "pkg", "cora")
        self.bin = os.path.join(base, "bin")
        self.src = os.path.join(self.tree, "src")
        self.cora = os.path.join(self.tree, "cora")

    def env(self, **extra):
        e = {k: v for k, v in os.environ.items()
             if k not in ("CORAPATH", "CORADEBUG", "MAKEFLAGS", "CFLAGS", "LDFLAGS",
                          "ENABLE_ASAN", "ENABLE_TSAN", "CORA_SRC_DIR", "LD_PRELOAD")}
        e["CORAPATH"] = self.root
        e["PATH"] = self.bin + ":" + self.tree + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
        e["LC_ALL"] = "C"
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:handle_sigill=0:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
        e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0"
        e.update(extra)
        return e

    def libflags(self):
        return ["-I" + self.src, "-L" + self.src, "-lcora", "-ldl", "-lm",
                "-Wl,-rpath," + self.src]

    def cc(self, args, timeout=300):
        rc, out = sh([os.path.join(self.bin, "gcc")] + list(args), env=self.env(), timeout=timeout)
        return rc, out


def _make(b):
    env = b.env()
    env.pop("CORAPATH")
    j = "-j%d" % (os.cpu_count() or 4)
    steps = [
        ["make", j, "CC=gcc", "-C", "src", "CORA_SRC_DIR=" + b.src],
        ["make", "CC=gcc", "CORA_SRC_DIR=" + b.src, "cora"],
        ["make", "CC=gcc", "-C", "lib", "extra"],
    ]
    for s in steps:
        rc, out = sh(s, cwd=b.tree, env=env)
        if rc != 0:
            raise BuildError("%s failed:\n%s" % (" ".join(s), out[-4000:]))
    # cora ignores a .so older than the .cora beside it
    for d, _, fs in os.walk(b.tree):
        for f in fs:
            if f.endswith(".so"):
                os.utime(os.path.join(d, f))
    for f in ("cora", "src/libcora.so", "init.so", "lib/toc.so"):
        if not os.path.exists(os.path.join(b.tree, f)):
            raise BuildError("missing " + f)


def build(variant="plain", repo=REPO):
    key = tree_hash(repo) + "-" + hashlib.sha256(
        (" ".join(VARIANTS[variant])).encode()).hexdigest()[:6] + "-" + variant
    base = os.path.join(CACHE, key)
    done = os.path.join(base, ".ok")
    if os.path.exists(done):
        return Build(variant, base)
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, "." + key + ".lock"), "w")
    import fcntl
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(done):
        return Build(variant, base)
    # keep the cache small: drop builds of other trees
    if not os.environ.get("VERIF_KEEP_CACHE"):
        mine = key.split("-")[0]
        for d in os.listdir(CACHE):
            if "-" in d and not d.startswith(mine) and not d.startswith("."):
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
    shutil.rmtree(base, ignore_errors=True)
    b = Build(variant, base)
    os.makedirs(b.bin)
    os.makedirs(b.tree)
    with open(os.path.join(b.bin, "gcc"), "w") as f:
        # the collector is the hot spot of the stress runs
        f.write("#!/bin/sh\ncase \"$*\" in *gc.c*) o=%s;; *) o=;; esac\nexec /usr/bin/gcc %s $o \"$@\"\n"
                % ("-O1" if variant != "user" else "", " ".join(VARIANTS[variant])))
    os.chmod(os.path.join(b.bin, "gcc"), 0o755)
    for rel in source_files(repo):
        s, d = os.path.join(repo, rel), os.path.join(b.tree, rel)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copy2(s, d, follow_symlinks=False)
    _make(b)
    open(done, "w").close()
    return b


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(build(v).tree)
