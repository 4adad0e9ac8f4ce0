"""Turn /repo's current working tree into LLVM bitcode + resolved-program JSON.

Everything happens in a scratch directory; /repo is only read.  The compile
commands are taken from the repository's own makefiles (make -n), the generated
inputs (config.h, tccdefs_.h, assets.c/.h) are regenerated with the repository's
own build scripts.  No code of the analysed program is executed.
"""
import hashlib, json, os, pickle, re, shlex, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
CLANG = "/usr/lib/llvm-18/bin/clang"
LLVMLIB = "/usr/lib/llvm-18/lib"


class BuildError(Exception):
    pass


def run(cmd, cwd=None, env=None, ok=(0,)):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode not in ok:
        raise BuildError("command failed (%d): %s\n%s" % (
            p.returncode, cmd if isinstance(cmd, str) else " ".join(cmd),
            p.stderr.decode(errors="replace")[-4000:]))
    return p.stdout.decode(errors="replace")


def _sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


KNOWN = os.path.join(VERIF, "sa", "functions.txt")       # the functions of the tree the rules were written for


def tool():
    """Build (once) the IR dumper and the LP kernel; return path of irx."""
    os.makedirs(BUILD, exist_ok=True)
    srcs = [os.path.join(VERIF, "tool", f) for f in ("irx.cpp",)]
    out = os.path.join(BUILD, "irx-" + _sha(srcs))
    if not os.path.exists(out):
        flags = run(["llvm-config-18", "--cxxflags"]).split()
        flags = [f for f in flags if not f.startswith("-std=")]
        tmp = out + ".tmp%d" % os.getpid()
        run(["g++", "-std=c++17", "-O1", "-fno-rtti", srcs[0], "-o", tmp] + flags +
            ["-L" + LLVMLIB, "-lLLVM-18", "-Wl,-rpath," + LLVMLIB])
        os.rename(tmp, out)
    return out


GENERATED = re.compile(r"(^|/)(embed_[^/]*\.c|assets\.[ch]|config\.h|config\.mak|tccdefs_\.h|c2str\.exe|[^/]*\.(o|a|bc|exe|so))$")


def repo_files():
    out = []
    for base in ("src", "build", "lib/tinycc"):
        for dp, dn, fn in os.walk(os.path.join(REPO, base)):
            rel = os.path.relpath(dp, REPO)
            if rel == "lib/tinycc":
                dn[:] = [d for d in dn if d not in ("tests", "examples", "win32")]
            dn[:] = sorted(d for d in dn if d != ".git")
            for f in sorted(fn):
                r = os.path.join(rel, f)
                if GENERATED.search(r) or r == "lib/tinycc/tcc":
                    continue
                p = os.path.join(REPO, r)
                if os.path.isfile(p) and os.path.getsize(p) < (8 << 20):
                    out.append(r)
    out.append("GNUmakefile")
    return [f for f in out if os.path.isfile(os.path.join(REPO, f))]


def source_key(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0")
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.abspath(__file__), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:24]


class Macros:
    def __init__(self, defs):
        self.defs, self.done = defs, {}

    def get(self, name, default=None, depth=0):
        if name in self.done:
            return self.done[name]
        t = self.defs.get(name)
        if t is None or depth > 20:
            return default
        ok = True

        def sub(m):
            nonlocal ok
            v = self.get(m.group(0), None, depth + 1)
            if v is None:
                ok = False
                return "0"
            return "(%d)" % v
        e = re.sub(r"'(.)'", lambda m: str(ord(m.group(1))), t)
        e = re.sub(r"\b(0[xX][0-9a-fA-F]+|\d+)[uUlL]*\b", r"\1", e)
        e = re.sub(r"\b[A-Za-z_]\w*", sub, e)
        v = default
        if ok and re.fullmatch(r"[\s0-9a-fA-FxX+\-*/%<>&|^~()]+", e):
            try:
                v = int(eval(re.sub(r"\b0+(?=[1-9])", "", e), {"__builtins__": {}}))
            except Exception:
                v = default
        self.done[name] = v
        return v


# the compiler's own names for fields that are read out of its data structures
PROBE = """
#include "tcc.h"
int probe_functype(Sym *s) { return s->f.func_type; }
int probe_bitpos(int t) { return BIT_POS(t); }
int probe_bitsize(int t) { return BIT_SIZE(t); }
int probe_isbf(int t) { return !!(t & VT_BITFIELD); }
int probe_isenum(int t) { return !!IS_ENUM(t); }
int probe_enumval(int t) { return !!IS_ENUM_VAL(t); }
int probe_aligned(Sym *s) { return s->a.aligned; }
int probe_adaligned(AttributeDef *a) { return a->a.aligned; }
int probe_packed(Sym *s) { return s->a.packed; }
long long probe_value(Sym *s) { return s->enum_val; }
"""


class Tree:
    """Bitcode of every translation unit of the current tree."""

    def __init__(self):
        self.files = repo_files()
        self.key = source_key(self.files)
        self.dir = os.path.join(BUILD, "cache", self.key)
        self.meta = None
        mpath = os.path.join(self.dir, "meta.json")
        ph = hashlib.sha256(PROBE.encode()).hexdigest()[:12]
        if os.path.exists(mpath) and not os.path.exists(os.path.join(self.dir, "probe-" + ph)):
            shutil.rmtree(self.dir)
        if not os.path.exists(mpath):
            self._make()
        with open(mpath) as f:
            self.meta = json.load(f)

    # ------------------------------------------------------------------
    def _make(self):
        scratch = tempfile.mkdtemp(prefix="cjit-sa-")
        try:
            self._make_in(scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    def _make_in(self, S):
        for f in self.files:
            d = os.path.join(S, f)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, f), d)
            shutil.copymode(os.path.join(REPO, f), d)
        env = dict(os.environ, CC="gcc", LC_ALL="C.UTF-8")
        for k in ("MAKEFLAGS", "CFLAGS", "LDFLAGS"):
            env.pop(k, None)
        T = os.path.join(S, "lib/tinycc")
        run(["bash", "./configure", "--cc=gcc", "--with-libgcc"], cwd=T, env=env)
        run("gcc -DC2STR conftest.c -o c2str.exe && ./c2str.exe include/tccdefs.h tccdefs_.h",
            cwd=T, env=env) if False else run(
            ["bash", "-c", "gcc -DC2STR conftest.c -o c2str.exe && ./c2str.exe include/tccdefs.h tccdefs_.h"],
            cwd=T, env=env)
        open(os.path.join(T, "libtcc1.a"), "w").close()
        # asset registration code exactly as the makefile generates it (payload is irrelevant)
        run(["bash", "-c",
             "bash build/init-assets.sh && bash build/embed-asset-path.sh lib/tinycc/libtcc1.a && "
             "bash build/embed-asset-path.sh lib/tinycc/include && "
             "(echo; echo 'return(true);'; echo '}') >> src/assets.c && (echo; echo '#endif') >> src/assets.h"],
            cwd=S, env=env)
        tus = []
        # tinycc library objects
        mk = run(["make", "-n", "-B", "libtcc.a"], cwd=T, env=env)
        for line in mk.splitlines():
            m = re.match(r"gcc -o (\S+\.o) -c (\S+\.c) (.*)$", line)
            if m:
                tus.append(("tcc", "lib/tinycc/" + m.group(2), shlex.split(m.group(3)), T, m.group(2)))
        mk = run(["make", "-n", "-B", "tcc.o"], cwd=T, env=env)
        for line in mk.splitlines():
            m = re.match(r"gcc -o (\S+\.o) -c (tcc\.c) (.*)$", line)
            if m:
                tus.append(("tccmain", "lib/tinycc/" + m.group(2), shlex.split(m.group(3)), T, m.group(2)))
        if sum(1 for t in tus if t[0] == "tcc") < 8:
            raise BuildError("could not derive the tinycc compile commands")
        # front end objects
        mk = run(["make", "-n", "-B", "-f", "build/linux.mk", "CC=gcc", "-o", "embed-posix", "cjit"],
                 cwd=S, env=env, ok=(0, 1, 2))
        mk = mk.replace("\\\n", " ")
        for line in mk.splitlines():
            m = re.match(r"\s*gcc\s+(.*)-c (src/\S+\.c) -o (\S+)\s*(.*)$", line)
            if m:
                fl = shlex.split(m.group(1) + " " + m.group(4))
                tus.append(("src", m.group(2), fl, S, m.group(2)))
        if sum(1 for t in tus if t[0] == "src") < 10:
            raise BuildError("could not derive the front-end compile commands")
        # run-time support objects (compiled by tcc itself in the real build)
        for f in ("bcheck.c", "bt-exe.c", "bt-log.c", "runmain.c", "tcov.c", "libtcc1.c",
                  "stdatomic.c", "builtin.c", "va_list.c"):
            if os.path.exists(os.path.join(T, "lib", f)):
                tus.append(("rt", "lib/tinycc/lib/" + f,
                            ["-I..", "-I.", "-DCONFIG_TRIPLET=\"x86_64-linux-gnu\"", "-DTCC_TARGET_X86_64",
                             "-DCONFIG_USE_LIBGCC", "-DONE_SOURCE=0", "-Wno-everything"], os.path.join(T, "lib"), f))
        tmpout = self.dir + ".tmp%d" % os.getpid()
        shutil.rmtree(tmpout, ignore_errors=True)
        os.makedirs(tmpout)
        keep = re.compile(r"^(-D|-I|-U|-include|-std=|-f(no-)?strict-aliasing)")

        def comp(tu):
            grp, rel, fl, cwd, arg = tu
            flags = []
            it = iter(fl)
            for x in it:
                if x in ("-I", "-D", "-U", "-include"):
                    flags += [x, next(it)]
                elif keep.match(x) and not x.startswith("-D_FORTIFY_SOURCE"):
                    flags.append(x)
            bc = os.path.join(tmpout, rel.replace("/", "__") + ".bc")
            cmd = [CLANG, "-x", "c", "-std=gnu17", "-O0", "-Xclang", "-disable-O0-optnone", "-g",
                   "-fno-discard-value-names", "-w", "-Wno-error", "-Wno-implicit-function-declaration",
                   "-Wno-int-conversion", "-Wno-incompatible-function-pointer-types",
                   "-emit-llvm", "-c", arg, "-o", bc] + flags
            p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode != 0:
                if grp == "rt":
                    return None
                raise BuildError("clang failed on %s\n%s" % (rel, p.stderr.decode()[-3000:]))
            return (grp, rel, bc)

        with ThreadPoolExecutor(8) as ex:
            res = [r for r in ex.map(comp, tus) if r]
        meta = {"tus": [[g, r, os.path.basename(b)] for g, r, b in res],
                "skipped": sorted(set(t[1] for t in tus) - set(r for _, r, _ in res))}
        with open(os.path.join(tmpout, "meta.json"), "w") as f:
            json.dump(meta, f)
        shutil.copyfile(os.path.join(S, "src/assets.c"), os.path.join(tmpout, "assets.c"))
        for grp, rel, fl, cwd, arg in tus:
            if rel.endswith("/tccgen.c"):
                p = subprocess.run([CLANG, "-E", "-dM", "-w"] + [x for x in fl if keep.match(x)] + [arg], cwd=cwd,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                with open(os.path.join(tmpout, "macros.txt"), "wb") as f:
                    f.write(p.stdout)
                with open(os.path.join(cwd, "_probe.c"), "w") as f:
                    f.write(PROBE)
                if comp(("rt", "probe", fl, cwd, "_probe.c")):
                    meta["tus"].append(["probe", "probe", "probe.bc"])
                    with open(os.path.join(tmpout, "meta.json"), "w") as f:
                        json.dump(meta, f)
        open(os.path.join(tmpout, "probe-" + hashlib.sha256(PROBE.encode()).hexdigest()[:12]), "w").close()
        try:
            os.rename(tmpout, self.dir)
        except OSError:
            shutil.rmtree(tmpout, ignore_errors=True)

    # ------------------------------------------------------------------
    def bitcode(self, sel):
        """sel: group name(s) or list of relative source paths"""
        out = []
        for g, r, b in self.meta["tus"]:
            if (isinstance(sel, (set, tuple, list)) and (g in sel or r in sel)) or g == sel:
                out.append(os.path.join(self.dir, b))
        if not out:
            raise BuildError("no translation unit matches %r" % (sel,))
        return out

    def macros(self):
        """the integer-valued macros of the compiler's sources"""
        defs = {}
        with open(os.path.join(self.dir, "macros.txt"), errors="replace") as f:
            for line in f:
                m = re.match(r"#define (\w+) (.*)$", line)
                if m:
                    defs[m.group(1)] = m.group(2)
        return Macros(defs)

    BASE = "function(sroa,simplifycfg,early-cse,simplifycfg,dce)"

    def dump(self, sel, passes=None, inline=False, keep=(), noinline=(), tag=None):
        passes = passes or self.BASE
        desc = json.dumps([sorted(sel) if not isinstance(sel, str) else sel, passes, inline,
                           sorted(keep), sorted(noinline)])
        with open(os.path.join(VERIF, "tool", "irx.cpp"), "rb") as f:
            th = hashlib.sha256(f.read())
        with open(KNOWN, "rb") as f:
            th.update(f.read())
        th = th.hexdigest()[:8]
        h = hashlib.sha256((desc + th).encode()).hexdigest()[:16]
        path = os.path.join(self.dir, "ir-%s.json" % h)
        if not os.path.exists(path):
            cmd = [tool(), "-known", KNOWN]
            if passes:
                cmd += ["-p", passes]
            if inline:
                cmd += ["-inline"]
            for k in sorted(keep):
                cmd += ["-keep", k]
            for k in sorted(noinline):
                cmd += ["-noinline", k]
            tmp = path + ".tmp%d" % os.getpid()
            run(cmd + ["-o", tmp] + self.bitcode(sel))
            os.rename(tmp, path)
        with open(path) as f:
            return json.load(f)


if __name__ == "__main__":
    t = time.time()
    T = Tree()
    print(T.key, len(T.meta["tus"]), T.meta["skipped"], "%.1fs" % (time.time() - t))
