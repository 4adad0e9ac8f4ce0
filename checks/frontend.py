"""C08 / C09: exit status fidelity of the front end."""
from sa.build import Tree
from sa.ir import Module, _op, opvals
from sa.flow import FailFlow, Short, NEG, NONNEG, ZERO, POS, NULL, NONNULL, NZ
from sa.esp import TOP, INF

PASSES = "function(sroa,early-cse,jump-threading,dce)"

M1 = (-1, -1, True)
LEAVES = {
    # the compiler library (libtcc.h: -1 on error)
    "tcc_new": (NULL, NONNULL), "tcc_compile_string": (M1, NONNEG), "tcc_add_file": (M1, NONNEG),
    "tcc_output_file": (M1, NONNEG), "tcc_relocate": (M1, NONNEG), "tcc_get_symbol": (NULL, NONNULL),
    # the system
    "fork": (M1, NONNEG), "waitpid": (M1, NONNEG), "fopen": (NULL, NONNULL), "fopen64": (NULL, NONNULL),
    "open": (M1, NONNEG), "open64": (M1, NONNEG), "fstat": (M1, ZERO), "mkdir": (M1, ZERO),
    "fread": (Short(2), None), "read": (Short(2, -1), None), "ftell": (M1, NONNEG), "opendir": (NULL, NONNULL),
}


def in_src(f):
    return "/src/" in "/" + f.file


def tolerate(f, x):
    if f.file.endswith("elflinker.c"):
        return "library search is best effort: what is missing shows up as an undefined symbol at link time"
    if f.file.endswith("cjit-ar.c"):
        return "the ar tool is covered by C22"
    if x.callee == "mkdir" and f.file.endswith("muntar.c"):
        return "the directory may exist; creating the files in it fails otherwise"
    return None


REDO = ("cjit_add_buffer", "cjit_add_source", "cjit_add_file", "cjit_compile_file", "cjit_link", "cjit_exec")


def absorb(site, y):
    """the status report fails only when the set-up fails; the operations below do the set-up
    themselves (or refuse to run without it), and their own results are checked"""
    if site.callee != "cjit_status" or y.callee is None:
        return False
    seen, work = set(), [y.callee]
    while work:
        c = work.pop()
        if c in REDO:
            return True
        f = y.fn.mod.defined.get(c)
        if f is None or c in seen or not in_src(f):
            continue
        seen.add(c)
        work += [z.callee for z in f.calls() if z.callee]
    return False


def c08(R, tier):
    R.rules.append("Failure flow: for every call of a fallible operation (compiling, adding, linking or relocating code, finding "
                   "the entry symbol, starting or awaiting the program, opening or reading an input, creating the runtime "
                   "directory, decompressing) in the front end the failure outcome is propagated along every feasible path to "
                   "the function's exits; each such exit must return a failure value. The hull of these values is the failure "
                   "outcome of the function itself at its call sites, up to main, where the process must not exit with 0.")
    m = Module(Tree().dump("src", passes=PASSES))
    leaves = dict(LEAVES)
    F = FailFlow(m, leaves, tolerate, in_src, absorb).run()
    for f, x, ok in F.checked:
        R.obligation(ok)
        R.count("sites_in_" + f.sname)
        R.sample("%s in %s at %s" % (x.callee, f.sname, x.where()), 60)
    R.count("fallible_sites", F.sites)
    for t in F.tolerated:
        R.notes.append("tolerated: " + t)
    for f, x, t, why, path in F.bad:
        R.violation("%s|%s" % (f.sname, x.callee), t.where(), "failure-flow",
                    "failure of %s at %s (in %s): %s" % (x.callee, x.where(), f.sname, why),
                    ["path: " + " > ".join(path or [])])
    R.floor("fallible_sites", 25, "fallible call sites")
    R.floor("sites_in_main", 5, "fallible calls in main")
    R.need("main" in m.defined, "main")
