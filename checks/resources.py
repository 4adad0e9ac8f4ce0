"""C14 handles closed exactly once; C15 heap ownership in the front end."""
from sa.build import Tree
from sa.ir import Module
from sa import res

PASSES = "function(sroa,early-cse,jump-threading,dce)"


def report(R, eng, rule):
    for fam, f, x, kind, y, msg, path in eng.run(getattr(eng, "only", None)):
        R.violation("%s|%s|%s|%s" % (fam, f.sname, x.callee, kind), y.where(), rule,
                    "%s: resource from %s at %s (in %s): %s" % (kind, x.callee, x.where(), f.sname, msg),
                    ["acquired at %s" % x.trail(), "path: " + " > ".join(path)])
    bad = set((v["key"].split("|")[1], v["key"].split("|")[2]) for v in R.viol)
    R.count("acquisition_sites", eng.sites)
    R.obligation(True, eng.sites - len(bad))
    R.obligation(False, len(bad))
    for fam in eng.families:
        w = [k for k in eng._acq[fam.name] if k not in fam.acquire]
        if w:
            R.notes.append("%s acquired through wrappers: %s" % (fam.name, ", ".join(sorted(w))))


def c14(R, tier):
    R.rules.append("Every call that returns a FILE, descriptor, directory, mapping or library handle is followed on every "
                   "CFG path to a function return by exactly one release or by a transfer of ownership (stored, returned, "
                   "consumed by a callee by summary); no use after the release. Property simulation per acquisition site "
                   "(interval-refined branch correlation), callee parameter summaries computed bottom-up, wrappers that "
                   "return the handle become acquisitions themselves. Process exit counts as release.")
    T = Tree()
    n = 0
    for sel in ("src", "tcc"):
        m = Module(T.dump(sel, passes=PASSES))
        e = res.Engine(m, [res.FILEF, res.FDF, res.DIRF, res.MAPF, res.DLF])
        report(R, e, "close-exactly-once")
        n += len(m.defined)
        for f in m.defined.values():
            for x in f.calls():
                for fam in e.families:
                    if x.callee in fam.acquire:
                        R.count("sites_" + fam.name)
                        R.sample("%s %s at %s in %s" % (fam.name, x.callee, x.where(), f.sname), 20)
    R.count("functions", n)
    R.floor("sites_FILE", 8, "stream acquisitions")
    R.floor("sites_fd", 4, "descriptor acquisitions")
    R.assume += ["a longjmp out of tcc_error releases what the compiler state still owns (C30 covers the state itself)",
                 "external functions borrow their arguments unless listed"]


def c15(R, tier):
    R.rules.append("Every heap block acquired in the front end (malloc family and every function whose summary returns such a "
                   "block) is, on every CFG path to a return, released once, stored, returned or handed to a callee that keeps "
                   "it; no read, write, release or pass-on after the release, and only the start of a block is released.")
    T = Tree()
    m = Module(T.dump(("src", "tcc"), passes=PASSES))
    fam = res.heap(("tcc_malloc", "tcc_mallocz", "tcc_realloc", "tcc_strdup"), ("tcc_free",))
    fam.transfer["tcc_realloc"] = (0, "always")
    e = res.Engine(m, [fam])
    e.only = lambda f: "/src/" in "/" + f.file
    report(R, e, "heap-ownership")
    R.count("functions", sum(1 for f in m.defined.values() if e.only(f)))
    R.floor("acquisition_sites", 25, "heap acquisitions")
