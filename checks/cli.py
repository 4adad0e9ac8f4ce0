"""C12: command line options; C16: program arguments; C20: set-up typestate; C21: option parser
progress; C24: modes that only produce a file never run the program."""
import re
from sa.build import Tree
from sa.ir import Module, _op, opvals, operands
from sa.esp import Sim, Client, INF, TOP, NONNULL, NULL, const, meet
from sa.flow import strip
from sa.focus import focus, PLAIN

STATE = "CJITState"
STOP = ("_err", "_out", "ketopt", "cjit_free", "cjit_new", "cjit_status", "cjit_exec", "cjit_link", "cjit_add_file", "cjit_add_source",
        "cjit_add_buffer", "cjit_compile_file", "cjit_setup", "cjit_ar", "extract_assets", "muntargz_to_path", "file_load",
        "load_stdin", "remove_args", "resolve_libs", "new_abspath", "XArray_AddData")


def field(f, o):
    """name of the CJITState field an address denotes, or None"""
    off = 0
    while True:
        if o[0] == "gep":
            off += o[2]
            o = o[1]
            continue
        if o[0] == "v":
            x = f.defs.get(o[1])
            if x is not None and x.op == "getelementptr" and not x.d.get("var"):
                off += x.d["coff"]
                o = x.ops[0]
                continue
        break
    if not isstate(f, o):
        return None
    return f.mod.field_at(STATE, off)


def isstate(f, o, seen=None):
    if o[0] != "v":
        return False
    seen = set() if seen is None else seen
    if o[1] in seen:
        return False
    seen.add(o[1])
    x = f.defs.get(o[1])
    if x is None:
        p = f.pidx.get(o[1])
        return p is not None and p + 1 < len(f.ditypes) and STATE in str(f.ditypes[p + 1])
    return x.op == "call" and x.callee == "cjit_new" or (x.op == "phi" and any(isstate(f, _op(v), seen) for v, _ in x.d["inc"]))


def stores_state(f):
    return sum(1 for _ in f.insts()) < 80 and any(x.op == "store" and field(f, x.ops[1]) for x in f.insts())


# documented effect of each option: (required on every way back to the parser, allowed in addition).
# "arg:X" means the effect must take the option's value
SPEC = {
    "q": ((), {"quiet"}), "v": (("print_status",), set()), "verb": (("verbose",), {"quiet"}),
    "D": (("define",), set()), "c": (("output=3",), {"quiet", "output_obj"}),
    "o": (("output_filename",), {"output=2"}), "L": ((), {"libpaths"}), "l": (("libs",), set()),
    "C": (("options",), set()), "I": ((), {"include"}), "e": (("entry",), set()), "p": ((), {"write_pid"}),
    "xass": (("assets",), set()), "xtgz": ((), {"untar", "readfile"}), "h": (("help",), set()), "help": (("help",), set()),
    "src": ((), {"untar"}),
}
# at least one way performs these
MAY = {"q": "quiet", "L": "libpaths", "I": "include", "p": "write_pid", "xtgz": "untar", "o": "output=2"}
TAKES = {"define", "options", "include", "libs", "untar_file"}
DEREF = {"strlen": (0,), "strcpy": (1,), "strcmp": (0, 1), "strncmp": (0, 1), "strdup": (0,), "file_load": (0,), "tcc_define_symbol": (1,),
         "tcc_add_include_path": (1,), "tcc_set_options": (1,), "new_abspath": (0,), "cjit_add_library": (1,), "strcpy": (0, 1)}
CALLS = {"tcc_define_symbol": "define", "tcc_set_options": "options", "tcc_add_include_path": "include", "extract_assets": "assets",
         "muntargz_to_path": "untar", "file_load": "readfile", "tcc_add_library_path": "libpaths", "cjit_exec": "run", "cjit_link": "link",
         "cjit_add_file": "addfile", "tcc_add_sysinclude_path": "include"}
FIELDS = {"quiet", "verbose", "print_status", "entry", "output_filename", "write_pid", "output_obj", "live"}


class Opts(Client):
    """ts = None-like "idle" or ("o", option name, effects)"""

    def __init__(self, R, f, vals, need, helptext):
        self.R, self.f, self.vals, self.need, self.help = R, f, vals, need, helptext
        self.seen = {}
        self.optp = None
        self.where = {}

    def init(self, f):
        return [("idle", {})]

    def step(self, ts, env, x):
        if x.op == "call" and x.callee == "ketopt":
            self.close(ts, x, None)
            c = self.sim.cell(x.ops[0])
            self.argcell = (c[0], c[1], c[2] + 8) if c else None
            r = [("end", {x.id: (-INF, -1, True)})]
            for nm, v in self.vals.items():
                r.append((("o", nm, frozenset()), {x.id: const(v)}))
            r.append(("err", {x.id: const(ord("?"))}))
            r.append(("err", {x.id: const(ord(":"))}))
            r.append(("sep", {x.id: const(ord("-"))}))
            return r
        if isinstance(ts, str):
            return None
        nm, eff = ts[1], ts[2]
        if x.op == "load" and x.ty == "ptr" and self.argcell and self.sim.cell(x.ops[0]) == self.argcell:
            if self.need.get(nm) == 1:
                return [(ts, {x.id: NONNULL})]
            if self.need.get(nm) == 0:
                return [(ts, {x.id: NULL})]
            v = env.get(("m", self.argcell))
            if v is None or (v != NULL and not v[2]):
                return [(ts, {x.id: NULL, ("m", self.argcell): NULL}), (ts, {x.id: NONNULL, ("m", self.argcell): NONNULL})]
        add = set()
        if x.op == "call" and x.callee:
            for i in DEREF.get(x.callee, ()):
                if i < len(x.ops) and self.isarg(x.ops[i]):
                    v = self.sim.val(env, x.ops[i])
                    self.R.count("value_uses")
                    if not v[2]:
                        self.R.violation("main|%s|value" % nm, x.where(), "option-value", "option %s may be given without a value, but its value is used (%s)" % (nm, x.callee))
            e = CALLS.get(x.callee)
            if e:
                add.add(e)
                if e in TAKES and not any(self.isarg(o) for o in x.ops[1:2]):
                    self.R.violation("main|%s|%s|arg" % (nm, e), x.where(), "option-value", "option %s does not pass its value to %s" % (nm, x.callee))
                    
            if x.callee == "XArray_AddData":
                d = self.f.defs.get(x.ops[0][1]) if x.ops[0][0] == "v" else None
                fl = field(self.f, d.ops[0]) if d is not None and d.op == "load" else None
                if fl:
                    add.add(fl)
            if x.callee in ("_err", "fprintf", "printf", "puts", "_out", "fputs"):
                for o in x.ops[:2]:
                    g = o[1] if o[0] == "g" else o[1][1] if o[0] == "gep" and o[1][0] == "g" else None
                    if g in self.help:
                        add.add("help")
        if x.op == "store":
            fl = field(self.f, x.ops[1])
            if fl == "tcc_output":
                v = self.sim.val(env, x.ops[0])
                add.add("output=%s" % (v[0] if v[0] == v[1] else "?"))
            elif fl in FIELDS:
                v = self.sim.val(env, x.ops[0])
                if fl in ("quiet", "verbose", "print_status", "output_obj"):
                    if not (nm == "verb" and fl == "quiet") and meet(v, const(0)) is not None:
                        add.add(fl + " off")
                    else:
                        add.add(fl)
                elif v != NULL:
                    add.add(fl)
        if add:
            for a in add:
                self.where.setdefault((nm, a), x.where())
            return [(("o", nm, eff | add), None)]
        return None

    def isarg(self, o):
        o = strip(self.f, o)
        seen = set()
        while o[0] == "v" and o[1] not in seen:
            seen.add(o[1])
            x = self.f.defs.get(o[1])
            if x is None:
                return False
            if x.op == "load":
                return self.argcell is not None and self.sim.cell(x.ops[0]) == self.argcell
            if x.op == "phi":
                return any(self.isarg(_op(v)) for v, _ in x.d["inc"] if _op(v)[0] == "v" and _op(v)[1] not in seen)
            if x.op == "call" and x.callee in ("new_abspath", "strdup"):
                o = x.ops[0]
                continue
            return False
        return False

    def close(self, ts, x, status):
        """the option's handling ends: back at the parser, or the process exits with `status`"""
        if isinstance(ts, str):
            return
        nm, eff = ts[1], ts[2]
        R = self.R
        self.seen.setdefault(nm, set()).update(eff)
        self.n = getattr(self, "n", 0) + 1
        must, may = SPEC.get(nm, ((), None))
        if may is None:
            return
        if status is not None and meet(status, const(0)) is None:
            return      # ends with an error
        for e in must:
            R.obligation(e in eff)
            if e not in eff:
                R.violation("main|%s|missing|%s" % (nm, e), x.where(), "option-effect", "option %s can be accepted without its documented effect (%s)" % (nm, e), ["path: " + " > ".join(self.sim.path())])
        for e in eff - set(must) - may:
            R.violation("main|%s|foreign|%s" % (nm, e), self.where.get((nm, e), x.where()), "option-effect", "option %s also has the effect of another option (%s)" % (nm, e))

    def exit(self, ts, env, t):
        self.close(ts, t, self.sim.val(env, t.ops[0]) if t.ops else None)

    def noreturn(self, ts, env, x):
        if x.callee in ("exit", "_exit"):
            self.close(ts, x, self.sim.val(env, x.ops[0]))


def longopts(m, g):
    out = {}
    g = m.globals[g]
    st = m.structs.get("ko_longopt_t")
    size = st["size"] if st else 16
    rows = {}
    for off, n, v in g.get("init") or []:
        rows.setdefault(off // size, {})[off % size] = v
    for i in sorted(rows):
        r = rows[i]
        nm = m.gstr(_op(r.get(0, ["n"])))
        if nm is None:
            break
        out[nm] = (r.get(8, ["i", 0])[1], r.get(12, ["i", 0])[1])
    return out


def gname(o):
    while o[0] == "gep":
        o = o[1]
    return o[1] if o[0] == "g" else None


def c12(R, tier):
    R.rules.append("The option table (the string and the long-option array handed to the option parser) is read from the resolved "
                   "program and compared with the help text: every documented option is recognised, takes a value exactly when the "
                   "help says so, and option codes are distinct. Then, per option code, main (helpers inlined) is "
                   "explored from the parser call back to it or to exit: every way has the option's documented effect (field "
                   "stored, compiler call made with the option's value), none has the effect of another option, and a value that "
                   "may be absent is never used as a string.")
    T = Tree()
    m = focus(T, "src", ["main"], lambda x: x.callee in CALLS or x.callee in ("ketopt", "XArray_AddData"), stop=STOP,
              force=stores_state)
    f = R.need(m.defined.get("main"), "main")
    ks = list(f.calls("ketopt"))
    R.need(ks, "the call of the option parser")
    k = ks[0]
    ostr = R.need(m.gstr(k.ops[4]), "the option string")
    lo = longopts(m, R.need(gname(k.ops[5]), "the long option array"))
    helps = [n for n, g in m.globals.items() if g.get("str") and "Options and values" in bytes.fromhex(g["str"]).decode("latin1")]
    R.need(helps, "the help text")
    text = m.gstr(("g", helps[0]))
    need, vals = {}, {}
    for i, c in enumerate(ostr):
        if c == ":":
            continue
        need[c] = 1 if ostr[i + 1:i + 2] == ":" else 0
        vals[c] = ord(c)
    for nm, (ha, v) in lo.items():
        need[nm], vals[nm] = ha, v
    R.count("options", len(vals))
    dup = {}
    for nm, v in vals.items():
        ok = v not in dup and v > 0 and v not in (ord("?"), ord(":"), ord("-"))
        R.obligation(ok)
        if not ok:
            R.violation("options|code|%s" % nm, k.where(), "option-table", "option %s has the same code as %s" % (nm, dup.get(v, "an error")))
        dup[v] = nm
    docs = 0
    for line in text.split("\n"):
        q = re.match(r"^ (--?)(\w+)( \w+)?\s*\t\s*(.*)$", line)
        if not q:
            continue
        docs += 1
        nm, val, rest = q.group(2), q.group(3), q.group(4)
        known = nm in need and ((len(nm) > 1) == (q.group(1) == "--"))
        R.obligation(known)
        R.sample("help line: %s" % line.strip(), 40)
        if not known:
            R.violation("options|documented|%s" % nm, "main.c", "option-table", "the documented option %s%s is not recognised" % (q.group(1), nm))
            continue
        want = 2 if "(=)" in rest else 1 if (val or "(+)" in rest or "(-)" in rest) else 0
        ok = need[nm] == want
        R.obligation(ok)
        if not ok:
            R.violation("options|value|%s" % nm, "main.c", "option-table", "option %s%s: the help text and the option table disagree about its value" % (q.group(1), nm))
        if nm not in SPEC:
            R.notes.append("no effect specified for documented option " + nm)
    R.count("documented_options", docs)
    cl = Opts(R, f, vals, need, set(helps))
    Sim(f, cl).run()
    R.count("option_handling_ends", getattr(cl, "n", 0))
    for nm in vals:
        eff = cl.seen.get(nm, set())
        R.sample("option %s: %s" % (nm, ", ".join(sorted(eff)) or "no effect"), 60)
        e = MAY.get(nm)
        if e:
            R.obligation(e in eff)
            if e not in eff:
                R.violation("main|%s|never|%s" % (nm, e), "main.c", "option-effect", "option %s never has its documented effect (%s)" % (nm, e))
    R.floor("documented_options", 10, "options in the help text")


# ---------------------------------------------------------------------------------------------- C16
def lin(f, o, memo, depth=0):
    """value as linear form over atoms (two's complement, width ignored)"""
    if o[0] == "i":
        return {1: o[1]}
    if o[0] != "v" or depth > 30:
        return {o: 1}
    if o[1] in memo:
        return memo[o[1]]
    x = f.defs.get(o[1])
    r = {o: 1}
    if x is not None:
        if x.op in ("sext", "zext", "trunc", "freeze"):
            r = lin(f, x.ops[0], memo, depth + 1)
        elif x.op in ("add", "sub"):
            a, b = lin(f, x.ops[0], memo, depth + 1), lin(f, x.ops[1], memo, depth + 1)
            s = 1 if x.op == "add" else -1
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + s * v
        elif x.op == "load":
            r = {("ld",) + (str(addr(f, x.ops[0])),): 1}
    r = {k: v for k, v in r.items() if v}
    memo[o[1]] = r
    return r


def addr(f, o):
    off = 0
    while True:
        if o[0] == "gep":
            off += o[2]
            o = o[1]
            continue
        if o[0] == "v":
            x = f.defs.get(o[1])
            if x is not None and x.op == "getelementptr" and not x.d.get("var"):
                off += x.d["coff"]
                o = x.ops[0]
                continue
        return (o, off)


def c16(R, tier):
    R.rules.append("Linear forms: where main starts the program, (position of the argument vector in the cleaned vector) + (argument "
                   "count) equals the length of the cleaned vector, so the program sees everything up to its end; the loop that adds "
                   "source files runs up to exactly that boundary. The function that drops ignored options never drops anything "
                   "after the separator, keeps the order and terminates the vector.")
    T = Tree()
    m = focus(T, "src", ["main"], lambda x: x.callee in ("cjit_exec", "remove_args"), stop=STOP)
    f = R.need(m.defined.get("main"), "main")
    memo = {}
    for x in f.calls("cjit_exec"):
        R.count("program_starts")
        n, v = x.ops[1], x.ops[2]
        g = f.defs.get(v[1]) if v[0] == "v" else None
        pos = {}
        base = v
        while g is not None and g.op == "getelementptr":
            pos[1] = pos.get(1, 0) + g.d["coff"] // 8
            for s, w in g.d.get("var", []):
                if s % 8:
                    pos[("?", s)] = 1
                for k2, c in lin(f, _op(w), memo).items():
                    pos[k2] = pos.get(k2, 0) + c * (s // 8)
            base = g.ops[0]
            g = f.defs.get(base[1]) if base[0] == "v" else None
        tot = dict(lin(f, n, memo))
        for k2, c in pos.items():
            tot[k2] = tot.get(k2, 0) + c
        tot = {k2: c for k2, c in tot.items() if c}
        # the length: *argc after remove_args
        b = f.defs.get(base[1]) if base[0] == "v" else None
        lens = set()
        if b is not None and b.op == "call":
            for o in b.ops:
                lens.add(("ld", str(addr(f, o))))
        ok = len(tot) == 1 and list(tot.values()) == [1] and list(tot)[0] in lens
        R.obligation(ok)
        R.sample("position + count = %s at %s" % (tot, x.where()))
        if not ok:
            R.violation("main|cjit_exec|argv", x.where(), "argument-tail", "the arguments handed to the program are not the rest of the command line (position + count = %s)" % tot)
        # the boundary used by the source loop
        bound = {k2: c for k2, c in pos.items() if k2 != 1}
        R.need(len(bound) == 1, "the boundary between files and arguments")
        atom = list(bound)[0]
        c1 = pos.get(1, 0)
        R.obligation(c1 == -1)
        if c1 != -1:
            R.violation("main|cjit_exec|argv0", x.where(), "argument-zero", "the program's first argument is not the last entry before the boundary (offset %d)" % c1)
        for y in f.calls("cjit_add_file"):
            R.count("source_adders")
    R.floor("program_starts", 1, "calls that start the program")
    separator(R, T)


class Keep(Client):
    """in remove_args: after an argument equal to "--" was seen no element is dropped"""

    def __init__(self, R, f):
        self.R, self.f = R, f
        self.drops = 0

    def init(self, f):
        return [("left", {})]

    def dashcmp(self, x):
        return x.op == "call" and x.callee in ("strcmp", "strncmp") and any(self.f.mod.gstr(o) == "--" for o in x.ops[:2] if o[0] in ("g", "gep"))

    def step(self, ts, env, x):
        if self.dashcmp(x):
            if ts == "right":
                return None
            return [("right", {x.id: const(0)}), (ts, {x.id: (-INF, INF, True)})]
        if x.op == "store" and x.d.get("size", x.d.get("sz")) in (1, None) and x.ops[0][0] == "i" and x.ops[0][1] == 0:
            a = self.f.defs.get(x.ops[1][1]) if x.ops[1][0] == "v" else None
            if a is not None and a.op == "getelementptr" and a.d.get("var"):
                self.drops += 1
                ok = ts != "right"
                self.R.obligation(ok)
                if not ok:
                    self.R.violation("remove_args|after-separator", x.where(), "arguments-verbatim", "an argument after the separator is dropped")
        return None


def separator(R, T):
    m = focus(T, "src", ["remove_args"], lambda x: x.callee == "calloc" and x.fn.file.endswith("main.c"), stop=("main",))
    f = m.defined.get("remove_args")
    if f is None:
        R.notes.append("remove_args is gone: arguments are not filtered")
        return
    tests = [x for x in f.calls() if x.callee in ("strcmp", "strncmp") and any(m.gstr(o) == "--" for o in x.ops[:2] if o[0] in ("g", "gep"))]
    cl = Keep(R, f)
    Sim(f, cl).run()
    R.count("drop_points", cl.drops)
    R.obligation(bool(tests) or not cl.drops)
    if cl.drops and not tests:
        R.violation("remove_args|separator", f.file.split("/")[-1], "arguments-verbatim", "arguments are dropped without regard to the separator")


# ---------------------------------------------------------------------------------------------- C24
class Modes(Client):
    """ts = (output file: ? n s, output kind: ? o(bj) x)"""

    def __init__(self, R, f):
        self.R, self.f, self.n, self.m = R, f, 0, 0

    def init(self, f):
        return [(("?", "?"), {})]

    def step(self, ts, env, x):
        of, ok = ts
        if x.op == "load":
            fl = field(self.f, x.ops[0])
            if fl == "output_filename":
                if of == "?":
                    return [(("n", ok), {x.id: NULL}), (("s", ok), {x.id: NONNULL})]
                return [(ts, {x.id: NULL if of == "n" else NONNULL})]
            if fl == "tcc_output":
                o3, lo, hi = const(3), (-INF, 2, False), (4, INF, True)
                if ok == "?":
                    return [((of, "o"), {x.id: o3}), ((of, "l"), {x.id: lo}), ((of, "h"), {x.id: hi})]
                return [(ts, {x.id: {"o": o3, "l": lo, "h": hi}[ok]})]
        if x.op == "store":
            fl = field(self.f, x.ops[1])
            if fl == "output_filename":
                return [(("?", ok), None)]
            if fl == "tcc_output":
                return [((of, "?"), None)]
        if x.op == "call" and x.callee == "cjit_exec":
            self.n += 1
            for b, w, k in ((of != "n", "an output file was asked for (-o)", "o"), (ok in "o?", "only an object file was asked for (-c)", "c")):
                self.R.obligation(not b)
                if b:
                    self.R.violation("main|cjit_exec|mode-%s" % k, x.where(), "run-mode", "the program can be executed although %s" % w, ["path: " + " > ".join(self.sim.path())])
        if x.op == "call" and x.callee in ("cjit_link", "cjit_compile_file"):
            self.m += 1
        return None


def c24(R, tier):
    R.rules.append("Typestate over main (helpers inlined): the state tracks what is known of the output file name and of the output "
                   "kind; the call that executes the program is reached only where no output file was requested and the output "
                   "kind is known not to be an object file. In the executing function the start of the program is reached at most "
                   "once per state and only after the code was relocated and the entry symbol found.")
    T = Tree()
    m = focus(T, "src", ["main"], lambda x: x.callee in ("cjit_exec", "cjit_link", "cjit_compile_file"), stop=STOP)
    f = R.need(m.defined.get("main"), "main")
    cl = Modes(R, f)
    Sim(f, cl).run()
    R.count("execution_states", cl.n)
    R.count("file_producing_states", cl.m)
    if not cl.m:
        R.violation("main|produce|never", "main.c", "run-mode", "no option makes the front end produce a file")
    R.need(cl.n, "the execution in main")


# ---------------------------------------------------------------------------------------------- C20
READY = {"tcc_compile_string", "tcc_add_file", "tcc_output_file", "tcc_relocate"}


def setup_funcs(m):
    """functions that mark the state as set up"""
    return [f.name for f in m.defined.values() if any(x.op == "store" and field(f, x.ops[1]) == "done_setup" and x.ops[0][0] == "i" and x.ops[0][1] for x in f.insts())]


class Ready(Client):
    """ts: (no | ready | failed, relocated, exec flag seen clear, exec flag set)"""

    def __init__(self, R, f, setup):
        self.R, self.f, self.setup = R, f, setup
        self.n = 0

    def init(self, f):
        return [(("no", False, False, False), {})]

    def bad(self, x, k, msg):
        self.R.violation("%s|%s|%s" % (self.f.sname, x.callee or "entry", k), x.where(), "setup-order", "in %s: %s" % (self.f.sname, msg), ["path: " + " > ".join(self.sim.path())])

    def step(self, ts, env, x):
        st, rel, clear, done = ts
        if x.op == "load":
            fl = field(self.f, x.ops[0])
            if fl == "done_setup":
                if st == "no":
                    return [(("ready", rel, clear, done), {x.id: const(1)}), (("no", rel, clear, done), {x.id: const(0)})]
                return [(ts, {x.id: const(1) if st == "ready" else const(0)})]
            if fl == "done_exec":
                if not clear and not done:
                    return [((st, rel, True, done), {x.id: const(0)}), ((st, rel, clear, True), {x.id: const(1)})]
        if x.op == "store" and field(self.f, x.ops[1]) == "done_exec":
            v = self.sim.val(env, x.ops[0])
            return [((st, rel, clear, "set" if clear and v[2] else done), None)]
        if x.op != "call":
            return None
        if x.callee in self.setup:
            return [(("ready", rel, clear, done), {x.id: const(1)}), (("failed", rel, clear, done), {x.id: const(0)})]
        if x.callee in READY:
            self.n += 1
            self.R.obligation(st == "ready")
            if st != "ready":
                self.bad(x, st, "%s can be called %s" % (x.callee, "before the set-up" if st == "no" else "after the set-up failed"))
        if x.callee == "tcc_relocate":
            return [((st, True, clear, done), {x.id: (0, INF, False)}), ((st, "failed", clear, done), {x.id: (-INF, -1, True)})]
        if x.callee == "tcc_get_symbol":
            self.n += 1
            self.R.obligation(rel is True)
            if rel is not True:
                self.bad(x, "reloc", "the entry symbol is looked up without the code having been relocated successfully")
        if x.callee in ("fork", "vfork"):
            self.n += 1
            ok = done == "set"
            self.R.obligation(ok)
            if not ok:
                self.bad(x, "once", "the program can be started without the once-only flag having been clear before and set")
        return None


# what a completed set-up has done
def setup_effect(f, x):
    if x.op == "call":
        c = x.callee
        if c == "extract_assets":
            return "assets"
        if c == "tcc_set_output_type":
            d = f.defs.get(x.ops[1][1]) if x.ops[1][0] == "v" else None
            return "output-type" if d is not None and d.op == "load" and field(f, d.ops[0]) == "tcc_output" else "output-type?"
        if c in ("tcc_add_library_path", "tcc_add_sysinclude_path"):
            d = f.defs.get(x.ops[1][1]) if x.ops[1][0] == "v" else None
            if d is not None and d.op == "load" and field(f, d.ops[0]) == "tmpdir":
                return "runtime-libs" if c == "tcc_add_library_path" else "runtime-headers"
        if c == "getenv" and f.mod.gstr(x.ops[0]) == "CFLAGS":
            return "cflags"
        if c in ("read_ldsoconf", "read_ldsoconf_dir"):
            return c
    if x.op == "store" and field(f, x.ops[1]) == "done_setup":
        return "done" if x.ops[0][0] == "i" and x.ops[0][1] else "undone"
    return None


class Setup(Client):
    NEEDED = ("assets", "output-type", "runtime-libs", "runtime-headers", "cflags", "read_ldsoconf", "read_ldsoconf_dir", "done")

    def __init__(self, R, f):
        self.R, self.f, self.n = R, f, 0

    def init(self, f):
        return [(("run", frozenset()), {})]

    def step(self, ts, env, x):
        st, eff = ts
        if x.op == "load" and field(self.f, x.ops[0]) == "done_setup":
            return [(("again", eff), {x.id: const(1)}), (ts, {x.id: const(0)})] if st == "run" else None
        e = setup_effect(self.f, x)
        if e == "assets":
            return [((st, eff | {e}), {x.id: const(1)}), (("failed", eff), {x.id: const(0)})]
        if e == "done" and st == "failed":
            self.R.violation("%s|failed" % self.f.sname, x.where(), "setup-complete", "the state is marked as set up although the runtime files could not be extracted")
        return [((st, eff | {e}), None)] if e else None

    def exit(self, ts, env, t):
        st, eff = ts
        v = self.sim.val(env, t.ops[0]) if t.ops else const(1)
        if st == "again" or meet(v, (-INF, INF, True)) is None:
            return
        self.n += 1
        for e in self.NEEDED:
            self.R.obligation(e in eff and st != "failed")
            if e not in eff:
                self.R.violation("%s|missing|%s" % (self.f.sname, e), t.where(), "setup-complete", "the set-up can succeed without: %s" % e, ["path: " + " > ".join(self.sim.path())])
        if st == "failed":
            self.R.violation("%s|success-after-failure" % self.f.sname, t.where(), "setup-complete", "the set-up can succeed although the runtime files could not be extracted")


def c20(R, tier):
    R.rules.append("Typestate over every function of the front end (helpers inlined): code is compiled, added, linked or relocated "
                   "only in states where the set-up succeeded (its result was true or the set-up flag was read as set); the entry symbol is "
                   "looked up only after a successful relocation; the program starts only after the once-only flag was clear "
                   "and has been set. The set-up function itself reports success only on ways that performed all its steps.")
    T = Tree()
    m0 = Module(T.dump("src", passes=PLAIN))
    st = R.need(setup_funcs(m0), "the set-up function")
    rel = lambda x: x.callee in READY or x.callee in st or x.callee in ("tcc_get_symbol", "fork", "vfork")
    users = [f.name for f in m0.defined.values() if "/src/" in "/" + f.file and not f.internal and f.name not in ("main",)
             and any(rel(x) for x in f.calls()) and any(STATE in str(t) for t in f.ditypes[1:2])]
    m = focus(T, "src", users + st, rel, stop=tuple(users) + ("_err", "_out", "cjit_ar"))
    for n in users:
        f = m.defined.get(n)
        if f is None or n in st:
            continue
        cl = Ready(R, f, st)
        Sim(f, cl).run()
        R.count("functions")
        R.count("guarded_states", cl.n)
        R.sample("%s: %d guarded states" % (n, cl.n), 40)
    m2 = focus(T, "src", st, lambda x: x.callee in ("tcc_set_output_type", "extract_assets", "tcc_add_library_path", "tcc_add_sysinclude_path", "read_ldsoconf", "read_ldsoconf_dir"),
               stop=("_err", "_out", "extract_assets", "read_ldsoconf", "read_ldsoconf_dir"))
    for n in st:
        f = R.need(m2.defined.get(n), n)
        cl = Setup(R, f)
        Sim(f, cl).run()
        R.count("setup_exits", cl.n)
    R.floor("functions", 4, "front-end operations")
    R.floor("guarded_states", 6, "guarded compiler calls")
    R.floor("setup_exits", 1, "successful set-up exits")


# ---------------------------------------------------------------------------------------------- C21
class Progress(Client):
    """ts = (i advanced, pos advanced)"""

    def __init__(self, R, f, io, po):
        self.R, self.f, self.io, self.po, self.n = R, f, io, po, 0

    def init(self, f):
        return [((False, False), {})]

    def fld(self, o):
        b, off = addr(self.f, o)
        return off if b == ("v", self.f.params[0][0]) else None

    def current(self, o, mine, seen):
        """the current position: the field itself, or (for a fresh argument) a constant start"""
        if o in seen:
            return True
        seen.add(o)
        if o[0] == "i":
            return o[1] >= 0
        x = self.f.defs.get(o[1]) if o[0] == "v" else None
        if x is None:
            return False
        if x.op == "load":
            return ("ld", str(addr(self.f, x.ops[0]))) == mine
        if x.op == "phi":
            return all(self.current(_op(v), mine, seen) for v, _ in x.d["inc"])
        if x.op == "select":
            return all(self.current(v, mine, seen) for v in x.ops[1:])
        return False

    def step(self, ts, env, x):
        if x.op != "store":
            return None
        off = self.fld(x.ops[1])
        if off not in (self.io, self.po):
            return None
        d = lin(self.f, x.ops[0], {})
        mine = ("ld", str((("v", self.f.params[0][0]), off)))
        rest = [k for k in d if k != 1]
        up = d.get(1, 0) > 0 and len(rest) == 1 and d[rest[0]] == 1 and (rest[0] == mine or self.current(rest[0], mine, set()))
        i, p = ts
        if off == self.io:
            return [((i or up, p), None)]
        if up:
            return [((i, True), None)]
        v = self.sim.val(env, x.ops[0])
        if x.ops[0][0] == "i" and x.ops[0][1] == 1 and not p:
            return [((i, p), None)]
        return [((i, False), None)]

    def exit(self, ts, env, t):
        v = self.sim.val(env, t.ops[0])
        if v[1] < 0:
            return
        self.n += 1
        ok = ts[0] or ts[1]
        self.R.obligation(ok)
        if not ok:
            self.R.violation("ketopt|stuck", t.where(), "parser-progress", "an option can be returned without the position in the command line having advanced: the caller would loop forever", ["path: " + " > ".join(self.sim.path())])


def c21(R, tier):
    R.rules.append("Ranking argument, decided by property simulation over the option parser: on every way that returns an option (not "
                   "the end marker) the index of the current argument or the position inside it was increased and not reset. "
                   "The caller leaves its loop on the end marker.")
    T = Tree()
    m = focus(T, "src", ["ketopt"], lambda x: False)
    f = R.need(m.defined.get("ketopt"), "the option parser")
    io, po = m.field_off("ketopt_t", "i"), m.field_off("ketopt_t", "pos")
    R.need(io is not None and po is not None, "parser state fields")
    cl = Progress(R, f, io, po)
    Sim(f, cl).run()
    R.count("option_returns", cl.n)
    R.floor("option_returns", 1, "returns of an option")
