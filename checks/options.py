"""C37: every compiler and linker option has exactly the effect it names."""
from sa.build import Tree
from sa.focus import focus
from sa.effects import Effects, evaluate, same, dominated, reach, contains, norm, cases

ARG = ("arg",)
HAS_ARG, NOSEP = 1, 2
OBJ, EXE, DLL, MEM, PRE = 3, 2, 4, 1, 5
STOP = ("strstart", "set_flag", "link_option", "skip_linker_arg", "copy_linker_arg", "args_parser_add_file",
        "args_parser_listfile", "tcc_set_linker", "args_parser_make_argv")
QUIET = {"tcc_enter_state", "_tcc_warning", "strstart", "strcmp", "atoi", "isnum", "strlen", "strtol", "strtoul", "strtoull",
         "strchr", "tcc_strdup", "tcc_free", "cstr_reset", "link_option", "skip_linker_arg", "strncmp", "memcmp", "_tcc_error_noabort"}


def i(n):
    return lambda d: d == ("i", n)


def num(k=0):
    """the number written in the argument, plus k"""
    def ok(d):
        if k:
            return d[0] == "op" and d[1] == "add" and d[3] == ("i", k) and num()(d[2])
        return d[0] == "call" and d[1] in ("atoi", "strtol", "strtoul", "strtoull") and d[2][0] == ARG
    return ok


def copyof(d):
    return d[0] == "call" and d[1] in ("tcc_strdup", "strdup") and d[2][0] == ARG


def inc(field):
    return lambda d: d == ("op", "add", ("fld", field), ("i", 1))


def word(set_, keep):
    return lambda d: same(d, lambda v: (v & keep) | set_, [("fld", "filetype")], [0, 1, 2, 4, 8, 15, 16, 32, 255, 67])


def call(name, k=1):
    """calls `name` with the option's argument as k-th parameter"""
    return (name, k)


# option -> (fields that must be set, fields that may be set, functions that must be called)
SPEC = {
    "I": ({}, (), [call("tcc_add_include_path")]),
    "D": ({}, (), [call("tcc_define_symbol")]),
    "U": ({}, (), [call("tcc_undefine_symbol")]),
    "L": ({}, (), [call("tcc_add_library_path")]),
    "B": ({}, (), [call("tcc_set_lib_path")]),
    "isystem": ({}, (), [call("tcc_add_sysinclude_path")]),
    "l": ({"nb_libraries": inc("nb_libraries")}, (), [call("args_parser_add_file")]),
    "include": ({}, (), [call("cstr_printf", 2)]),
    "pthread": ({"option_pthread": i(1)}, (), []),
    "bench": ({"do_bench": i(1)}, (), []),
    "bt": ({"rt_num_callers": num(), "do_backtrace": i(1)}, ("do_debug", "dwarf"), []),
    "b": ({"do_bounds_check": i(1), "do_backtrace": i(1)}, ("do_debug", "dwarf"), []),
    "g": ({}, ("do_debug", "dwarf"), []),
    "c": ({"output_type": i(OBJ)}, (), []),
    "d": ({}, ("dflag", "g_debug"), []),
    "static": ({"static_link": i(1)}, (), []),
    "std": ({}, ("cversion",), []),
    "shared": ({"output_type": i(DLL)}, (), []),
    "soname": ({"soname": copyof}, (), []),
    "o": ({"outfile": copyof}, (), []),
    "r": ({"option_r": i(1), "output_type": i(OBJ)}, (), []),
    "nostdinc": ({"nostdinc": i(1)}, (), []),
    "nostdlib": ({"nostdlib": i(1)}, (), []),
    "run": ({"output_type": i(MEM)}, (), []),
    "v": ({"verbose": lambda d: contains(d, ("fld", "verbose"))}, (), []),
    "-version": ({"verbose": lambda d: contains(d, ("fld", "verbose"))}, (), []),
    "f": ({}, (), [("flags", "f")]),
    "m": ({}, (), [("flags", "m")]),
    "W": ({"warn_none": i(0)}, (), [("flags", "W")]),
    "w": ({"warn_none": i(1)}, (), []),
    "rdynamic": ({"rdynamic": i(1)}, (), []),
    "Wl,": ({}, ("linker_arg",), [("cstr_cat", 1), ("tcc_set_linker", None)]),
    "Wp,": ({}, (), []),
    "E": ({"output_type": i(PRE)}, (), []),
    "P": ({"Pflag": num(1)}, (), []),
    "O": ({"optimize": num()}, (), []),
    "M": ({"include_sys_deps": i(1), "just_deps": i(1), "gen_deps": i(1)}, ("deps_outfile",), []),
    "MM": ({"just_deps": i(1), "gen_deps": i(1)}, ("deps_outfile",), []),
    "MMD": ({"gen_deps": i(1)}, (), []),
    "MD": ({"gen_deps": i(1), "include_sys_deps": i(1)}, (), []),
    "MF": ({"deps_outfile": copyof}, (), []),
    "MP": ({"gen_phony_deps": i(1)}, (), []),
    "x": ({"filetype": None}, (), []),
}
# the rest only select an action or are ignored
NOEFFECT = {"h", "-help", "?", "hh", "dumpmachine", "dumpversion", "print-search-dirs", "ar", "impdef", "arch", "C",
            "-param", "pedantic", "pipe", "s", "traditional"}
IGNORED = {"arch", "C", "-param", "pedantic", "pipe", "s", "traditional"}
TAKES = {"v", "I", "D", "U", "P", "L", "B", "l", "bt", "g", "d", "std", "soname", "o", "run", "Wl,", "Wp,", "W", "O", "m",
         "f", "isystem", "include", "MF", "x", "arch", "-param"}
SEPARATE = {"I", "D", "U", "L", "B", "l", "soname", "o", "isystem", "include", "MF", "x", "arch", "-param"}
FLAGS = {
    "W": {"all": ("warn_all", 0), "error": ("warn_error", 0), "write-strings": ("warn_write_strings", 0),
          "unsupported": ("warn_unsupported", 0),
          "implicit-function-declaration": ("warn_implicit_function_declaration", 0),
          "discarded-qualifiers": ("warn_discarded_qualifiers", 0)},
    "f": {"unsigned-char": ("char_is_unsigned", 0), "signed-char": ("char_is_unsigned", 1), "common": ("nocommon", 1),
          "leading-underscore": ("leading_underscore", 0), "ms-extensions": ("ms_extensions", 0),
          "dollars-in-identifiers": ("dollars_in_identifiers", 0), "test-coverage": ("test_coverage", 0)},
    "m": {"ms-bitfields": ("ms_bitfields", 0), "sse": ("nosse", 1)},
}
ALLWARN = {"all", "implicit-function-declaration", "discarded-qualifiers"}

# linker option -> (fields set, constant; "text" = the option's text; "number")
LINK = {
    "Bsymbolic": {"symbolic": i(1)}, "nostdlib": {"nostdlib": i(1)},
    "e=": {"elf_entryname": 0}, "entry=": {"elf_entryname": 0},
    "fini=": {"fini_symbol": 0}, "init=": {"init_symbol": 0}, "Map=": {"mapfile": 0},
    "image-base=": {"text_addr": 16, "has_text_addr": i(1)}, "Ttext=": {"text_addr": 16, "has_text_addr": i(1)},
    "oformat=": {"output_format": None}, "as-needed": {}, "O": {}, "z=": {},
    "export-all-symbols": {"rdynamic": i(1)}, "export-dynamic": {"rdynamic": i(1)},
    "rpath=": {"rpath": ord(":")}, "enable-new-dtags": {"enable_new_dtags": i(1)},
    "section-alignment=": {"section_align": 16}, "soname=": {"soname": 0}, "install_name=": {"soname": 0},
    "?whole-archive": {"filetype": None},
}


def table(m, g, esz, offs):
    """rows of a constant array of structures: one dict per row"""
    rows = {}
    G = m.globals[g]
    for off, size, v in G.get("init", []):
        k, o = divmod(off, esz)
        val = m.gstr(("g", v[1])) if v[0] == "g" else v[1]
        rows.setdefault(k, {})[offs.get(o, o)] = val
    return [dict({n: 0 for n in offs.values()}, **rows.get(k, {})) for k in range(G["size"] // esz)]


def flagtables(m):
    """constant tables of on/off options, by what they are for"""
    out = {}
    for g, G in m.globals.items():
        if G.get("const") and G.get("size", 0) % 16 == 0 and G.get("init") and "FlagDef" in str(G.get("dity", G.get("ty", ""))):
            rows = [r for r in table(m, g, 16, {0: "off", 2: "flags", 8: "name"}) if r["name"]]
            names = {r["name"] for r in rows}
            for k, spec in FLAGS.items():
                if names & set(spec) and len(names & set(spec)) * 2 >= len(names):
                    out[k] = (g, rows)
    return out


def options(R, tier):
    R.rules.append("Each entry of the option tables is resolved to the code that handles it and the effects of "
                   "that code (settings written, functions called, with which values), on every path, are compared with "
                   "what the option is documented to do; table order must not make an option unreachable.")
    T = Tree()
    m = focus(T, "tcc", ["tcc_parse_args", "tcc_set_linker", "set_flag"], set(), stop=STOP)
    f = R.need(m.defined.get("tcc_parse_args"), "tcc_parse_args")
    sw = max((x for x in f.insts() if x.op == "switch"), key=lambda x: len(x.d["succ"]), default=None)
    R.need(sw is not None and len(sw.d["succ"]) > 20, "switch over the option table")
    g = next((g for g, G in m.globals.items() if G.get("const") and "TCCOption" in str(G.get("dity", G.get("ty", "")))), None)
    R.need(g, "option table")
    rows = table(m, g, 16, {0: "name", 8: "index", 10: "flags"})
    end = next((k for k, r in enumerate(rows) if not r["name"]), None)
    if end is None:
        R.violation("table:end", m.globals[g]["file"], "option table", "the option table has no terminating entry")
        end = len(rows)
    rows = rows[:end]
    R.count("options", len(rows))
    byname = {}
    for k, r in enumerate(rows):
        n, fl = r["name"], r["flags"]
        R.obligation()
        for e in rows[:k]:
            if e["name"] == n or (e["flags"] & HAS_ARG and n.startswith(e["name"])):
                R.violation("shadow:%s" % n, m.globals[g]["file"], "option reachable",
                            "-%s is never recognised: the table entry -%s in front of it matches first" % (n, e["name"]))
        byname.setdefault(n, r)
    for n in list(SPEC) + sorted(NOEFFECT):
        if n == "impdef":
            continue
        R.obligation()
        if n not in byname:
            R.violation("missing:%s" % n, m.globals[g]["file"], "option known", "-%s is not in the option table" % n)
            continue
        fl = byname[n]["flags"]
        if bool(fl & HAS_ARG) != (n in TAKES):
            R.violation("arg:%s" % n, m.globals[g]["file"], "option argument", "-%s %s an argument according to the table"
                        % (n, "takes" if fl & HAS_ARG else "does not take"))
        elif n in TAKES and bool(fl & NOSEP) != (n not in SEPARATE):
            R.violation("sep:%s" % n, m.globals[g]["file"], "option argument", "-%s %s the following word as its argument"
                        % (n, "does not take" if fl & NOSEP else "takes"))
    handlers(R, m, f, sw, byname)
    flags(R, m)
    setflag(R, m)
    linker(R, m)


def argument(f):
    """(slot ids, phi ids) holding the text behind the option's name"""
    slots, phis = set(), set()
    r1 = set()
    for x in f.calls("strstart"):
        a = f.defs.get(x.ops[0][1]) if x.ops[0][0] == "v" else None
        if a is None:
            continue                                   # constant prefix: not the table lookup
        s = f.defs.get(x.ops[1][1]) if x.ops[1][0] == "v" else None
        if s is not None and s.op == "alloca":
            r1.add(s.id)
    loads = {x.id for x in f.insts() if x.op == "load" and x.ops[0][0] == "v" and x.ops[0][1] in r1 and x.ty == "ptr"}
    ch = True
    while ch:
        ch = False
        for x in f.insts():
            if x.op == "phi" and x.id not in phis and any(v[0] == "v" and (v[1] in loads or v[1] in phis) for v, _ in x.d["inc"]):
                # a phi of the argument, not of the word list
                if x.ty == "ptr":
                    phis.add(x.id)
                    ch = True
    for x in f.insts():
        if x.op == "store" and x.ops[0][0] == "v" and (x.ops[0][1] in loads or x.ops[0][1] in phis) and x.ops[1][0] == "v":
            d = f.defs.get(x.ops[1][1])
            if d is not None and d.op == "alloca" and d.id not in r1:
                slots.add(d.id)
    return slots, phis


def handlers(R, m, f, sw, byname):
    slots, phis = argument(f)
    inside = dominated(f, sw.blk.i)
    R.need(slots or phis, "the option's argument")
    E = Effects(m, f, "TCCState", name=lambda x: ARG if x.op == "phi" and x.id in phis and x.blk.i not in inside - {sw.blk.i} else None)
    loopable = {B.i for B in f.blocks if sw.blk.i in reach(f, B.i)}
    tabs = flagtables(m)
    tgt = dict(cases(sw))
    env = {("slot", s): ARG for s in slots}
    E.sticky = set(env)
    sp = dict(SPEC)
    for n in byname:
        r = byname[n]
        idx = r["index"]
        spec = sp.get(n, ({}, (), []))
        if n not in SPEC and n not in NOEFFECT:
            continue
        b = tgt.get(idx)
        if idx == 0 or n in IGNORED:
            if idx in tgt and n in IGNORED:
                R.violation("effect:%s" % n, m.globals and f.file, "option effect", "-%s is to be ignored but is handled" % n)
            continue
        if b is None:
            R.violation("nohandler:%s" % n, sw.where(), "option handled", "nothing handles the table index of -%s" % n)
            continue
        ps = E.paths(b, sw.blk.i, lambda k: k not in inside, env=env)
        R.count("paths", len(ps))
        ok = False
        for conds, ev, how in ps:
            if how in ("cut", "dead") and n not in ("v", "-version"):
                continue
            last = {}
            for e in ev:
                if e[0] == "set" and e[1] != "warn_num":
                    last[e[1]] = e[2]
            where = ev[0][3].where() if ev else f.blocks[b].insts[0].where()
            # anything not asked for
            for k in last:
                if k not in spec[0] and k not in spec[1]:
                    R.violation("extra:%s:%s" % (n, k), where, "option effect", "-%s also changes the setting '%s'" % (n, k))
            cont = isinstance(how, tuple) and how[0] == "end" and how[1] in loopable
            for e in ev:
                if e[0] == "call" and e[1] in ALLCALLS and not any(c[0] == e[1] for c in spec[2]):
                    R.violation("extra:%s:%s" % (n, e[1]), e[3].where(), "option effect", "-%s also calls %s" % (n, e[1]))
            warn = any(e[0] == "call" and e[1] == "_tcc_warning" for e in ev)
            if not cont:
                continue
            ok = True
            for k, want in spec[0].items():
                R.obligation()
                if k not in last:
                    R.violation("unset:%s:%s" % (n, k), where, "option effect", "-%s can be accepted without setting '%s'" % (n, k))
                elif want and not want(last[k]):
                    R.violation("value:%s:%s" % (n, k), where, "option effect", "-%s gives '%s' the value %s" % (n, k, show(last[k])))
            for c in spec[2]:
                R.obligation()
                if c[0] == "flags":
                    good = any(e[0] == "call" and any(a == ("g", tabs.get(c[1], ("?",))[0]) for a in e[2]) and ARG in e[2] for e in ev)
                    if c[1] == "W" and not good:
                        good = any(x[0][0] == "op" and contains(x[0], ARG) for x in conds)
                    what = "the -%s table" % c[1]
                else:
                    good = any(e[0] == "call" and e[1] == c[0] and (c[1] is None or (len(e[2]) > c[1] and e[2][c[1]] == ARG))
                               for e in ev)
                    what = c[0]
                if not good and not (warn and c[0] == "flags"):
                    R.violation("nocall:%s:%s" % (n, c[0]), where, "option effect", "-%s can be accepted without passing its argument to %s" % (n, what))
            detail(R, n, conds, ev, last, where, how)
        if not ok and n not in ("dumpmachine", "dumpversion") and n not in ("ar", "impdef"):
            R.violation("dead:%s" % n, f.blocks[b].insts[0].where(), "option effect", "-%s is always refused" % n)
    # enough of the handlers must be there
    R.floor("options", 45, "option table entries")


ALLCALLS = {"tcc_add_include_path", "tcc_define_symbol", "tcc_undefine_symbol", "tcc_add_library_path", "tcc_set_lib_path",
            "tcc_add_sysinclude_path", "args_parser_add_file", "tcc_set_linker", "tcc_add_library"}


def first(conds):
    """the character the argument is known to start with"""
    for c, t in conds:
        if t and c[0] == "op" and c[1] == "eq" and c[2] == ("load", ARG) and c[3][0] == "i":
            return chr(c[3][1] & 255)


def unlike(conds, chars):
    """the argument is known not to start with any of these"""
    no = {chr(c[3][1] & 255) for c, t in conds if not t and c[0] == "op" and c[1] == "eq" and c[2] == ("load", ARG) and c[3][0] == "i"}
    return set(chars) <= no


def starts(conds, text):
    for c, t in conds:
        if c[0] == "call" and c[1] in ("strstart",) and ("str", text) in c[2]:
            return t
        if c[0] == "op" and c[1] == "eq" and c[2][0] == "call" and c[2][1] == "strstart" and ("str", text) in c[2][2]:
            return not t if c[3] == ("i", 0) else t


def equals(conds, text):
    for c, t in conds:
        if c[0] == "op" and c[1] == "eq" and c[3] == ("i", 0) and c[2][0] == "call" and c[2][1] == "strcmp" and ("str", text) in c[2][2]:
            return t


def show(d):
    if d[0] == "i":
        return str(d[1])
    if d[0] == "fld":
        return "<%s>" % d[1]
    if d[0] == "str":
        return '"%s"' % d[1]
    if d == ARG:
        return "<argument>"
    if d[0] == "call":
        return "%s(%s)" % (d[1], ", ".join(show(a) for a in d[2]))
    if d[0] == "op":
        return "(%s %s %s)" % (show(d[2]), d[1], show(d[3]))
    return d[0]


def expect(R, n, field, last, where, ok, when):
    R.obligation()
    if field not in last or not ok(last[field]):
        R.violation("value:%s:%s:%s" % (n, field, when), where, "option effect", "-%s %s: '%s' becomes %s"
                    % (n, when, field, show(last[field]) if field in last else "nothing"))


def detail(R, n, conds, ev, last, where, how):
    c = first(conds)
    if n == "x":
        lang = {"c": 1, "a": 4, "b": 64, "n": 0}
        if c in lang:
            expect(R, n, "filetype", last, where, word(lang[c], ~MASK), "language '%s'" % c)
    elif n == "d":
        m_ = {"D": 3, "M": 7, "t": 16}
        if c in m_:
            expect(R, n, "dflag", last, where, i(m_[c]), c)
            if "g_debug" in last:
                R.violation("extra:d:g_debug", where, "option effect", "-d%s also changes 'g_debug'" % c)
        elif "dflag" in last:
            R.violation("extra:d:dflag", where, "option effect", "-d with another letter changes 'dflag'")
    elif n == "std":
        e = equals(conds, "=c11")
        if e:
            expect(R, n, "cversion", last, where, i(201112), "=c11")
        elif "cversion" in last:
            R.violation("extra:std", where, "option effect", "-std with another value changes 'cversion'")
    elif n == "g":
        d = starts(conds, "dwarf")
        digit = next((not t if q[0] == "op" and q[1] == "eq" else t for q, t in conds if "isnum" in str(q)), None)
        if d:
            expect(R, n, "do_debug", last, where, i(2), "dwarf")
            expect(R, n, "dwarf", last, where, lambda d: True, "dwarf")
        elif digit is False:
            expect(R, n, "do_debug", last, where, i(2), "without a level")
        elif digit:
            for c, bt in [(c, bt) for c in range(10) for bt in (0, 1)]:
                asg = {("load", ARG): 48 + c, ("fld", "do_backtrace"): bt}
                if any(evaluate(q, asg) is not None and bool(evaluate(q, asg)) != t for q, t in conds):
                    continue
                want = 2 if c > 2 else 1 if c == 0 and bt else c
                expect(R, n, "do_debug", last, where, lambda v: evaluate(v, asg) == want, "level %d" % c)
    elif n in ("bt", "b"):
        d = last.get("do_debug")
        if d is not None:
            expect(R, n, "do_debug", last, where, lambda d: d == ("i", 1) or d == ("fld", "do_debug"), "debug level")
    elif n in ("M", "MM"):
        if "deps_outfile" in last:
            R.obligation()
            if (("op", "eq", ("fld", "deps_outfile"), ("i", 0)), True) not in conds:
                R.violation("extra:%s:deps" % n, where, "option effect", "-%s overrides the file given with -MF" % n)
            expect(R, n, "deps_outfile", last, where, lambda d: d[0] == "call" and d[2][:1] == (("str", "-"),), "default output")
    elif n == "l":
        for e in ev:
            if e[0] == "call" and e[1] == "args_parser_add_file" and len(e[2]) > 2:
                R.obligation()
                if not word(LIB, ~MASK)(e[2][2]):
                    R.violation("value:l:type", where, "option effect", "-l adds a file of type %s" % show(e[2][2]))
    elif n == "include":
        for e in ev:
            if e[0] == "call" and e[1] == "cstr_printf":
                R.obligation()
                if e[2][0] != ("field", "cmdline_incl") or e[2][1] != ("str", '#include "%s"\n'):
                    R.violation("value:include", where, "option effect", "-include does not add an #include line to the predefines")
    elif n == "D":
        for e in ev:
            if e[0] == "call" and e[1] == "tcc_define_symbol" and e[2][2] != ("i", 0):
                R.violation("value:D", where, "option effect", "-D passes a value besides its argument")
    elif n in ("Wp,", "run"):
        R.obligation()
        if ARG not in how[2]:
            R.violation("value:%s" % n, where, "option effect", "-%s does not go on with its argument" % n)


LIB, MASK = 8, 79


def flags(R, m):
    tabs = flagtables(m)
    for k, spec in FLAGS.items():
        if not R.need(k in tabs, "table of -%s options" % k):
            continue
        g, rows = tabs[k]
        have = {}
        for r in rows:
            R.count("flags")
            R.obligation()
            fld = m.field_at("TCCState", r["off"])
            if r["name"] in have:
                R.violation("flag:%s:%s:dup" % (k, r["name"]), m.globals[g]["file"], "flag table", "-%s%s is listed twice" % (k, r["name"]))
            have[r["name"]] = (fld, r["flags"])
            if r["name"] in spec:
                wf, inv = spec[r["name"]]
                if fld != wf:
                    R.violation("flag:%s:%s" % (k, r["name"]), m.globals[g]["file"], "flag table", "-%s%s sets '%s'" % (k, r["name"], fld))
                if bool(r["flags"] & 2) != bool(inv):
                    R.violation("flag:%s:%s:inv" % (k, r["name"]), m.globals[g]["file"], "flag table", "-%s%s has the opposite meaning" % (k, r["name"]))
                if k == "W" and bool(r["flags"] & 1) != (r["name"] in ALLWARN):
                    R.violation("flag:%s:%s:all" % (k, r["name"]), m.globals[g]["file"], "flag table",
                                "-W%s is%s part of -Wall" % (r["name"], "" if r["flags"] & 1 else " not"))
        for n in spec:
            if n not in have:
                R.violation("flag:%s:%s:missing" % (k, n), m.globals[g]["file"], "flag table", "-%s%s is not in the table" % (k, n))


def setflag(R, m):
    """the byte stored for an on/off option, over the option's spelling and table entry"""
    f = m.defined.get("set_flag")
    if f is None or len(f.params) < 3:
        return
    OFF, FL = ("load", ("row", 0)), ("load", ("row", 2))
    NO, ERR = ("no-",), ("error=",)

    def name(x):
        if x.op == "load" and x.ops[0][0] == "v":
            # fields of the table entry: flags of the first entry (through the parameter) or of the current one
            a = f.defs.get(x.ops[0][1])
            if x.ty == "i16":
                if a is not None and a.op == "getelementptr" and not a.d.get("var"):
                    return ("first" if a.ops[0] == ("v", f.params[1][0]) else "row", a.d["coff"])
                if a is None or a.op == "phi":
                    return ("first" if a is None else "row", 0)
        if x.op == "call" and x.callee == "strstart":
            return (m.gstr(x.ops[0]) or "?",)
        return None

    E = Effects(m, f, "TCCState", name=name, maxvisit=2)
    n = 0
    for conds, ev, how in E.paths(0, None, lambda b: False):
        st = [e for e in ev if e[0] == "store"]
        if not st:
            continue
        e = st[0]                                     # the entry that was named
        old = ("load", e[1])
        for no in (0, 1):
            for err in (0, 1):
                for first in (0, 1):
                    for row in (0, 1, 2, 3):
                        for o in (0, 1, 3, 5):
                            asg = {NO: no, ERR: err, ("first", 2): first, ("row", 2): row, old: o}
                            if any(evaluate(c, asg) is not None and bool(evaluate(c, asg)) != t for c, t in conds):
                                continue
                            if err and not first:
                                continue
                            v = 0 if no else 1
                            keep = 0
                            if first and err:
                                v, keep = (4 if no else 3), 1
                            want = (o & keep) | (v ^ (row >> 1 & 1))
                            got = evaluate(e[2], asg)
                            n += 1
                            R.obligation()
                            if got is not None and got & 255 != want:
                                R.violation("setflag:%d%d%d" % (no, err, row >> 1), e[3].where(), "flag value",
                                            "an option of the form -[WfM]%s%s<name> with table flags %d stores %d" % (
                                                "no-" if no else "", "error=" if err else "", row, got & 255))
    R.count("flag_values", n)


def linker(R, m):
    f = m.defined.get("tcc_set_linker")
    if not R.need(f, "tcc_set_linker"):
        return
    sites = {}
    for x in f.calls():
        s = next((m.gstr(o) for o in x.ops if m.gstr(o) is not None), None)
        if x.callee and x.callee in m.defined and s is not None and not x.callee.startswith("_tcc"):
            sites.setdefault(x.callee, []).append((s, x))
    lo = max(sites, key=lambda c: len(sites[c]), default=None)
    R.need(lo and len(sites[lo]) >= 15, "comparisons with linker option names")
    seen = {}
    hdr = None
    order = {b: k for k, b in enumerate(f.rpo())}
    for s, x in sites[lo]:
        seen.setdefault(s, x)
    for B in f.blocks:
        for t in B.succ:
            if order.get(t, 0) <= order.get(B.i, -1) and sites[lo][0][1].blk.i in reach(f, t):
                hdr = t if hdr is None or order[t] < order[hdr] else hdr
    R.need(hdr is not None, "loop over the linker options")
    names = [s for s, _ in sites[lo]]
    for n, want in LINK.items():
        R.obligation()
        R.count("linker_options")
        if n not in seen:
            R.violation("link:%s:missing" % n, f.file, "linker option", "-Wl,-%s is not recognised" % n.rstrip("="))
            continue
        x = seen[n]
        E = Effects(m, f, "TCCState", name=lambda y, x=x: ("match",) if y is x else None)
        slot = E.desc(x.ops[2], {}) if len(x.ops) > 2 else None
        for sign in ((1, -1) if n.startswith("?") else (1,)):
            e2 = Effects(m, f, "TCCState", name=lambda y, x=x, sign=sign: ("i", sign) if y is x else None)
            ps = e2.paths(x.blk.i, None, lambda b: b == hdr, env={slot: ARG} if slot else {}, idx=x.idx + 1)
            good = False
            for conds, ev, how in ps:
                last, addr = {}, {}
                for e in ev:
                    if e[0] == "set" and e[1] != "warn_num":
                        last[e[1]] = e[2]
                    elif e[0] == "call" and e[1] not in (lo,):
                        for a in e[2]:
                            if a[0] == "field":
                                addr[a[1]] = e
                for k in set(last) | set(addr):
                    if k not in want:
                        R.violation("link:%s:extra:%s" % (n, k), x.where(), "linker option", "-Wl,-%s also changes '%s'" % (n, k))
                if not (isinstance(how, tuple) and how[0] == "end"):
                    continue
                good = True
                for k, w in want.items():
                    R.obligation()
                    if callable(w):
                        if k not in last or not w(last[k]):
                            R.violation("link:%s:%s" % (n, k), x.where(), "linker option", "-Wl,-%s does not set '%s'" % (n, k))
                    elif isinstance(w, int) and w == 16:
                        d = last.get(k)
                        if d is None or d[0] != "call" or d[1] not in ("strtoull", "strtoul") or d[2][2] != ("i", 16):
                            R.violation("link:%s:%s" % (n, k), x.where(), "linker option", "-Wl,-%s does not store the number" % n)
                    elif isinstance(w, int):
                        e = addr.get(k)
                        if e is None:
                            R.violation("link:%s:%s" % (n, k), x.where(), "linker option", "-Wl,-%s does not store its text in '%s'" % (n, k))
                        elif ("i", w) not in e[2]:
                            R.violation("link:%s:sep" % n, x.where(), "linker option", "-Wl,-%s is joined with the wrong separator" % n)
                if n == "oformat=" :
                    bin_ = equals(conds, "binary")
                    elf = starts(conds, "elf64-")
                    if elf and last.get("output_format") != ("i", 0):
                        R.violation("link:oformat:elf", x.where(), "linker option", "elf64- output format gives %s" % show(last.get("output_format", ("?",))))
                    if bin_ and last.get("output_format") != ("i", 1):
                        R.violation("link:oformat:binary", x.where(), "linker option", "binary output format gives %s" % show(last.get("output_format", ("?",))))
                if n == "?whole-archive":
                    d = last.get("filetype")
                    if d is None or not same(d, (lambda v: v | WHOLE) if sign > 0 else (lambda v: v & ~WHOLE), [("fld", "filetype")], [0, 1, 15, 16, 32, 33, 48, 64, 127, 128, 255]):
                        R.violation("link:whole:%d" % sign, x.where(), "linker option", "-Wl,-%swhole-archive does not %s the flag"
                                    % ("no-" if sign < 0 else "", "set" if sign > 0 else "clear"))
            if not good:
                R.violation("link:%s:refused" % n, x.where(), "linker option", "-Wl,-%s is always refused" % n)


WHOLE = 0x80
