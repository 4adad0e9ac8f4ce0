"""C38: x86-64 relocations, GOT and PLT contents follow the ABI's formulas."""
from sa.build import Tree
from sa.focus import focus
from sa.effects import Effects, evaluate, linear, norm
from sa.interp import Cases, State, Lost, ptr, signed

STOP = ("read32le", "write32le", "add32le", "read64le", "write64le", "add64le", "get_sym_attr", "section_ptr_add",
        "tcc_enter_state")
NAMES = {0: "NONE", 1: "64", 2: "PC32", 3: "GOT32", 4: "PLT32", 5: "COPY", 6: "GLOB_DAT", 7: "JUMP_SLOT", 8: "RELATIVE",
         9: "GOTPCREL", 10: "32", 11: "32S", 24: "PC64", 25: "GOTOFF64", 26: "GOTPC32", 27: "GOT64", 29: "GOTPC64",
         31: "PLTOFF64", 41: "GOTPCRELX", 42: "REX_GOTPCRELX"}
# the field's width and formula: SA = S + A, P = place, GOT = address of the table, G = the symbol's offset in it
FORMULA = {
    1: ("add64le", {"SA": 1}), 10: ("add32le", {"SA": 1}), 11: ("add32le", {"SA": 1}),
    2: ("add32le", {"SA": 1, "P": -1}), 4: ("add32le", {"SA": 1, "P": -1}), 24: ("add64le", {"SA": 1, "P": -1}),
    3: ("add32le", {"G": 1, "A": 1}), 27: ("add64le", {"G": 1, "A": 1}),
    6: ("write64le", {"SA": 1, "A": -1}), 7: ("write64le", {"SA": 1, "A": -1}),
    9: ("add32le", {"GOT": 1, "G": 1, "A": 1, "P": -1}), 41: ("add32le", {"GOT": 1, "G": 1, "A": 1, "P": -1}),
    42: ("add32le", {"GOT": 1, "G": 1, "A": 1, "P": -1}),
    26: ("add32le", {"GOT": 1, "A": 1, "P": -1}), 29: ("add64le", {"GOT": 1, "A": 1, "P": -1}),
    25: ("add64le", {"SA": 1, "GOT": -1}), 31: ("add64le", {"SA": 1, "GOT": -1}),
    0: None, 5: None, 8: None,
}
DYN, DLL = 4, 4
CODE = {2, 24, 4, 31, 7}
DATA = {10, 11, 1, 26, 29, 9, 41, 42, 22, 3, 27, 6, 5, 8, 25, 19, 20, 21, 23, 17, 18}
NEVER, GOTONLY, AUTO, ALWAYS = 0, 1, 2, 3
SLOTS = {**{k: NEVER for k in (6, 7, 5, 8)}, **{k: AUTO for k in (10, 11, 1, 2, 24)}, 22: GOTONLY,
         **{k: ALWAYS for k in (3, 27, 26, 29, 25, 9, 41, 42, 19, 20, 21, 23, 17, 18, 4, 31)}}
WRITES = ("add32le", "add64le", "write32le", "write64le")
INFO = ("ld", "Elf64_Rela.r_info", ("param", 1))


def symidx(d):
    d = d[2] if d[0] in ("tr", "tru") else d
    return d == ("op", "lshr", INFO, ("i", 32))


def attr(d):
    return d[0] == "call" and d[1] == "get_sym_attr" and len(d[2]) > 1 and symidx(d[2][1])


def canon(d):
    """linear form over the ABI's names"""
    out = {}
    for a, c in linear(d).items():
        if a == 1:
            n = 1
        elif a == ("param", 5):
            n = "SA"
        elif a == ("param", 4):
            n = "P"
        elif a == ("ld", "Elf64_Rela.r_addend", ("param", 1)):
            n = "A"
        elif a == ("ld", "Section.sh_addr", ("fld", "got")):
            n = "GOT"
        elif a[0] == "load" and attr(a[1]) or a[0] == "ld" and a[1] == "sym_attr.got_offset" and attr(a[2]):
            n = "G"
        elif a[0] == "ld" and a[1] == "sym_attr.dyn_index" and attr(a[2]):
            n = "dyn"
        elif a[0] == "call" and a[1] in ("read32le", "read64le") and a[2] == (("param", 3),):
            n = "M32" if a[1] == "read32le" else "M64"
        else:
            n = str(a)
        out[n] = out.get(n, 0) + c
    return {k: v for k, v in out.items() if v}


def pretty(f):
    return " ".join("%s%s%s" % ("+-"[c < 0], "" if abs(c) == 1 else "%d*" % abs(c), k) for k, c in
                    sorted(f.items(), key=lambda kv: str(kv[0]))) or "0"


def reloc(R, tier):
    R.rules.append("The value every x86-64 relocation type stores is extracted from the linker, path by path, as a linear "
                   "form over symbol, addend, place, GOT address and GOT offset, and compared with the ABI's formula; the same "
                   "for dynamic relocations, the type classification tables and the bytes of PLT entries.")
    T = Tree()
    roots = ["relocate", "relocate_section", "create_plt_entry", "relocate_plt", "code_reloc", "gotplt_entry_type"]
    m = focus(T, "tcc", roots, set(), stop=STOP)
    for r in roots:
        R.need(r in m.defined, r)
    types(R, m)
    tables(R, m)
    section(R, m)
    plt(R, m)


def fields(st):
    return {e[1][2] if e[1][0] == "mem" else "r_offset": e for e in st}


def types(R, m):
    f = m.defined["relocate"]
    for t, spec in FORMULA.items():
        R.count("types")
        E = Effects(m, f, "TCCState", exact=True)
        E.params = {2: ("i", t)}
        ps = E.paths(0, None, lambda k: False)
        name = NAMES[t]
        for conds, ev, how in ps:
            if how in ("dead",):
                continue
            wr = [e for e in ev if e[0] == "call" and e[1] in WRITES]
            st = [e for e in ev if e[0] == "store"]
            err = any(e[0] == "call" and e[1].startswith("_tcc_error") for e in ev)
            where = (wr or st or ev)[0][3].where() if (wr or st or ev) else f.file
            R.obligation()
            if any(e[0] == "call" and e[1] == "fprintf" for e in ev):
                R.violation("unknown:" + name, where, "relocation type", "R_X86_64_%s is not handled" % name)
                continue
            if spec is None:
                if wr or st:
                    R.violation("extra:" + name, where, "relocation formula", "R_X86_64_%s modifies memory" % name)
                continue
            dyn = dynamic(conds)
            emit = t in (1, 10, 11) and dyn["dyn"] or t in (2, 24) and dyn["dll"]
            emit = emit and (t in (10, 11) or t == 1 or dyn["sym"])
            replaced = (t == 1 and emit and dyn["sym"]) or (t in (2, 24) and emit)
            if replaced:
                if wr:
                    R.violation("both:" + name, where, "dynamic relocation", "R_X86_64_%s is applied and also left to the dynamic linker" % name)
            elif not wr:
                R.violation("none:" + name, where, "relocation formula", "R_X86_64_%s is left unapplied on a path" % name)
            for e in wr:
                form = canon(e[2][1])
                how_ = e[1]
                if how_[:5] == "write" and form.get("M" + how_[5:7]) == 1:
                    how_ = "add" + how_[5:]
                    del form["M" + how_[3:5]]
                if len(wr) != 1 or how_ != spec[0] or e[2][0] != ("param", 3):
                    R.violation("width:" + name, e[3].where(), "relocation formula", "R_X86_64_%s is applied with %s%s" % (
                        name, e[1], "" if e[2][0] == ("param", 3) else " at another place"))
                elif form != spec[1] or any(zero(d) for d in [e[2][1]]):
                    R.violation("formula:" + name, e[3].where(), "relocation formula", "R_X86_64_%s stores %s instead of %s" % (
                        name, pretty(form), pretty(spec[1])))
            R.sample("R_X86_64_%s: %s" % (name, pretty(spec[1])))
            emitted(R, name, t, st, ev, emit, dyn, where)
            if t in (2, 4, 10, 11) and wr:
                limits(R, name, conds, err, wr[0], {10: (0, (1 << 32) - 1)}.get(t, (-(1 << 31), (1 << 31) - 1)))
    R.floor("types", 15, "relocation types")


def zero(d):
    """a 32-bit quantity is widened without its sign where that matters"""
    return d[0] == "tru" and d[2][0] == "call"


def dynamic(conds):
    out = {"dyn": False, "dll": False, "sym": False}
    OT = ("fld", "output_type")
    for c, t in conds:
        if c == ("op", "eq", ("op", "and", OT, ("i", DYN)), ("i", 0)) or c == ("op", "eq", ("op", "and", ("tru", 8, OT), ("i", DYN)), ("i", 0)):
            out["dyn"] = not t
        elif c[0] == "op" and c[1] == "eq" and c[3] == ("i", DLL) and c[2] in (OT, ("tru", 8, OT)):
            out["dll"] = t
        elif c[0] == "op" and c[1] == "eq" and c[3] == ("i", 0) and canon(c[2]) == {"dyn": 1}:
            out["sym"] = not t
    return out


def emitted(R, name, t, st, ev, emit, dyn, where):
    """the record passed on to the dynamic linker"""
    if bool(st) != bool(emit):
        R.violation("dyn:" + name, where, "dynamic relocation", "R_X86_64_%s %s a dynamic relocation" % (
            name, "leaves" if st else "does not leave"))
        return
    if not emit:
        return
    R.obligation()
    fl = fields(st)
    sym = dyn["sym"] and t in (1, 2, 24)
    kind = t if sym else 8
    want = {"r_info": {"dyn": 1 << 32, 1: kind} if sym else {1: kind},
            "r_addend": {"A": 1} if t == 1 and sym else {"M64": 1, "SA": 1} if t == 1 else {"M32": 1, "SA": 1} if t in (10, 11)
            else {"M32": 1, "A": 1} if t == 2 else {"M64": 1, "A": 1}}
    for k, w in want.items():
        e = fl.get(k)
        got = canon(e[2]) if e else None
        if got != w or zeroext(e[2]):
            R.violation("dyn:%s:%s" % (name, k), e[3].where() if e else where, "dynamic relocation",
                        "R_X86_64_%s leaves a dynamic relocation with %s = %s instead of %s" % (name, k, pretty(got or {}), pretty(w)))
    e = fl.get("r_offset")
    if not e or e[2] not in (("load", ("param", 1)), ("ld", "Elf64_Rela.r_offset", ("param", 1))):
        R.violation("dyn:%s:r_offset" % name, where, "dynamic relocation", "R_X86_64_%s leaves a dynamic relocation at another offset" % name)
    adv = [e for e in ev if e[0] == "set" and e[1] == "qrel"]
    if len(adv) != 1 or linear(adv[0][2]) != {("fld", "qrel"): 1, 1: 24}:
        R.violation("dyn:%s:next" % name, where, "dynamic relocation", "R_X86_64_%s does not keep its dynamic relocation" % name)


def zeroext(d):
    if d[0] == "op":
        return zeroext(d[2]) or zeroext(d[3])
    return d[0] == "tru" and d[2][0] == "call"


def limits(R, name, conds, err, e, span):
    """an out-of-range value is reported on every path that can see one"""
    if err:
        for d in (0, 1, -1, span[1], span[0], span[1] - 1, span[0] + 1):
            asg = {("param", 5): d, ("param", 4): 0}
            R.obligation()
            known = [(evaluate(c, asg), t) for c, t in conds]
            if any(v is not None for v, _ in known) and all(v is None or bool(v) == t for v, t in known):
                R.violation("fits:" + name, e[3].where(), "relocation range", "R_X86_64_%s reports an error for the value %d, which fits" % (name, d))
                return
        return
    for d in (span[1] + 1, span[0] - 1, 1 << 32, 1 << 40, -(1 << 40), (1 << 62)):
        asg = {("param", 5): d, ("param", 4): 0}
        R.obligation()
        if all(evaluate(c, asg) is None or bool(evaluate(c, asg)) == t for c, t in conds):
            R.violation("range:" + name, e[3].where(), "relocation range", "R_X86_64_%s stores the value %d without an error" % (name, d))
            return


def tables(R, m):
    for fn, want, what in (("code_reloc", {**{k: 1 for k in CODE}, **{k: 0 for k in DATA}}, "code/data"),
                           ("gotplt_entry_type", SLOTS, "GOT/PLT")):
        f = m.defined[fn]
        for t in range(0, 43):
            R.obligation()
            R.count("table_entries")
            E = Effects(m, f, "TCCState", exact=True)
            E.params = {0: ("i", t)}
            for conds, ev, how in E.paths(0, None, lambda k: False):
                if not (isinstance(how, tuple) and how[0] == "ret"):
                    continue
                v = how[1]
                w = want.get(t, -1)
                if v != ("i", w):
                    R.violation("%s:%d" % (fn, t), f.file, "relocation class", "%s says %s for relocation %s, not %d" % (
                        fn, v[1] if v[0] == "i" else "?", NAMES.get(t, t), w))


def section(R, m):
    f = m.defined["relocate_section"]
    E = Effects(m, f, "TCCState", exact=True)
    n = 0
    for conds, ev, how in E.paths(0, None, lambda k: False):
        for e in ev:
            if e[0] == "call" and e[1] == "relocate":
                n += 1
                R.obligation()
                rel, typ, ptr, place, val = e[2][1:6]
                off = {("load", rel), ("ld", "Elf64_Rela.r_offset", rel)}
                info = ("ld", "Elf64_Rela.r_info", rel)
                lp, la, lv = linear(ptr), linear(place), linear(val)
                bad = None
                if not (len(lp) == 2 and off & set(lp) and ("ld", "Section.data", ("param", 1)) in lp and set(lp.values()) == {1}):
                    bad = "the place written"
                elif not (len(la) == 2 and off & set(la) and ("ld", "Section.sh_addr", ("param", 1)) in la and set(la.values()) == {1}):
                    bad = "the address of the place"
                elif not (len(lv) == 2 and set(lv.values()) == {1} and ("ld", "Elf64_Rela.r_addend", rel) in lv
                          and any(a[0] == "ld" and a[1] == "Elf64_Sym.st_value" for a in lv if a != 1)):
                    bad = "symbol + addend"
                elif norm((("op", "eq", typ, ("i", 0)), True))[0] and not (typ[0] in ("tr", "tru") and typ[2] == ("op", "and", info, ("i", 0xffffffff))
                                                                         or typ in (("tr", 32, info), ("op", "and", info, ("i", 0xffffffff)))):
                    bad = "the type"
                if bad:
                    R.violation("section:" + bad, e[3].where(), "relocation formula", "%s handed to relocate is not the relocation's" % bad)
    R.count("relocate_calls", n)
    R.need(n, "call of relocate")


def bytes_(ev, base):
    out = {}
    for e in ev:
        if e[0] == "store":
            l = linear(e[1])
            if l.pop(base, 0) == 1 and set(l) <= {1}:
                out[l.get(1, 0)] = e[2]
        elif e[0] == "call" and e[1] == "write32le":
            l = linear(e[2][0])
            if l.pop(base, 0) == 1 and set(l) <= {1}:
                out[l.get(1, 0)] = ("w32", e[2][1])
    return out


def plt(R, m):
    """the PLT as built for 1 to 4 functions, then relocated: what each of its instructions does"""
    K = Cases(R, m)
    f = m.field_off
    S1, PLT, GOT, REL = ("sy", "state"), ("sy", "plt"), ("sy", "got"), ("sy", "relplt")
    PD, GD, RD = ("ob", "plt data"), ("ob", "got data"), ("ob", "relocations")

    def default(st, atom, off, ty):
        if atom in (PD, GD, RD):
            return ("i", 0)
        return None

    def room(st, a, x):
        o, k = a[0], f("Section", "data_offset")
        if a[1][0] != "i" or o not in (PLT, GOT):
            raise Lost("section_ptr_add")
        d = st.get(o, k, 8)
        st.put(o, k, 8, ("i", d[1] + a[1][1]))
        return ptr(PD if o == PLT else GD, d[1])
    hooks = {"section_ptr_add": room}

    def fresh(plt=True, rel=True):
        st = State()
        st.put(S1, f("TCCState", "plt"), 8, PLT if plt else ("i", 0))
        st.put(S1, f("TCCState", "got"), 8, GOT)
        for o, d, n in ((PLT, PD, 0), (GOT, GD, 24), (REL, RD, 0)):
            st.put(o, f("Section", "data_offset"), 8, ("i", n))
            st.put(o, f("Section", "data"), 8, d)
            st.put(o, f("Section", "reloc"), 8, REL if o == PLT and rel else ("i", 0))
        return st

    def run(fn, args, st):
        r = K.run(fn, args, st, hooks=hooks, default=default)
        if r is None:
            return None
        if len(r) != 1 or r[0][1] != "ret":
            K.missing[fn, "ways"] = 1
            return None
        return r[0]

    def get(st, o, k, n):
        v = st.get(o, k, n)
        return v[1] & (1 << 8 * n) - 1 if v and v[0] == "i" else 0 if v is None else None

    def s32(v):
        return None if v is None else signed(v, 32)
    followed = 0
    for slots in ([24], [24, 32], [24, 40, 32], [24, 32, 48, 56]):
        for rel in (True, False):
            for at in ((0x3000, 0x1000), (0x1020, 0x405000), (0x7fff0000, 0x10), (0x600ff8, 0x600ff8 - 0x7ffffff8)):
                st, offs, fine = fresh(rel=rel), [], True
                for n, g in enumerate(slots):
                    st.put(REL, f("Section", "data_offset"), 8, ("i", 24 * (n + 1)))
                    st.put(RD, 24 * n, 8, ("i", g))
                    x = run("create_plt_entry", [S1, ("i", g), ("sy", "attr")], st)
                    if x is None:
                        fine = False
                        break
                    st = x[0]
                    offs.append(x[2])
                if not fine:
                    continue
                followed += 1
                R.obligation(n=2 + 5 * len(slots))
                end = get(st, PLT, f("Section", "data_offset"), 8)
                if end != 16 * (len(slots) + 1):
                    K.bad("plt:size", "create_plt_entry", "a PLT with %d entries takes %s bytes, not %d" % (len(slots), end, 16 * (len(slots) + 1)))
                    continue
                for n, o in enumerate(offs):
                    if o is None or o[0] != "i" or o[1] != 16 * (n + 1):
                        K.bad("plt:offset", "create_plt_entry", "PLT entry %d is said to be at %s, not at %d" % (n + 1, o and o[1], 16 * (n + 1)))
                got, pl = at
                st.put(GOT, f("Section", "sh_addr"), 8, ("i", got))
                st.put(PLT, f("Section", "sh_addr"), 8, ("i", pl))
                x = run("relocate_plt", [S1], st)
                if x is None:
                    continue
                st = x[0]
                R.count("tables_built")

                def insn(k, code, what, want, fn):
                    b = get(st, PD, k, len(code) // 2)
                    if b != int.from_bytes(bytes.fromhex(code), "little"):
                        K.bad("plt:code:" + what, "create_plt_entry", "the PLT's instruction that should %s is %s" % (
                            what, "unknown" if b is None else b.to_bytes(len(code) // 2, "little").hex()))
                        return
                    d = s32(get(st, PD, k + len(code) // 2, 4))
                    if d is None or signed(d - want, 32):
                        K.bad("plt:" + what, fn, "with the GOT at %#x and the PLT at %#x, entry %d of %d: the operand of the instruction that should %s is %s, not %d" % (
                            got, pl, k // 16, len(slots), what, d, signed(want, 32)))
                insn(0, "ff35", "push the library's identifier", got + 8 - (pl + 6), "relocate_plt")
                insn(6, "ff25", "jump to the resolver", got + 16 - (pl + 12), "relocate_plt")
                for n, g in enumerate(slots):
                    k = 16 * (n + 1)
                    insn(k, "ff25", "jump through the function's GOT slot", got + g - (pl + k + 6), "relocate_plt")
                    if rel:
                        insn(k + 6, "68", "push the index of the relocation", n, "create_plt_entry")
                        v = get(st, GD, g, 8)
                        if v is None or signed(v - (pl + k + 6), 64) and pl < 1 << 31:
                            K.bad("plt:lazy", "relocate_plt", "the GOT slot of PLT entry %d holds %s, not the address behind the entry's first jump" % (n + 1, v))
                    insn(k + 11, "e9", "jump to the first entry", -(k + 16), "create_plt_entry")
                if not rel and any(k >= 24 for k in st.mem.get(GD, {})):
                    K.bad("plt:write", "relocate_plt", "GOT slots are written with no relocation for them")
                if any(k + w[0] > 16 * (len(slots) + 1) for k, w in st.mem.get(PD, {}).items()):
                    K.bad("plt:past", "relocate_plt", "bytes past the end of the PLT are changed")
                if any(k + w[0] > 24 + 40 for k, w in st.mem.get(GD, {}).items()):
                    K.bad("plt:pastgot", "relocate_plt", "bytes past the end of the GOT are changed")
    # nothing to do: no PLT at all, or an empty one
    for st in (fresh(plt=False), fresh(rel=False)):
        x = run("relocate_plt", [S1], st)
        R.obligation()
        if x and any(x[0].mem.get(o) for o in (PD, GD)):
            K.bad("plt:none", "relocate_plt", "with no PLT entries, bytes are still changed")
    K.done(0.3)
    R.need(followed, "construction of a PLT entry")
