REGISTRY = {
    "C10": ("buffers", "c10"),
    "C09": ("program", "c09"),
    "C07": ("outputs", "c07"),
    "C08": ("frontend", "c08"),
    "C11": ("formats", "c11"),
    "C14": ("resources", "c14"),
    "C15": ("resources", "c15"),
}
REGISTRY.update({"C12": ("cli", "c12"), "C16": ("cli", "c16")})
REGISTRY.update({"C%d" % k: ("cli", "c%d" % k) for k in (20, 21, 24)})
REGISTRY.update({"C05": ("gz", "c05"), "C06": ("gz", "c06")})
REGISTRY.update({"C04": ("archive", "c04")})
REGISTRY.update({"C22": ("archive", "c22")})
REGISTRY.update({"C25": ("archive", "c25")})
REGISTRY.update({"C30": ("locks", "c30"), "C31": ("locks", "c31")})
REGISTRY.update({"C37": ("options", "options")})
REGISTRY.update({"C38": ("reloc", "reloc")})
REGISTRY.update({"C43": ("fold", "fold")})
REGISTRY.update({"C44": ("emit", "c44")})
REGISTRY.update({"C45": ("abi", "c45")})
REGISTRY.update({"C46": ("symbols", "c46")})
REGISTRY.update({"C47": ("control", "c47")})
REGISTRY.update({"C48": ("decltypes", "c48")})
REGISTRY.update({"C40": ("modes", "run")})
REGISTRY.update({"C41": ("moved", "run")})
REGISTRY.update({"C35": ("errors", "run")})
REGISTRY.update({"C51": ("asmenc", "run")})
REGISTRY.update({"C52": ("atomics", "c52")})
REGISTRY.update({"C53": ("lexing", "run")})
REGISTRY.update({"C54": ("macros", "run")})
