"""Generates harness/syn.c, syn.ld: for every GA_x / NGA_x (C) and ga_x_ / nga_x_ (Fortran) pair with the same signature that the harness uses,
a stub that sends the call through either name, chosen at run time (SYNV)."""
import os, re, sys, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = sys.argv[1] if len(sys.argv) > 1 else os.environ.get("GA_SRC", "/repo")
norm = lambda s: re.sub(r"\s+", "", re.sub(r"\b(const)\b", "", s))
def types(args):      # drop parameter names
    out = []
    for a in args.split(","):
        a = re.sub(r"\[\d*\]", "*", a.strip().replace("[]", "*"))
        m = re.match(r"^(.*?[\s\*])([A-Za-z_]\w*)(\**)$", a)
        out.append(norm((m.group(1) + m.group(3)) if m and m.group(1).strip() else a))
    return ",".join(out)
use = "".join(open(os.path.join(root, "harness", f)).read() for f in sorted(os.listdir(root + "/harness")) if f.startswith("ops_") or f == "gadrv.c")
h = open(repo + "/global/src/ga.h").read()
C = {}
for m in re.finditer(r"extern\s+([\w \*]+?)\s*\b(N?GA_\w+)\s*\(([^()]*)\)\s*;", h):
    C[m.group(2)] = (norm(m.group(1)), types(m.group(3)))
f = open(repo + "/global/src/fapi.c").read()
f = re.sub(r"/\*.*?\*/", "", f, flags=re.S)
# choose the branch with hidden string lengths at the end, as the build does
F = {}
pre = subprocess.run(["gcc", "-E", "-P", "-w", "-DHAVE_CONFIG_H", "-I" + repo, "-I" + repo + "/gaf2c", "-I" + repo + "/global/src", "-I" + repo + "/ma", "-I" + repo + "/_build",
                      "-I" + repo + "/comex/src-armci", "-I" + repo + "/comex/src-common", repo + "/global/src/fapi.c"] + sys.argv[2:], capture_output=True, text=True)
src = pre.stdout or f
for m in re.finditer(r"^([\w \*]+?)\b(n?ga_\w+_)\s*\(([^()]*)\)\s*\{", src, flags=re.M):
    F[m.group(2)] = (norm(m.group(1)), types(m.group(3)))
P = []
for T in (C, F):
    for a in sorted(T):
        b = ("N" if T is C else "n") + a if a[:3] in ("GA_", "ga_") else a[1:]
        if b in T and T[a] == T[b] and re.search(r"\b%s\b" % a, use):
            P.append((a, b))
both = {a for a, b in P} & {b for a, b in P}      # the harness uses both names: leave them alone
P = [(a, b) for a, b in P if a not in both]
with open(root + "/harness/syn.c", "w") as o:
    o.write("/* generated by tools/mksyn.py: calls of the left name go to the right name while SYNV is set (linked with --wrap) */\nint SYNV;\n"
            "#define S(a, b) __asm__(\".text\\n.globl __wrap_\" #a \"\\n.type __wrap_\" #a \",@function\\n__wrap_\" #a \":\\n\\tcmpl $0, SYNV(%rip)\\n\\tjne 1f\\n\\tjmp __real_\" #a \"\\n1:\\tjmp \" #b \"\\n\");\n")
    for a, b in P:
        o.write("S(%s, %s)\n" % (a, b))
open(root + "/harness/syn.ld", "w").write("".join(a + "\n" for a, b in P))
print(len(P), sorted(both))
