#!/usr/bin/env python3
"""Builds the simulator and the code under test (from /repo's working tree) into /verif/build/<flavor>."""
import os, re, subprocess, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
MPI_INC = "/usr/lib/x86_64-linux-gnu/openmpi/include"

def sources():
    txt = open(os.path.join(REPO, "src/CMakeLists.txt")).read()
    m = re.search(r"set\(DISCOTEC_SOURCES(.*?)\)", txt, re.S)
    out = []
    for f in m.group(1).split():
        f = f.replace("${CMAKE_CURRENT_SOURCE_DIR}", REPO + "/src")
        if not f.startswith("/"):
            f = REPO + "/src/" + f
        out.append(f)
    return out

def broker_sources():
    txt = open(os.path.join(REPO, "third_level_manager/CMakeLists.txt")).read()
    names = ["Params.cpp", "Stats.cpp", "System.cpp", "thirdLevelManager.cpp"]
    d = REPO + "/third_level_manager/"
    # sources of the manager as listed by the project, falling back to the known list
    m = re.findall(r"([A-Za-z_]+\.cpp)", txt)
    lst = [n for n in dict.fromkeys(m) if os.path.exists(d + n) and "test" not in n.lower()]
    return [d + n for n in (lst or names)]

def build(flavor="norm", verbose=False):
    out = os.path.join(VERIF, "build", flavor)
    os.makedirs(out, exist_ok=True)
    opt = "-O1 -g0"
    defs = "-DNDEBUG -DTIMING -DDISCOTEC_USE_LZ4 -DDISCOTEC_SIM_BYTES_PER_MIB=64 -DOMPI_SKIP_MPICXX=1"
    tsan = ""
    if flavor == "thr":
        tsan = "-fsanitize=thread --param tsan-instrument-func-entry-exit=0"
    common = f"-std=c++17 {opt} -march=x86-64-v2 -fPIC -fno-gnu-unique -fopenmp -w -I{MPI_INC} -I{MPI_INC}/openmpi {defs}"
    L = []
    L.append("ninja_required_version = 1.5")
    L.append("rule cc\n  command = g++ -MMD -MF $out.d $flags -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $in")
    L.append("rule so\n  command = g++ -shared -Wl,-Bsymbolic -Wl,--version-script=%s/sim/export.map -s -o $out $in $libs\n  description = SO $out" % VERIF)
    L.append("rule exe\n  command = g++ -rdynamic -o $out $in -ldl -lpthread -no-pie\n  description = EXE $out")
    def esc(p): return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")
    objs = []
    for s in sources():
        o = out + "/src/" + os.path.relpath(s, REPO + "/src").replace("/", "_") + ".o"
        L.append(f"build {esc(o)}: cc {esc(s)}\n  flags = {common} {tsan} -I{REPO}/src")
        objs.append(o)
    hobjs = []
    for s in sorted(glob.glob(VERIF + "/harness/*.cpp")):
        if os.path.basename(s).startswith("broker_"):
            continue
        o = out + "/harness/" + os.path.basename(s) + ".o"
        t = tsan if os.path.basename(s) in () else ""
        # templates of the code under test are instantiated here as well, so the flavour's instrumentation applies
        L.append(f"build {esc(o)}: cc {esc(s)}\n  flags = {common} {tsan if flavor == 'thr' else ''} -I{REPO}/src -I{REPO}/third_level_manager")
        hobjs.append(o)
    L.append(f"build {out}/rank.so: so {' '.join(map(esc, objs + hobjs))} | {VERIF}/sim/export.map\n  libs = {LIBS()}")
    bobjs = []
    bmain = VERIF + "/harness/broker_entry.cpp"
    if os.path.exists(bmain):
        for s in broker_sources() + [bmain]:
            o = out + "/broker/" + os.path.basename(s) + ".o"
            L.append(f"build {esc(o)}: cc {esc(s)}\n  flags = {common} -Dmain=vp_broker_main -I{REPO}/src -I{REPO}/third_level_manager")
            bobjs.append(o)
        nu = out + "/src/third_level_NetworkUtils.cpp.o"
        L.append(f"build {out}/broker.so: so {' '.join(map(esc, bobjs + [nu]))} | {VERIF}/sim/export.map\n  libs = {LIBS()} -lboost_program_options")
    sobjs = []
    for s in sorted(glob.glob(VERIF + "/sim/*.cpp")):
        o = out + "/sim/" + os.path.basename(s) + ".o"
        L.append(f"build {esc(o)}: cc {esc(s)}\n  flags = -std=c++17 -O2 -g0 -Wall -Wextra -I{MPI_INC} -I{MPI_INC}/openmpi {'-DVP_THR' if flavor == 'thr' else ''}")
        sobjs.append(o)
    L.append(f"build {out}/simrun: exe {' '.join(map(esc, sobjs))}")
    txt = "\n".join(L) + "\n"
    nf = out + "/build.ninja"
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    r = subprocess.run(["ninja", "-C", out, "-j8"] + ([] if verbose else ["--quiet"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        return None
    if verbose:
        print(r.stdout[-2000:])
    return out

def LIBS():
    # shared libraries; the simulator loads a private copy of boost_serialization for every simulated rank
    return "-lboost_serialization -llz4 -lglpk -ldl"

if __name__ == "__main__":
    f = sys.argv[1] if len(sys.argv) > 1 else "norm"
    sys.exit(0 if build(f, verbose=True) else 2)
