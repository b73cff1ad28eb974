"""Internal harnesses: C++ that calls the library's own functions on symbolic integers (bit-vectors) and asserts facts about the results."""
import os, time
from . import llir, symex
from .prog import run, CLANG, GCC, INC

VPI = r'''
extern "C" {
int vp_int(int id, int lo, int hi);
int vp_choose(int id, int lo, int hi);
void vp_assume(bool c);
void vp_assert(bool c, int label);
}
'''
MAIN = r'''
#include <cstdio>
#include <cstdlib>
#include <map>
static std::map<int,int> g_in;
extern "C" int vp_int(int id, int lo, int hi) { auto it = g_in.find(id); return it == g_in.end() ? lo : it->second; }
extern "C" int vp_choose(int id, int lo, int hi) { return vp_int(id, lo, hi); }
extern "C" void vp_assume(bool c) { if (!c) { std::puts("assumption"); std::exit(77); } }
extern "C" void vp_assert(bool c, int l) { if (!c) { std::printf("FAILED assertion %d\n", l); std::exit(1); } }
extern "C" void H();
int main(int c, char** v) { for (int i = 1; i + 1 < c; i += 2) g_in[std::atoi(v[i])] = std::atoi(v[i + 1]); H(); std::puts("held"); return 0; }
'''

class Harness:
    """one bounded obligation; labels: {assert id: meaning}"""
    def __init__(self, name, desc, headers, code, labels, bounds, budget=60, solver_ms=2000, cvc5=20, max_paths=20000, exact_gcd=False, steps=20_000_000, fork=False):
        self.fork = fork
        self.name, self.desc, self.headers, self.code, self.labels, self.bounds = name, desc, headers, code, labels, bounds
        self.budget, self.solver_ms, self.cvc5, self.max_paths, self.exact_gcd, self.steps = budget, solver_ms, cvc5, max_paths, exact_gcd, steps
    def source(self):
        return "".join(f"#include <{h}>\n" for h in self.headers) + VPI + self.code

class HR:
    def __init__(self, h):
        self.name, self.desc, self.status, self.msg = h.name, h.desc, "ok", ""
        self.queries = self.steps = self.paths = self.asserts = self.fns = self.cvc5 = 0
        self.solver_s = self.wall = 0.0
        self.model = None

def check(h, work):
    out = HR(h)
    t0 = time.time()
    f = os.path.join(work, h.name + ".cpp")
    with open(f, "w") as o:
        o.write(h.source())
    ll = os.path.join(work, h.name + ".ll")
    rc, txt = run(CLANG + INC + [f, "-o", ll], 300)
    if rc != 0:
        out.status, out.msg = "skipped", "harness does not compile against this tree: " + txt[:600]
        return out
    with open(ll) as o:
        mod = llir.parse_module(o.read())
    os.unlink(ll)
    mach = symex.Machine(mod, externs=symex.std_externs(), summaries=[] if h.exact_gcd else None)
    mach.executed = set()
    try:
        r = symex.explore(mach, "@H", {"budget": h.budget, "solver_ms": h.solver_ms, "cvc5": h.cvc5, "max_paths": h.max_paths, "max_steps": h.steps, "fork": h.fork})
    except Exception as e:
        out.status, out.msg = "undecided", f"{type(e).__name__}: {e}"
        return out
    st = r.stats
    out.queries, out.steps, out.paths, out.asserts, out.solver_s, out.cvc5 = st.checks, st.steps, st.paths, st.asserts, st.solver_time, st.cvc5
    out.fns = len(r.functions)
    if r.status == "ok":
        miss = set(h.labels) - st.reached
        if miss:
            out.status, out.msg = "vacuous", "assertions never reached: " + ", ".join(h.labels[m] for m in sorted(miss))
    elif r.status == "violation":
        out.status, out.msg, out.model = "violation", r.msg, r.model
        w = r.msg.split()
        if w[0] == "assertion" and int(w[1]) in h.labels:
            out.msg = h.labels[int(w[1])]
    else:
        out.status, out.msg = "undecided", r.msg
    out.wall = time.time() - t0
    return out

def replay(h, model, work):
    """-> (confirmed, text)"""
    f = os.path.join(work, h.name + "_replay.cpp")
    with open(f, "w") as o:
        o.write(h.source() + MAIN)
    exe = os.path.join(work, h.name + "_replay")
    rc, txt = run(GCC + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + INC + [f, "-o", exe], 300)
    if rc != 0:
        return False, "replay does not compile: " + txt[-1500:]
    args = []
    for i, v in model or []:
        args += [str(i), str(v)]
    rc, txt = run([exe] + args, 30)
    return rc not in (0, 77), f"inputs {dict(model or [])}: exit {rc}\n{txt[-1500:]}"
