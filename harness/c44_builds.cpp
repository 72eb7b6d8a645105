// the library built in several ways - compilers, optimisation, language modes, signedness of char, patterns in memory
// that was not set, configurations - and the same seeded workloads run against each: all have to give the same.
#include "vt.hpp"
#include <dlfcn.h>
#include <inttypes.h>
#include <stdexcept>
using namespace vt;
const bool vt_leakcheck = false;
bool vt_probe(const std::string &) { return false; }
struct Var { std::string name; int (*kinds)(); const char *(*kind)(int); void (*init)(unsigned); uint64_t (*run)(int, uint64_t, std::vector<uint64_t> *); };
static std::vector<Var> V;
void vt_init() { Quiet q; const char *list = getenv("VT_VARIANTS"); if (!list) harness_error("no variants"); std::string s = list; size_t at = 0; while (at < s.size()) { size_t e = s.find(':', at); if (e == std::string::npos) e = s.size(); std::string f = s.substr(at, e - at); at = e + 1; void *h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) harness_error("dlopen: %s", dlerror()); Var v; size_t b = f.rfind('/') + 1; v.name = f.substr(b, f.size() - b - 3); *(void **)&v.kinds = dlsym(h, "variant_kinds"); *(void **)&v.kind = dlsym(h, "variant_kind"); *(void **)&v.init = dlsym(h, "variant_init"); *(void **)&v.run = dlsym(h, "variant_run"); if (!v.kinds || !v.kind || !v.init || !v.run) harness_error("%s is no variant", f.c_str()); v.init((unsigned)V.size()); V.push_back(v); } if (V.size() < 2) harness_error("nothing to compare"); }
void vt_case(Rng &r, uint64_t idx) { if (const char *u = getenv("VT_UNBUILT")) VT_CHECK(false, "unbuilt", "the library does not build with its own version of a helper function (%s)", u);
    Quiet q; int nk = V[0].kinds(), k = (int)(idx % nk); uint64_t seed = r.u64(), want = 0; const char *name = V[0].kind(k); size_t other = 1 + r.below(V.size() - 1);
    for (size_t i = 0; i < V.size(); i++) { if (!thorough() && i && i != other && i != 1 + idx / nk % (V.size() - 1)) continue; // the base and two others
        op("%s in the build %s", name, V[i].name.c_str()); uint64_t got = V[i].run(k, seed, nullptr); evaluations(1); ev(name); ev(("build." + V[i].name).c_str()); if (!i) { want = got; mix(got); nontrivial(); continue; }
        if (got != want) { std::vector<uint64_t> a, b; uint64_t a2 = V[0].run(k, seed, &a), b2 = V[i].run(k, seed, &b); size_t n = 0; while (n < a.size() && n < b.size() && a[n] == b[n]) n++; if (a2 != want || b2 != got) fail(a2 != want ? "unsteady" : "differs", "a %s workload does not give the same twice in the build %s", name, V[a2 != want ? 0 : i].name.c_str());
            fail("differs", "a %s workload gives %016" PRIx64 " in the build %s and %016" PRIx64 " in %s; they part at observation %zu of %zu", name, want, V[0].name.c_str(), got, V[i].name.c_str(), n, a.size()); } }
}
