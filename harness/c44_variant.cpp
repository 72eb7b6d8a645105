// one build of the library, with the workloads that use it: a shared object the comparing program opens
#define HAVE_INTTYPES_H 1
#define AMBIENT 1
#include "ztc.hpp"
#include <inttypes.h>
#include <atomic>
#include <memory>
#include <sys/wait.h>
extern "C" {
#include <libzt/zt_gc.h>
#include <libzt/zt_ipv4_tbl.h>
#include <libzt/zt_opts.h>
uint64_t zt_hash64_buff(void *buf, size_t len, uint64_t init);
uint64_t zt_hash64_cstr(const uint8_t *buf, uint64_t init);
}
#include "c44.h"
using namespace vt;
static std::vector<uint64_t> *seen;
#define KINDS_AFTER (seen ? seen->push_back(h) : (void)0)
static inline void nest() {}
#include "kinds.inc"
#include "high.inc"
static void w_hdr(Rng &r, D &d) { c44_hdr(r.u64(), [](void *p, uint64_t v) { ((D *)p)->n(v); }, &d); }
enum { NK = sizeof KINDS / sizeof *KINDS + 1 };
extern "C" int variant_kinds() { return NK; }
static Work at(int k) { return k == 0 ? w_hdr : k == 1 ? w_high : KINDS[k - 2].w; } // exit functions are not among them
extern "C" const char *variant_kind(int k) { return k == 0 ? "header" : k == 1 ? "text" : KINDS[k - 2].name; }
extern "C" void variant_init(unsigned no) { th_no = no; zt_log_ty *l = zt_log_stderr(0); zt_log_set_level(l, zt_log_emerg); zt_log_logger(l); }
extern "C" uint64_t variant_run(int k, uint64_t seed, std::vector<uint64_t> *log) { seen = log; D d; Rng r(seed); at(k)(r, d); seen = nullptr; return d.h; }
