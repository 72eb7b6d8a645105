#include "vt.hpp"
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <ftw.h>
#include <sys/syscall.h>
#include <atomic>
#include <unordered_set>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *)) __attribute__((weak));

namespace vt {
static uint64_t g_seed = 1, g_case = 0;
static bool g_verbose = false, g_tracing = false, g_thorough = false;
static thread_local int t_quiet = 0;
static std::atomic<long> g_live{0};
static bool g_hooks = false;
static uint64_t g_hash, g_evals, g_extra;
static bool g_nontrivial, g_recount;
static std::map<std::string, uint64_t> *g_ev;
static std::unordered_set<uint64_t> *g_dist;
static std::string *g_trace; static std::vector<std::string> *g_samples;
static const char *g_out = nullptr, *g_state = nullptr;
static char g_scratch[256];
static pid_t g_pid;
struct State { volatile uint64_t cur; volatile uint64_t done; char key[128]; char detail[4000]; };
static State *g_st; static State g_st0;
static volatile uint64_t g_tick_case = ~0ull; static volatile int g_ticks = 0; static int g_cpu_limit = 20;
static std::atomic_flag g_lock = ATOMIC_FLAG_INIT;
struct Lk { Lk() { while (g_lock.test_and_set(std::memory_order_acquire)) ; } ~Lk() { g_lock.clear(std::memory_order_release); } };

// a run that eats the machine's memory is a failure of its own, reported before the sandbox ends it
static std::atomic<size_t> g_asked{0};
static void memory() { char b[64]; int keep = errno; long fd = syscall(SYS_openat, AT_FDCWD, "/proc/self/statm", O_RDONLY | O_CLOEXEC); if (fd < 0) { errno = keep; return; } long n = syscall(SYS_read, fd, b, sizeof b - 1); syscall(SYS_close, fd); errno = keep; if (n <= 0) return; b[n] = 0; char *e; strtoul(b, &e, 10); unsigned long pages = strtoul(e, NULL, 10); if (pages > (1ul << 30) / 4096) fail("memory", "the process grew to %lu MB", pages / 256); }
// which blocks are counted is remembered per block, so that one the harness makes quietly and frees aloud (or the
// other way round) does not hide one the library leaves behind; a bucket that is full counts neither end
static std::atomic<uintptr_t> g_counted[1 << 17][16];
static std::atomic<uintptr_t> *bucket(const volatile void *p) { return g_counted[((uintptr_t)p >> 4 ^ (uintptr_t)p >> 21) & ((1 << 17) - 1)]; }
static void count(const volatile void *p) { std::atomic<uintptr_t> *b = bucket(p); for (int i = 0; i < 16; i++) { uintptr_t none = 0; if (b[i].compare_exchange_strong(none, (uintptr_t)p, std::memory_order_relaxed)) { g_live.fetch_add(1, std::memory_order_relaxed); return; } } }
static void uncount(const volatile void *p) { std::atomic<uintptr_t> *b = bucket(p); for (int i = 0; i < 16; i++) if (b[i].load(std::memory_order_relaxed) == (uintptr_t)p) { b[i].store(0, std::memory_order_relaxed); g_live.fetch_sub(1, std::memory_order_relaxed); return; } }
static void hook_m(const volatile void *p, size_t n) { if (p && !t_quiet) count(p); if (n > (64 << 20)) n = 64 << 20; if (g_asked.fetch_add(n, std::memory_order_relaxed) + n >= (64 << 20)) { g_asked = 0; memory(); } }
static void hook_f(const volatile void *p) { if (p) uncount(p); }
Quiet::Quiet() { t_quiet++; }
Quiet::~Quiet() { t_quiet--; }
long live() { return g_live.load(); }
uint64_t seed() { return g_seed; }
bool verbose() { return g_verbose; }
bool tracing() { return g_tracing; }
bool thorough() { return g_thorough; }
uint64_t case_index() { return g_case; }
uint64_t now_ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000; }
void op(const char *fmt, ...) {
    if (!g_tracing) return;
    Quiet q; char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    Lk l;
    if (g_verbose) { fprintf(stderr, "  %s\n", b); }
    else if (g_trace->size() < 1500) { *g_trace += b; *g_trace += "; "; }
}
void ev(const char *name, uint64_t n) { if (g_recount) return; Quiet q; Lk l; (*g_ev)[name] += n; }
void mix(uint64_t x) { g_hash = (g_hash ^ (x + 0x9e3779b97f4a7c15ULL + (g_hash << 6) + (g_hash >> 2))) * 0xff51afd7ed558ccdULL; }
void nontrivial(bool y) { g_nontrivial = y; }
void evaluations(uint64_t n) { if (!g_recount) g_evals += n; }
void also_distinct(uint64_t h) { if (g_recount) return; Quiet q; Lk l; if (g_dist->size() < 400000) g_dist->insert(h); }
std::string esc(const void *p, size_t n, size_t max) {
    std::string o; const unsigned char *c = (const unsigned char *)p; char b[8];
    for (size_t i = 0; i < n && i < max; i++) { if (c[i] >= 32 && c[i] < 127 && c[i] != '\\' && c[i] != '"') o += (char)c[i]; else { snprintf(b, sizeof b, "\\x%02x", c[i]); o += b; } }
    if (n > max) o += "...";
    return o;
}
std::string esc(const std::string &s, size_t max) { return esc(s.data(), s.size(), max); }
static void rmrf() {
    if (!g_scratch[0] || getpid() != g_pid) return;
    nftw(g_scratch, [](const char *p, const struct stat *, int, struct FTW *) { return remove(p); }, 16, FTW_DEPTH | FTW_PHYS);
    g_scratch[0] = 0;
}
const char *scratch() {
    if (!g_scratch[0]) { const char *t = getenv("VT_SCRATCH"); snprintf(g_scratch, sizeof g_scratch, "%s/vtXXXXXX", t ? t : "/tmp"); if (!mkdtemp(g_scratch)) harness_error("mkdtemp"); g_pid = getpid(); atexit(rmrf); }
    return g_scratch;
}
static void json_str(FILE *f, const std::string &s) { fputc('"', f); for (unsigned char c : s) { if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }
static void write_out(bool ok) {
    if (!g_out) return;
    Quiet q; FILE *f = fopen(g_out, "w"); if (!f) return;
    fprintf(f, "{\"ok\":%s,\"evaluations\":%llu,\"events\":{", ok ? "true" : "false", (unsigned long long)g_evals);
    bool first = true; for (auto &e : *g_ev) { fprintf(f, "%s", first ? "" : ","); first = false; json_str(f, e.first); fprintf(f, ":%llu", (unsigned long long)e.second); }
    fprintf(f, "},\"samples\":["); first = true;
    for (auto &s : *g_samples) { fprintf(f, "%s", first ? "" : ","); first = false; json_str(f, s); }
    fprintf(f, "]}\n"); fclose(f);
    std::string d = std::string(g_out) + ".dist"; f = fopen(d.c_str(), "wb"); if (!f) return;
    for (uint64_t h : *g_dist) fwrite(&h, 8, 1, f);
    fclose(f);
}
void fail(const char *key, const char *fmt, ...) {
    Quiet q; va_list ap; va_start(ap, fmt); char b[3900]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    snprintf(g_st->key, sizeof g_st->key, "%s", key); snprintf(g_st->detail, sizeof g_st->detail, "%s", b);
    fprintf(stderr, "VT-VIOLATION case=%llu key=%s : %s\n", (unsigned long long)g_case, key, b); fflush(stderr);
    rmrf(); _exit(40);
}
void harness_error(const char *fmt, ...) {
    Quiet q; va_list ap; va_start(ap, fmt); fprintf(stderr, "VT-HARNESS-ERROR: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap); rmrf(); _exit(41);
}
static void on_tick(int) {
    if (g_tick_case != g_st->cur) { g_tick_case = g_st->cur; g_ticks = 0; return; }
    if (++g_ticks >= g_cpu_limit) {
        static const char m[] = "VT-HANG: case exceeded its CPU budget\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(42);
    }
}
int run_forked(const std::function<void()> &fn, std::string *err, std::string *out, int timeout_s) {
    int pe[2], po[2]; if (pipe(pe) || pipe(po)) harness_error("pipe");
    fflush(stdout); fflush(stderr);
    pid_t p = fork(); if (p < 0) harness_error("fork: %s", strerror(errno));
    if (!p) { t_quiet = 0; dup2(pe[1], 2); dup2(po[1], 1); close(pe[0]); close(po[0]); close(pe[1]); close(po[1]);
        struct itimerval it = {}; setitimer(ITIMER_PROF, &it, nullptr); alarm(timeout_s + 5); signal(SIGALRM, SIG_DFL); fn(); fflush(stdout); _exit(0); }
    close(pe[1]); close(po[1]);
    struct pollfd pf[2] = {{pe[0], POLLIN, 0}, {po[0], POLLIN, 0}}; int open_ = 2; uint64_t end = now_ms() + (uint64_t)timeout_s * 1000; bool killed = false;
    std::string *dst[2] = {err, out};
    while (open_) {
        int r = poll(pf, 2, 500);
        if (r < 0 && errno != EINTR) break;
        if (!killed && now_ms() > end) { kill(p, SIGKILL); killed = true; }
        if (r > 0) for (int i = 0; i < 2; i++) if (pf[i].fd >= 0 && (pf[i].revents & (POLLIN | POLLHUP | POLLERR))) {
            char b[4096]; ssize_t n = read(pf[i].fd, b, sizeof b);
            if (n > 0) { if (dst[i]) dst[i]->append(b, n); } else if (n == 0 || errno != EINTR) { close(pf[i].fd); pf[i].fd = -1; open_--; } }
        if (killed) { int st; if (waitpid(p, &st, WNOHANG) == p) { for (auto &f : pf) if (f.fd >= 0) close(f.fd); return -1; } }
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    return killed ? -1 : st;
}
static void begin(uint64_t idx) { g_case = idx; g_st->cur = idx; g_hash = idx ? 0x1234567 : 0x1234567; g_nontrivial = true; }
static Rng rng_for(uint64_t idx) { Rng a(g_seed * 0x2545F4914F6CDD1DULL + 77); a.s ^= idx * 0xD1342543DE82EF95ULL; a.u64(); return Rng(a.u64()); }
static void one(uint64_t idx) {
    begin(idx); { Rng r = rng_for(idx); long b = g_live.load();
        vt_case(r, idx);
        long a = g_live.load();
        g_evals++; if (g_nontrivial) also_distinct(g_hash);
        if (vt_leakcheck && g_hooks && a != b) {
            // lazily initialised memory leaks only once: a real leak repeats
            g_recount = true; long d1, d2;
            { Rng r2 = rng_for(idx); long x = g_live.load(); vt_case(r2, idx); d1 = g_live.load() - x; }
            { Rng r2 = rng_for(idx); long x = g_live.load(); vt_case(r2, idx); d2 = g_live.load() - x; }
            g_recount = false;
            if (d1 > 0 && d2 > 0) fail("leak", "case leaves %ld heap block(s) behind every time it is run", d2);
        } }
    g_st->done++;
}
}
using namespace vt;
int main(int argc, char **argv) {
    uint64_t from = 0, to = 0; bool single = false; const char *probe = nullptr;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return i + 1 < argc ? argv[++i] : (char *)""; };
        if (a == "--seed") g_seed = strtoull(nx(), 0, 10); else if (a == "--from") from = strtoull(nx(), 0, 10); else if (a == "--to") to = strtoull(nx(), 0, 10);
        else if (a == "--case") { from = strtoull(nx(), 0, 10); to = from + 1; single = true; } else if (a == "--out") g_out = nx(); else if (a == "--state") g_state = nx();
        else if (a == "-v") g_verbose = true; else if (a == "--thorough") g_thorough = true; else if (a == "--probe") probe = nx(); else if (a == "--cpu") g_cpu_limit = atoi(nx()); }
    (void)single;
    t_quiet++;
    g_ev = new std::map<std::string, uint64_t>; g_dist = new std::unordered_set<uint64_t>; g_trace = new std::string; g_samples = new std::vector<std::string>;
    g_st = &g_st0;
    if (g_state) { int fd = open(g_state, O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd < 0 || ftruncate(fd, sizeof(State))) harness_error("state file"); void *m = mmap(0, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m == MAP_FAILED) harness_error("mmap"); g_st = (State *)m; close(fd); }
    t_quiet--;
    if (__sanitizer_install_malloc_and_free_hooks) g_hooks = __sanitizer_install_malloc_and_free_hooks(hook_m, hook_f) > 0;
    struct sigaction sa = {}; sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
    struct itimerval it = {{1, 0}, {1, 0}}; setitimer(ITIMER_PROF, &it, nullptr);
    vt_init();
    if (probe) { g_tracing = g_verbose; if (!vt_probe(probe)) harness_error("unknown probe %s", probe); return 0; }
    for (uint64_t i = from; i < to; i++) {
        g_tracing = g_verbose || i < from + 2;
        one(i);
        if (g_tracing && !g_verbose) { Quiet q; if (!g_trace->empty()) g_samples->push_back("case " + std::to_string(i) + ": " + *g_trace); g_trace->clear(); }
    }
    write_out(true);
    return 0;
}
