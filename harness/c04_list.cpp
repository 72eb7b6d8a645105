#include "ztc.hpp"
#include <deque>
#include <algorithm>
using namespace vt;
const bool vt_leakcheck = false;
void vt_init() {}
bool vt_probe(const std::string &) { return false; }
struct El { unsigned g1; zt_elist_t link; unsigned g2; int id; };
#define EL(p) zt_elist_data(p, El, link)
typedef std::vector<int> Seq;
static void same(zt_elist_t *h, const Seq &m, const char *what) {
    zt_elist_t *p; size_t n = 0;
    zt_elist_for_each(h, p) { VT_CHECK(n < m.size(), "extra", "%s: more than the %zu expected elements", what, m.size()); VT_CHECK(p != NULL && EL(p)->id == m[n], "forward", "%s: position %zu holds %d, expected %d", what, n, EL(p)->id, m[n]); n++; }
    VT_CHECK(n == m.size(), "lost", "%s: %zu elements, expected %zu", what, n, m.size());
    n = m.size(); for (p = zt_elist_get_prev(h); p != h; p = zt_elist_get_prev(p)) { VT_CHECK(n > 0 && EL(p)->id == m[n - 1], "backward", "%s: backward walk differs at %zu", what, n); n--; }
    VT_CHECK(n == 0, "backward-lost", "%s: backward walk misses %zu elements", what, n);
    VT_CHECK(!!zt_elist_empty(h) == m.empty(), "empty", "%s: emptiness reported wrongly with %zu elements", what, m.size());
    VT_CHECK(m.empty() ? zt_elist_get_next(h) == h : EL(zt_elist_get_next(h))->id == m[0], "first", "%s: first element", what);
    ev("list.walks");
}
void vt_case(Rng &r, uint64_t) {
    size_t ne = 1 + r.below(30); std::vector<El> el(ne); std::vector<int> where(ne, -1);
    for (size_t i = 0; i < ne; i++) { std::string j = r.bytes(sizeof(El)); memcpy(&el[i], j.data(), j.size()); el[i].id = i; el[i].g1 = el[i].g2 = 0xabad1dea; }
    int kind = r.below(3); size_t nl = 1 + r.below(4); std::vector<zt_elist_t> hd(nl); std::vector<Seq> m(nl);
    for (auto &h : hd) { if (r.chance(1, 2)) zt_elist_reset(&h); else { zt_elist(t); h.next = h.prev = &h; } }
    { zt_elist(decl); VT_CHECK(zt_elist_empty(&decl), "init", "declared list not empty"); zt_queue(dq); VT_CHECK(zt_queue_empty(&dq), "init", "declared queue not empty"); zt_stack(ds); VT_CHECK(zt_stack_empty(&ds), "init", "declared stack not empty"); }
    op("%s elements=%zu lists=%zu", kind == 0 ? "list" : kind == 1 ? "queue" : "stack", ne, nl); mix(kind); mix(ne);
    size_t nops = 1 + r.below(150);
    for (size_t o = 0; o < nops; o++) {
        size_t li = r.below(nl); zt_elist_t *h = &hd[li]; Seq &s = m[li]; int c = r.below(100); mix(c); mix(li);
        int free_ = -1; { size_t st = r.below(ne); for (size_t k = 0; k < ne; k++) if (where[(st + k) % ne] < 0) { free_ = (st + k) % ne; break; } }
        if (kind == 1) {      // queue
            if (c < 50) { if (free_ < 0) continue; zt_queue_enqueue(h, &el[free_].link); s.insert(s.begin(), free_); where[free_] = li; op("enqueue %d", free_); ev("enqueue"); }
            else { if (!s.empty()) VT_CHECK(EL(zt_queue_peek(h))->id == s.back(), "queue-peek", "peek gives %d, oldest is %d", EL(zt_queue_peek(h))->id, s.back());
                zt_queue_t *q = zt_queue_dequeue(h);
                if (s.empty()) { VT_CHECK(q == NULL, "dequeue-empty", "dequeue from an empty queue yielded an element"); ev("dequeue.empty"); }
                else { VT_CHECK(q && zt_queue_data(q, El, link)->id == s.back(), "fifo", "dequeued %d, oldest is %d", EL(q)->id, s.back()); where[s.back()] = -1; op("dequeue %d", s.back()); s.pop_back(); ev("dequeue"); } }
            VT_CHECK(!!zt_queue_empty(h) == s.empty(), "queue-empty", "queue emptiness");
        } else if (kind == 2) {
            if (c < 50) { if (free_ < 0) continue; zt_stack_push(h, &el[free_].link); s.insert(s.begin(), free_); where[free_] = li; op("push %d", free_); ev("push"); }
            else { if (!s.empty()) VT_CHECK(EL(zt_stack_peek(h))->id == s.front(), "stack-peek", "peek gives %d, newest is %d", EL(zt_stack_peek(h))->id, s.front());
                zt_stack_t *q = zt_stack_pop(h);
                if (s.empty()) { VT_CHECK(q == NULL, "pop-empty", "pop from an empty stack yielded an element"); ev("pop.empty"); }
                else { VT_CHECK(q && zt_stack_data(q, El, link)->id == s.front(), "lifo", "popped %d, newest is %d", EL(q)->id, s.front()); where[s.front()] = -1; s.erase(s.begin()); ev("pop"); } }
            VT_CHECK(!!zt_stack_empty(h) == s.empty(), "stack-empty", "stack emptiness");
        } else {
            if (c < 20) { if (free_ < 0) continue; zt_elist_add(h, &el[free_].link); s.insert(s.begin(), free_); where[free_] = li; op("add %d", free_); ev("add"); }
            else if (c < 40) { if (free_ < 0) continue; zt_elist_add_tail(h, &el[free_].link); s.push_back(free_); where[free_] = li; op("add_tail %d", free_); ev("add_tail"); }
            else if (c < 50) { if (free_ < 0 || s.empty()) continue; size_t p = r.below(s.size()); bool after = r.chance(1, 2);   // relative to an element
                if (after) zt_elist_add(&el[s[p]].link, &el[free_].link); else zt_elist_add_tail(&el[s[p]].link, &el[free_].link); s.insert(s.begin() + p + after, free_); where[free_] = li; ev("add.middle"); op("insert %d", free_); }
            else if (c < 70) { if (s.empty()) continue; size_t p = r.below(s.size()); zt_elist_remove(&el[s[p]].link); memset(&el[s[p]].link, 0x5a, sizeof(zt_elist_t)); op("remove %d", s[p]); where[s[p]] = -1; s.erase(s.begin() + p); ev("remove"); }
            else if (c < 85) { size_t lj = r.below(nl); if (lj == li) continue; Seq &t = m[lj]; // join lj in front of li
                zt_elist_join(h, &hd[lj]); op("join %zu into %zu", t.size(), s.size()); ev(t.empty() ? "join.empty" : "join"); for (int id : t) where[id] = li; s.insert(s.begin(), t.begin(), t.end()); t.clear(); zt_elist_reset(&hd[lj]); }
            else { zt_elist_t *p, *n; Seq keep; size_t k = 0; unsigned den = 1 + r.below(3); Seq before = s;
                zt_elist_for_each_safe(h, p, n) { VT_CHECK(k < before.size() && EL(p)->id == before[k], "safe", "safe traversal at %zu", k); k++; if (r.below(den) == 0) { zt_elist_remove(p); where[EL(p)->id] = -1; memset(p, 0x5a, sizeof *p); ev("remove.during_traversal"); } else keep.push_back(EL(p)->id); }
                VT_CHECK(k == before.size(), "safe-short", "safe traversal visited %zu of %zu", k, before.size()); s = keep; op("safe removal"); }
        }
        for (size_t j = 0; j < nl; j++) same(&hd[j], m[j], "after step");
    }
    for (size_t i = 0; i < ne; i++) VT_CHECK(el[i].g1 == 0xabad1dea && el[i].g2 == 0xabad1dea && el[i].id == (int)i, "payload", "element %zu's payload was overwritten", i);
}
