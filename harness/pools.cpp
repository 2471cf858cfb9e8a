// Storage pools (C19).
#include "hx.h"
#include "bdd_var.h"
#include "bdd_node_cache.h"
using namespace hx;
static bool aligned_inside(node* p) { return ((uintptr_t)p & 7) == 0; }
// node pool: arbitrary interleavings of requests and releases, starting after `pre` requests (the page is nearly full)
SX_ENTRY(node_pool) {
    const unsigned K = sx_param("K", 6); bdd_mgr* owner = new bdd_mgr; bdd_node_cache* c = new bdd_node_cache(owner);
    CHECK(c->nr_nodes() == 2, "initial count"); CHECK(c->botsink()->is_botsink() && c->topsink()->is_topsink() && !c->botsink()->is_topsink() && c->botsink() != c->topsink(), "terminals");
    std::vector<node*> used; size_t count = 2; unsigned stamp = 1;
    auto get = [&]() { node* p = c->reserve_node(); CHECK(p != nullptr && aligned_inside(p), "null or misaligned storage"); CHECK(p != c->botsink() && p != c->topsink(), "terminal handed out");
        p->init_new_node(stamp++, c->botsink(), c->topsink()); used.push_back(p); ++count; CHECK(c->nr_nodes() == count, "in-use count after a request"); return p; };
    auto put = [&](size_t i) { node* p = used[i]; used.erase(used.begin() + i); c->free_node(p); --count; CHECK(c->nr_nodes() == count, "in-use count after a release"); };
    const unsigned pre = sx_param("pre", 0), keep = sx_param("keep", 5); // fill up to `pre`, remembering the last few
    std::vector<node*> early; for (unsigned i = 0; i < pre; ++i) { node* p = get(); if (i < 2) early.push_back(p); if (used.size() > keep) used.erase(used.begin()); }
    std::vector<size_t> st; 
    for (unsigned k = 0; k < K; ++k) {
        if (used.empty() || sx_flag("request")) { node* p = get(); for (size_t i = 0; i + 1 < used.size(); ++i) CHECK(used[i] != p, "storage in use handed out"); for (auto* e : early) CHECK(e != p, "storage in use handed out"); }
        else put(sx_choose("which", 0, used.size() - 1));
        for (size_t i = 0; i < used.size(); ++i) { CHECK(used[i]->lo == c->botsink() && used[i]->hi == c->topsink() && used[i]->index < stamp, "storage overwritten"); for (size_t j = 0; j < i; ++j) CHECK(used[i]->index != used[j]->index, "storage overwritten"); }
    }
    CHECK(c->botsink()->is_botsink() && c->topsink()->is_topsink(), "terminals overwritten");
    sx_reach("end"); sx_done();
}
// page pool of a given page size and block size: arbitrary interleavings; pages zeroed, disjoint, fully writable
template<size_t S, size_t B> static void page_pool(unsigned K) {
    auto* c = new unique_table_page_cache<S, B>(); typedef unique_table_page<S> Pg; std::vector<Pg*> used; std::vector<size_t> stamps; size_t stamp = 8; unsigned out = 0;
    for (unsigned k = 0; k < K; ++k) {
        if (used.empty() || sx_flag("request")) {
            Pg* p = c->reserve_page(); CHECK(p != nullptr, "null page"); for (Pg* q : used) CHECK(q != p, "page in use handed out"); ++out;
            for (size_t i = 0; i < S; ++i) CHECK(p->data[i] == nullptr, "page not zeroed");
            used.push_back(p); stamps.push_back(stamp); for (size_t i = 0; i < S; ++i) p->data[i] = reinterpret_cast<node*>(stamp); stamp += 8;
            CHECK(c->nr_pages() >= used.size(), "more pages in use than exist"); CHECK(c->nr_pages() % B == 0, "number of pages");
        } else { size_t i = sx_choose("which", 0, used.size() - 1); c->free_page(used[i]); used.erase(used.begin() + i); stamps.erase(stamps.begin() + i); }
        for (size_t j = 0; j < used.size(); ++j) for (size_t i = 0; i < S; ++i) CHECK(used[j]->data[i] == reinterpret_cast<node*>(stamps[j]), "page overwritten");
    }
    CHECK(c->nr_pages() <= ((K + B - 1) / B) * B, "released pages are not reused");
    delete c; sx_reach("end"); sx_done();
}
SX_ENTRY(pages_4_1) { page_pool<4, 1>(sx_param("K", 6)); }
SX_ENTRY(pages_4_2) { page_pool<4, 2>(sx_param("K", 6)); }
SX_ENTRY(pages_8_3) { page_pool<8, 3>(sx_param("K", 6)); }
SX_ENTRY(pages_64_4) { page_pool<64, 4>(sx_param("K", 6)); }
// peak use bounds the growth: a released page is available again
SX_ENTRY(pages_reuse) {
    typedef unique_table_page_cache<8, 2> C; C* c = new C(); std::vector<unique_table_page<8>*> used; size_t peak = 0;
    for (unsigned k = 0; k < sx_param("K", 8); ++k) {
        if (used.empty() || (used.size() < 4 && sx_flag("request"))) used.push_back(c->reserve_page()); else { size_t i = sx_choose("which", 0, used.size() - 1); c->free_page(used[i]); used.erase(used.begin() + i); }
        peak = std::max(peak, used.size()); CHECK(c->nr_pages() == (peak + 1) / 2 * 2, "released pages are not reused");
    }
    sx_reach("end"); sx_done();
}
// peak use bounds the node pool too: storage released is handed out again before new storage
SX_ENTRY(node_reuse) {
    bdd_mgr* owner = new bdd_mgr; bdd_node_cache* c = new bdd_node_cache(owner); std::vector<node*> used, known;
    for (unsigned k = 0; k < sx_param("K", 8); ++k) {
        if (used.empty() || sx_flag("request")) { node* p = c->reserve_node(); bool old = std::find(known.begin(), known.end(), p) != known.end(); CHECK(old == (known.size() > used.size()), "released storage must be reused first"); if (!old) known.push_back(p); p->init_new_node(0, c->botsink(), c->topsink()); used.push_back(p); }
        else { size_t i = sx_choose("which", 0, used.size() - 1); c->free_node(used[i]); used.erase(used.begin() + i); }
        CHECK(c->nr_nodes() == 2 + used.size(), "in-use count");
    }
    sx_reach("end"); sx_done();
}
// the manager's page pools: a page of every size is zeroed and writable to its full size, twice
template<class C> static void one(C& c, size_t size, size_t full) {
    auto* p = c.reserve_page(); auto* q = c.reserve_page(); CHECK(p != q, "same page twice"); CHECK(p->data.size() == size, "page size");
    for (size_t i = 0; i < size; i += full) CHECK(p->data[i] == nullptr && q->data[size - 1 - i] == nullptr, "page not zeroed");
    p->data[0] = p->data[size - 1] = reinterpret_cast<node*>(8); q->data[0] = q->data[size - 1] = reinterpret_cast<node*>(16);
    CHECK(p->data[0] == reinterpret_cast<node*>(8) && p->data[size - 1] == reinterpret_cast<node*>(8), "pages overlap");
    c.free_page(p); auto* r = c.reserve_page(); CHECK(r != q, "page in use handed out"); CHECK(r->data[0] == nullptr && r->data[size - 1] == nullptr, "recycled page not zeroed"); CHECK(q->data[0] == reinterpret_cast<node*>(16) && q->data[size - 1] == reinterpret_cast<node*>(16), "page in use overwritten");
}
SX_ENTRY(pages_mgr) {
    bdd_mgr* m = new bdd_mgr; auto& c = m->get_unique_table_page_cache(); 
    switch (sx_choose("size", 6, sx_param("max", 14))) {
        case 6: one(c.cache_64, 64, 1); break; case 7: one(c.cache_128, 128, 1); break; case 8: one(c.cache_256, 256, 1); break; case 9: one(c.cache_512, 512, 1); break; case 10: one(c.cache_1024, 1024, 1); break;
        case 11: one(c.cache_2048, 2048, 1); break; case 12: one(c.cache_4096, 4096, 1); break; case 13: one(c.cache_8192, 8192, 1); break; case 14: one(c.cache_16384, 16384, 1); break; case 15: one(c.cache_32768, 32768, 1); break;
        case 16: one(c.cache_65536, 65536, 1); break; case 17: one(c.cache_131072, 131072, 1); break; case 18: one(c.cache_262144, 262144, 1); break; case 19: one(c.cache_524288, 524288, 1); break; default: one(c.cache_1048576, 1048576, 1); break;
    }
    sx_reach("end"); sx_done();
}
// pages handed from one variable's table to another: tables grow, give their page back, variables use each other's pages
SX_ENTRY(pages_tables) {
    const unsigned c = sx_param("c", 10), nv = 3; bdd_mgr* m = new bdd_mgr; for (unsigned i = 0; i < c + nv; ++i) m->add_variable(); sx_key_mode = 5;
    std::vector<node_ref> pool{m->botsink(), m->topsink()}; for (unsigned i = 2; i < c; ++i) pool.push_back(m->projection(i + nv));
    struct X { size_t v, a, b; node_ref r; }; std::vector<X> xs; size_t fill[3] = {0, 0, 0}; const unsigned K = sx_param("K", 4);
    for (unsigned k = 0; k < K; ++k) {
        size_t v = sx_choose("v", 0, nv - 1), cnt = sx_choose("cnt", 0, 2) == 0 ? 20 : 34; if (sx_flag("collect")) { for (size_t i = 0; i < xs.size();) if (xs[i].v == v) xs.erase(xs.begin() + i); else ++i; fill[v] = 0; m->collect_garbage(); }
        for (size_t n = 0; n < cnt && fill[v] < c * (c - 1); ++n, ++fill[v]) { size_t d = 1 + fill[v] / c, a = fill[v] % c, b = (a + d) % c; xs.push_back({v, a, b, m->unique_find(v, pool[a], pool[b])}); }
        for (auto& x : xs) CHECK(x.r.variable() == x.v && x.r.low() == pool[x.a] && x.r.high() == pool[x.b], "node overwritten");
        for (size_t i = 0; i < xs.size(); i += 3) CHECK(m->unique_find(xs[i].v, pool[xs[i].a], pool[xs[i].b]) == xs[i].r, "table overwritten");
        CHECK(m->nr_nodes() == 2 + (c - 2) + xs.size(), "node count");
    }
    sx_reach("end"); sx_done();
}
