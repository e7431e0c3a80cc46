// SRCS: skiplist.cc
// Concurrent ordered index (skiplist): sequential model, linearizability per key, stability of
// scans for keys that are present throughout, memory reclamation under sanitizers.
#include "common.h"
#include "lin.h"
#include "skiplist.h"
using namespace hx;

struct Node {
    skiplist_node sn;
    int64_t key;
    int64_t id;
    uint64_t guard;
    Node(int64_t k = 0, int64_t i = 0) : key(k), id(i), guard(0xabcdef12345678ull) { skiplist_init_node(&sn); }
    ~Node() { guard = 0; skiplist_free_node(&sn); }
    static int cmp(skiplist_node* a, skiplist_node* b, void*) {
        Node* x = _get_entry(a, Node, sn);
        Node* y = _get_entry(b, Node, sn);
        return x->key < y->key ? -1 : x->key > y->key ? 1 : 0;
    }
};
static Node* N(skiplist_node* n) { return n ? _get_entry(n, Node, sn) : nullptr; }

static void config(skiplist_raw* sl, Rng& r) {
    skiplist_raw_config c = skiplist_get_default_config();
    size_t fans[] = {2, 3, 4, 8};
    size_t lays[] = {1, 2, 4, 8, 12};
    if (!r.chance(30)) {
        c.fanout = fans[r(4)];
        c.maxLayer = lays[r(5)];
        skiplist_set_config(sl, c);
    }
}

static void reclaim(Node* n) {
    skiplist_wait_for_free(&n->sn);
    delete n;
}

static void sequential(uint64_t seed) {
    Rng r(seed);
    srand(seed);
    skiplist_raw sl;
    skiplist_init(&sl, Node::cmp);
    config(&sl, r);
    std::multimap<int64_t, Node*> m;
    int64_t range = r.pick(std::vector<int64_t>{4, 20, 300});
    bool dups = r.chance(40);
    uint64_t ops = r.range(50, 600);
    st().context = fmt("sequential seed=%llu", (unsigned long long)seed);
    for (uint64_t i = 0; i < ops; ++i) {
        int64_t k = r(range) * 2;
        Node q(r.chance(40) ? k + 1 : k);
        switch (r(10)) {
        case 0: case 1: case 2: {
            Node* n = new Node(k, i);
            bool has = m.count(k);
            if (dups && r.chance(50)) {
                int rc = skiplist_insert(&sl, &n->sn);
                CHECK_KEY(rc == 0, "skl:insert-rc", "insert returned %d", rc);
                m.insert({k, n});
            } else {
                int rc = skiplist_insert_nodup(&sl, &n->sn);
                CHECK_KEY((rc == 0) == !has, "skl:nodup-rc", "insert_nodup(%lld) returned %d, present=%d", (long long)k, rc, has);
                if (rc == 0) m.insert({k, n});
                else delete n;
            }
            count("inserts");
            break;
        }
        case 3: {
            auto e = m.find(k);
            Node qq(k);
            if (dups && m.count(k) > 1) break;
            int rc = skiplist_erase(&sl, &qq.sn);
            CHECK_KEY((rc == 0) == (e != m.end()), "skl:erase-rc", "erase(%lld) returned %d", (long long)k, rc);
            if (e != m.end()) { if (rc == 0) reclaim(e->second); m.erase(e); }
            count("erases");
            break;
        }
        case 4: {
            auto range2 = m.equal_range(k);
            if (range2.first == range2.second) break;
            size_t c = r(std::distance(range2.first, range2.second));
            auto e = range2.first;
            std::advance(e, c);
            int rc = skiplist_erase_node(&sl, &e->second->sn);
            CHECK_KEY(rc == 0, "skl:erase-node-rc", "erase_node returned %d", rc);
            reclaim(e->second);
            m.erase(e);
            count("erases");
            break;
        }
        case 5: {
            skiplist_node* c = skiplist_find(&sl, &q.sn);
            CHECK_KEY((c != nullptr) == (m.count(q.key) > 0) && (!c || N(c)->key == q.key), "skl:find",
                      "find(%lld) -> %lld, present %zu", (long long)q.key, c ? (long long)N(c)->key : -1, m.count(q.key));
            if (c) skiplist_release_node(c);
            count("finds");
            break;
        }
        case 6: {
            skiplist_node* c = skiplist_find_greater_or_equal(&sl, &q.sn);
            auto e = m.lower_bound(q.key);
            CHECK_KEY((c != nullptr) == (e != m.end()) && (!c || N(c)->key == e->first), "skl:find-ge",
                      "find_greater_or_equal(%lld) -> %lld, expected %lld", (long long)q.key, c ? (long long)N(c)->key : -1,
                      e == m.end() ? -1 : (long long)e->first);
            if (c) skiplist_release_node(c);
            count("finds");
            break;
        }
        case 7: {
            skiplist_node* c = skiplist_find_smaller_or_equal(&sl, &q.sn);
            auto e = m.upper_bound(q.key);
            bool any = e != m.begin();
            if (any) --e;
            CHECK_KEY((c != nullptr) == any && (!c || N(c)->key == e->first), "skl:find-le",
                      "find_smaller_or_equal(%lld) -> %lld, expected %lld", (long long)q.key, c ? (long long)N(c)->key : -1,
                      any ? (long long)e->first : -1);
            if (c) skiplist_release_node(c);
            count("finds");
            break;
        }
        case 8: {   // forward scan
            std::vector<int64_t> got, exp;
            std::set<int64_t> ids;
            for (auto& e : m) exp.push_back(e.first);
            skiplist_node* c = skiplist_begin(&sl);
            while (c && got.size() <= exp.size()) {
                got.push_back(N(c)->key);
                ids.insert(N(c)->id);
                skiplist_node* nx = skiplist_next(&sl, c);
                skiplist_release_node(c);
                c = nx;
            }
            if (c) skiplist_release_node(c);
            CHECK_KEY(got == exp, "skl:scan", "forward scan saw %zu keys, expected %zu, or in another order", got.size(), exp.size());
            CHECK_KEY(ids.size() == exp.size(), "skl:scan-nodes", "forward scan saw %zu distinct nodes of %zu", ids.size(), exp.size());
            count("scans");
            break;
        }
        case 9: {   // backward scan (no duplicates: prev() is by key)
            if (dups) break;
            std::vector<int64_t> got, exp;
            for (auto e = m.rbegin(); e != m.rend(); ++e) exp.push_back(e->first);
            skiplist_node* c = skiplist_end(&sl);
            while (c && got.size() <= exp.size()) {
                got.push_back(N(c)->key);
                skiplist_node* nx = skiplist_prev(&sl, c);
                skiplist_release_node(c);
                c = nx;
            }
            if (c) skiplist_release_node(c);
            CHECK_KEY(got == exp, "skl:rscan", "backward scan saw %zu keys, expected %zu, or in another order", got.size(), exp.size());
            count("scans");
            break;
        }
        }
        CHECK_KEY(skiplist_get_size(&sl) == m.size(), "skl:size", "size %zu, expected %zu", skiplist_get_size(&sl), m.size());
        uint64_t h = 7;
        for (auto& e : m) h = hash64(&e.first, 8, h);
        seen(h);
    }
    while (!m.empty()) {
        skiplist_erase_node(&sl, &m.begin()->second->sn);
        reclaim(m.begin()->second);
        m.erase(m.begin());
    }
    CHECK_KEY(skiplist_get_size(&sl) == 0, "skl:size", "size %zu after erasing everything", skiplist_get_size(&sl));
    skiplist_free(&sl);
}

static std::atomic<uint64_t> clk;

// Writers insert and erase volatile (odd) keys; even keys are stable.
static void concurrent(uint64_t seed) {
    Rng r0(seed);
    srand(seed);
    skiplist_raw sl;
    skiplist_init(&sl, Node::cmp);
    config(&sl, r0);
    size_t nth = r0.range(3, 8);
    int64_t nkeys = r0.pick(std::vector<int64_t>{2, 4, 12, 40});
    uint64_t opsPer = argn("ops", 60);
    unsigned delay = r0.pick(std::vector<unsigned>{0, 0, 10, 40});
    st().context = fmt("concurrent seed=%llu threads=%zu keys=%lld", (unsigned long long)seed, nth, (long long)nkeys);
    std::vector<Node*> stable;
    bool withStable = r0.chance(80);
    for (int64_t k = 0; withStable && k <= nkeys; ++k) {
        Node* n = new Node(k * 2, -1);
        skiplist_insert(&sl, &n->sn);
        stable.push_back(n);
    }
    std::vector<std::vector<std::pair<int64_t, lin::Op>>> logs(nth);
    std::vector<std::vector<Node*>> inserted(nth);
    clk = 1;
    std::atomic<uint64_t> overlaps(0);
    {
    Noise noise(r0);
    parallel(nth, [&](size_t t) {
        Rng r(seed * 131 + t);
        for (uint64_t i = 0; i < opsPer; ++i) {
            if (delay && r.chance(delay)) std::this_thread::yield();
            int64_t k = r(nkeys) * 2 + 1;
            unsigned op = r(10);
            lin::Op o;
            o.tid = t;
            o.kind = op < 3 ? 0 : op < 6 ? 1 : 2;
            o.arg = 0;
            if (op < 3) {
                Node* n = new Node(k, t);
                o.inv = clk++;
                int rc = skiplist_insert_nodup(&sl, &n->sn);
                o.ret = clk++;
                o.res = rc == 0;
                if (rc) delete n;
                logs[t].push_back({k, o});
            } else if (op < 6) {
                // find, erase the very node, and free it: the pattern the log manifest uses
                Node q(k);
                o.inv = clk++;
                skiplist_node* c = skiplist_find(&sl, &q.sn);
                if (!c) {
                    o.ret = clk++;
                    o.kind = 2;
                    o.res = 0;
                    logs[t].push_back({k, o});
                } else {
                    Node* n = N(c);
                    if (n->guard != 0xabcdef12345678ull || n->key != k)
                        viol("skl:conc-find-key", fmt("find(%lld) returned a node with key %lld", (long long)k, (long long)n->key));
                    int rc = skiplist_erase_node(&sl, c);
                    o.ret = clk++;
                    o.res = rc == 0;
                    skiplist_release_node(c);
                    if (rc == 0) {
                        reclaim(n);
                        logs[t].push_back({k, o});
                    }   // otherwise somebody else erased this node: says nothing about the key
                }
            } else if (op < 8) {
                Node q(k);
                o.inv = clk++;
                skiplist_node* c = skiplist_find(&sl, &q.sn);
                o.ret = clk++;
                o.res = c != nullptr;
                if (c) {
                    if (N(c)->guard != 0xabcdef12345678ull || N(c)->key != k)
                        viol("skl:conc-find-key", fmt("find(%lld) returned a node with key %lld", (long long)k, (long long)N(c)->key));
                    skiplist_release_node(c);
                }
                logs[t].push_back({k, o});
            } else if (withStable) {
                int64_t kk = r(nkeys) * 2;
                unsigned w = r(5);
                if (w == 0) {
                    Node q(kk);
                    skiplist_node* c = skiplist_find(&sl, &q.sn);
                    if (!c || N(c)->key != kk) viol("skl:stable-find", fmt("find missed key %lld, present throughout", (long long)kk));
                    if (c) skiplist_release_node(c);
                } else if (w == 1) {
                    Node q(kk + 1);
                    skiplist_node* c = skiplist_find_greater_or_equal(&sl, &q.sn);
                    if (!c || N(c)->key < kk + 1 || N(c)->key > kk + 2)
                        viol("skl:stable-ge", fmt("find_greater_or_equal(%lld) -> %lld although %lld is present throughout",
                                                  (long long)kk + 1, c ? (long long)N(c)->key : -1, (long long)kk + 2));
                    if (c) skiplist_release_node(c);
                } else if (w == 2) {
                    Node q(kk + 1);
                    skiplist_node* c = skiplist_find_smaller_or_equal(&sl, &q.sn);
                    if (!c || N(c)->key > kk + 1 || N(c)->key < kk)
                        viol("skl:stable-le", fmt("find_smaller_or_equal(%lld) -> %lld although %lld is present throughout",
                                                  (long long)kk + 1, c ? (long long)N(c)->key : -1, (long long)kk));
                    if (c) skiplist_release_node(c);
                } else {
                    bool fwd = w == 3;
                    int64_t last = fwd ? -1 : nkeys * 2 + 2;
                    int64_t need = fwd ? 0 : nkeys * 2;
                    skiplist_node* c = fwd ? skiplist_begin(&sl) : skiplist_end(&sl);
                    uint64_t steps = 0;
                    while (c) {
                        int64_t kx = N(c)->key;
                        if (N(c)->guard != 0xabcdef12345678ull) viol("skl:freed-node", "a scan reached a freed node");
                        if (fwd ? kx <= last : kx >= last)
                            viol("skl:scan-order", fmt("%s scan went from %lld to %lld", fwd ? "forward" : "backward", (long long)last, (long long)kx));
                        if (kx % 2 == 0) {
                            if (kx != need) viol("skl:scan-missed", fmt("scan missed key %lld, present throughout (next %lld)", (long long)need, (long long)kx));
                            need = fwd ? kx + 2 : kx - 2;
                        }
                        last = kx;
                        skiplist_node* nx = fwd ? skiplist_next(&sl, c) : skiplist_prev(&sl, c);
                        skiplist_release_node(c);
                        c = nx;
                        if (++steps > 100000) { viol("skl:scan-endless", "a scan did not end"); break; }
                    }
                    if (steps <= 100000 && need != (fwd ? nkeys * 2 + 2 : -2))
                        viol("skl:scan-missed", fmt("a %s scan ended before key %lld, present throughout", fwd ? "forward" : "backward", (long long)need));
                    count("conc_scans");
                }
            }
        }
    });
    }
    // Per-key history
    std::map<int64_t, std::vector<lin::Op>> h;
    uint64_t total = 0;
    for (auto& l : logs) for (auto& e : l) { h[e.first].push_back(e.second); total++; }
    size_t present = 0;
    for (int64_t k = 0; k < nkeys; ++k) {
        int64_t key = k * 2 + 1;
        Node q(key);
        skiplist_node* c = skiplist_find(&sl, &q.sn);
        lin::Op o{clk++, 0, 2, 0, c != nullptr, 99};
        o.ret = clk++;
        if (c) { skiplist_release_node(c); present++; }
        auto& v = h[key];
        v.push_back(o);
        for (size_t a = 0; a + 1 < v.size(); ++a) for (size_t b = a + 1; b < std::min(v.size(), a + 6); ++b)
            if (v[a].inv < v[b].ret && v[b].inv < v[a].ret) overlaps++;
        lin::Verdict vd = lin::check(v, 0, [](int64_t s, const lin::Op& o, int64_t& nx) {
            if (o.kind == 0) { nx = 1; return o.res ? s == 0 : s == 1; }
            if (o.kind == 1) { nx = 0; return s == 1; }
            nx = s;
            return o.res == s;
        });
        count(vd == lin::UNKNOWN ? "histories_undecided" : "histories_decided");
        if (vd == lin::VIOLATION) {
            std::string t;
            for (auto& x : v) t += fmt("%d:%s=%lld[%llu,%llu] ", x.tid, x.kind == 0 ? "ins" : x.kind == 1 ? "del" : "get", (long long)x.res,
                                       (unsigned long long)x.inv, (unsigned long long)x.ret);
            viol("skl:linearizability", "history of one key has no linearization: " + t.substr(0, 1500));
        }
        std::string sig;
        for (auto& x : v) sig += (char)('a' + x.kind * 2 + x.res);
        seen(hash64(sig));
    }
    CHECK_KEY(skiplist_get_size(&sl) == present + stable.size(), "skl:conc-size", "size %zu, but %zu keys are found",
              skiplist_get_size(&sl), present + stable.size());
    count("conc_ops", total);
    count("overlapping_pairs", overlaps);
    count("conc_runs");
    skiplist_node* c = skiplist_begin(&sl);
    while (c) {
        skiplist_node* nx = skiplist_next(&sl, c);
        CHECK_KEY(skiplist_erase_node(&sl, c) == 0, "skl:final-erase", "erasing a node at rest failed");
        skiplist_release_node(c);
        reclaim(N(c));
        c = nx;
    }
    CHECK_KEY(skiplist_get_size(&sl) == 0, "skl:size", "size %zu after erasing everything", skiplist_get_size(&sl));
    skiplist_free(&sl);
}

int main(int argc, char** argv) {
    init(argc, argv);
    uint64_t nseq = argn("seq", 300), nconc = argn("conc", 200);
    for (uint64_t i = 0; i < nseq; ++i) sequential(st().seed * 1000003 + i);
    for (uint64_t i = 0; i < nconc; ++i) concurrent(st().seed * 7000003 + i);
    return finish();
}
