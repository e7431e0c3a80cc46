// SRCS: avltree.cc
// Merge index used by every iterator (AVL tree): sequential model, structural invariants after
// every operation, exhaustive small insertion/removal orders.
#include "common.h"
#include "avltree.h"
#include <cmath>
using namespace hx;

struct Node { avl_node an; int64_t key; int64_t id; };
static Node* N(avl_node* n) { return n ? _get_entry(n, Node, an) : nullptr; }
static int sign = 1;
static uint64_t cmps = 0;
static int cmp(avl_node* a, avl_node* b, void* aux) {
    ++cmps;
    if (aux != (void*)&sign) viol("avl:aux", "the comparison function was not given the tree's aux pointer");
    int64_t x = N(a)->key, y = N(b)->key;
    return (x < y ? -3 : x > y ? 7 : 0) * sign;
}
// returns height; checks parent links, order and balance
static int walk(avl_node* n, avl_node* parent, std::vector<int64_t>& out, bool& ok) {
    if (!n) return 0;
    if (avl_parent(n) != parent) { viol("avl:parent", "a node's parent link is wrong"); ok = false; }
    int l = walk(n->left, n, out, ok);
    if (!ok || out.size() > 100000) return 0;
    out.push_back(N(n)->key);
    int r = walk(n->right, n, out, ok);
    if (std::abs(l - r) > 1) { viol("avl:unbalanced", fmt("subtree heights %d and %d", l, r)); ok = false; }
    if (avl_bf(n) != r - l) { viol("avl:balance-factor", fmt("balance factor %d with heights %d and %d", avl_bf(n), l, r)); ok = false; }
    return 1 + std::max(l, r);
}
typedef std::map<int64_t, Node*> Model;
static bool inspect(avl_tree* t, const Model& m, Rng* r) {
    std::vector<int64_t> got;
    bool ok = true;
    walk(t->root, nullptr, got, ok);
    std::vector<int64_t> exp;
    for (auto& e : m) exp.push_back(e.first);
    if (sign < 0) std::reverse(exp.begin(), exp.end());
    if (got != exp) { viol("avl:content", fmt("the tree holds %zu keys in order, expected %zu, or others", got.size(), exp.size())); ok = false; }
    std::vector<int64_t> f, b;
    for (avl_node* c = avl_first(t); c && f.size() <= exp.size(); c = avl_next(c)) f.push_back(N(c)->key);
    for (avl_node* c = avl_last(t); c && b.size() <= exp.size(); c = avl_prev(c)) b.push_back(N(c)->key);
    std::reverse(b.begin(), b.end());
    if (f != exp) { viol("avl:forward", fmt("walk from first by next saw %zu of %zu keys, or others", f.size(), exp.size())); ok = false; }
    if (b != exp) { viol("avl:backward", fmt("walk from last by prev saw %zu of %zu keys, or others", b.size(), exp.size())); ok = false; }
    count("inspections");
    uint64_t h = 3;
    // shape
    std::vector<avl_node*> q{t->root};
    for (size_t i = 0; i < q.size() && ok; ++i) {
        if (!q[i]) { h = h * 31 + 1; continue; }
        h = hash64(&N(q[i])->key, 8, h);
        q.push_back(q[i]->left);
        q.push_back(q[i]->right);
    }
    seen(h);
    return ok;
}
static void searches(avl_tree* t, const Model& m, int64_t k) {
    Node q; q.key = k;
    auto e = m.find(k);
    avl_node* a = avl_search(t, &q.an, cmp);
    CHECK_KEY(e == m.end() ? !a : N(a) == e->second, "avl:search", "search(%lld)", (long long)k);
    auto ge = m.lower_bound(k);
    auto le = m.upper_bound(k);
    Node* xge = ge == m.end() ? nullptr : ge->second;
    Node* xle = le == m.begin() ? nullptr : std::prev(le)->second;
    if (sign < 0) std::swap(xge, xle);
    avl_node* g = avl_search_greater(t, &q.an, cmp);
    avl_node* s = avl_search_smaller(t, &q.an, cmp);
    CHECK_KEY(N(g) == xge, "avl:search-greater", "search_greater(%lld) -> %lld, expected %lld of %zu", (long long)k, g ? (long long)N(g)->key : -1,
              xge ? (long long)xge->key : -1, m.size());
    CHECK_KEY(N(s) == xle, "avl:search-smaller", "search_smaller(%lld) -> %lld, expected %lld of %zu", (long long)k, s ? (long long)N(s)->key : -1,
              xle ? (long long)xle->key : -1, m.size());
    count("searches", 3);
}
static bool insertOne(avl_tree* t, Model& m, int64_t k) {
    Node* n = new Node();
    memset(&n->an, 0xA5, sizeof(n->an));
    n->an.parent = n->an.left = n->an.right = nullptr;
    n->key = k;
    avl_node* r = avl_insert(t, &n->an, cmp);
    auto e = m.find(k);
    count("inserts");
    if (e != m.end()) {
        CHECK_KEY(N(r) == e->second, "avl:insert-dup", "inserting key %lld again did not return the node already there", (long long)k);
        delete n;
        return false;
    }
    CHECK_KEY(N(r) == n, "avl:insert", "insert(%lld) did not return the new node", (long long)k);
    m[k] = n;
    return true;
}
static void removeOne(avl_tree* t, Model& m, int64_t k) {
    auto e = m.find(k);
    if (e == m.end()) return;
    avl_remove(t, &e->second->an);
    delete e->second;
    m.erase(e);
    count("removes");
}
static void clearAll(avl_tree* t, Model& m) {
    while (!m.empty()) removeOne(t, m, m.begin()->first);
    CHECK_KEY(t->root == nullptr && !avl_first(t) && !avl_last(t), "avl:content", "not empty after removing everything");
}

static void randomRun(uint64_t seed) {
    Rng r(seed);
    avl_tree t;
    sign = r.chance(30) ? -1 : 1;
    if (r.chance(50)) avl_init(&t, &sign);
    else { avl_init(&t, nullptr); avl_set_aux(&t, &sign); }
    Model m;
    int64_t range = r.pick(std::vector<int64_t>{3, 8, 40, 400, 5000});
    unsigned style = r(4);   // random, ascending, descending, sawtooth
    uint64_t ops = r.range(20, 500);
    st().context = fmt("avl random seed=%llu", (unsigned long long)seed);
    int64_t nextKey = 0;
    unsigned ins = r.range(30, 80);
    for (uint64_t i = 0; i < ops; ++i) {
        bool ok = true;
        if (r.chance(ins)) {
            int64_t k = style == 0 ? (int64_t)r(range) : style == 1 ? nextKey++ : style == 2 ? -nextKey++ : (nextKey++ * 7919) % range;
            insertOne(&t, m, k);
        } else if (!m.empty()) {
            // remove: random, smallest, largest or the root
            int64_t k;
            unsigned w = r(4);
            if (w == 0) k = m.begin()->first;
            else if (w == 1) k = m.rbegin()->first;
            else if (w == 2) k = N(t.root)->key;
            else { auto e = m.lower_bound(m.begin()->first + r(m.rbegin()->first - m.begin()->first + 1)); k = e->first; }
            removeOne(&t, m, k);
        }
        ok = inspect(&t, m, &r);
        if (!ok) return;
        int64_t lo = m.empty() ? 0 : m.begin()->first, hi = m.empty() ? 1 : m.rbegin()->first;
        searches(&t, m, lo - 2 + (int64_t)r(hi - lo + 5));
        if (i % 64 == 0) {   // pop from the front or the back while stepping, as the iterators do
            for (int j = 0; j < 3 && !m.empty(); ++j) {
                avl_node* c = r.chance(50) ? avl_first(&t) : avl_last(&t);
                removeOne(&t, m, N(c)->key);
                insertOne(&t, m, (int64_t)r(range));
            }
            if (!inspect(&t, m, &r)) return;
        }
    }
    clearAll(&t, m);
    count("runs");
}
// every insertion order of n keys, then removal of every key in every rotation
static void exhaustive(size_t n) {
    sign = 1;
    std::vector<int64_t> p;
    for (size_t i = 0; i < n; ++i) p.push_back(i * 2);
    do {
        for (size_t first = 0; first < n; ++first) {
            avl_tree t;
            avl_init(&t, &sign);
            Model m;
            st().context = fmt("avl exhaustive n=%zu", n);
            for (int64_t k : p) insertOne(&t, m, k);
            if (first == 0) {
                if (!inspect(&t, m, nullptr)) return;
                for (int64_t k = -1; k <= (int64_t)n * 2; ++k) searches(&t, m, k);
            }
            for (size_t i = 0; i < n; ++i) {
                removeOne(&t, m, p[(first * 3 + i) % n]);
                if (!inspect(&t, m, nullptr)) return;
            }
            count("exhaustive_runs");
        }
    } while (std::next_permutation(p.begin(), p.end()));
}
int main(int argc, char** argv) {
    init(argc, argv);
    uint64_t n = argn("runs", 1500), ex = argn("exh", 6);
    for (uint64_t i = 0; i < n; ++i) randomRun(st().seed * 1000003 + i);
    for (size_t i = 1; i <= ex; ++i) exhaustive(i);
    count("comparisons", cmps);
    sample(fmt("random insert/remove runs: %llu, every order of up to %llu keys", (unsigned long long)n, (unsigned long long)ex));
    return finish();
}
