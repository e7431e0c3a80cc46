// SRCS: crc32.cc
// Histogram, latency collector, atomic shared pointer: nothing is lost or counted twice, estimates
// stay within the bucket of the true value, objects are freed exactly once and never too early.
#include "common.h"
#include "ashared_ptr.h"
#include "latency_collector.h"
#include "latency_dump.h"
using namespace hx;

static std::atomic<uint64_t> progress{0};
static std::atomic<bool> finished{false};
static void watchdog() {
    uint64_t last = 0;
    int idle = 0;
    while (!finished) {
        std::this_thread::sleep_for(std::chrono::milliseconds(100));
        uint64_t p = progress;
        idle = p == last ? idle + 1 : 0;
        last = p;
        if (idle > 600) {
            viol("stats:stuck", "no progress for 60 s: a deadlock");
            finish();
            _exit(1);
        }
    }
}

// ---- histogram
static uint64_t sampleVal(Rng& r) {
    unsigned w = r(10);
    if (w == 0) return 0;
    if (w == 1) return UINT64_MAX >> r(64);
    if (w == 2) return 1ull << r(64);
    if (w == 3) return (1ull << r(64)) - 1;
    if (w < 6) return r(50);
    return r.next() >> r(64);
}
static void checkHist(Histogram& h, std::vector<uint64_t> vals, bool exactMax, const char* what) {
    uint64_t sum = 0, mx = 0;
    for (uint64_t v : vals) { sum += v; mx = std::max(mx, v); }
    CHECK_KEY(h.getTotal() == vals.size(), "hist:total", "%s: total %llu of %zu", what, (unsigned long long)h.getTotal(), vals.size());
    CHECK_KEY(h.getSum() == sum, "hist:sum", "%s: sum", what);
    CHECK_KEY(h.getAverage() == (vals.empty() ? 0 : sum / vals.size()), "hist:avg", "%s: average", what);
    if (exactMax) CHECK_KEY(h.getMax() == mx, "hist:max", "%s: max %llu, expected %llu", what, (unsigned long long)h.getMax(), (unsigned long long)mx);
    else CHECK_KEY(h.getMax() <= mx, "hist:max", "%s: max above every value", what);
    uint64_t seenN = 0, prevLow = UINT64_MAX;
    bool first = true;
    for (auto& e : h) {
        HistItr& it = e;
        uint64_t lo = it.getLowerBound(), hi = it.getUpperBound(), n = 0;
        for (uint64_t v : vals) if (v >= lo && (v < hi || hi == UINT64_MAX)) n++;
        CHECK_KEY(it.getCount() == n, "hist:bin", "%s: bucket [%llu,%llu) holds %llu of %llu", what, (unsigned long long)lo, (unsigned long long)hi, (unsigned long long)it.getCount(), (unsigned long long)n);
        CHECK_KEY(first ? n > 0 : hi <= prevLow || prevLow == 0, "hist:order", "%s: buckets overlap or are out of order", what);
        prevLow = lo;
        first = false;
        seenN += it.getCount();
    }
    CHECK_KEY(seenN == vals.size(), "hist:iter", "%s: iteration saw %llu of %zu", what, (unsigned long long)seenN, vals.size());
    if (!exactMax) return;
    std::sort(vals.begin(), vals.end(), std::greater<uint64_t>());
    for (double p : {0.5, 1.0, 10.0, 25.0, 50.0, 75.0, 90.0, 99.0, 99.9}) {
        uint64_t k = (uint64_t)((double)vals.size() * (100 - p) / 100.0), est = h.estimate(p);
        if (!k) {
            CHECK_KEY(est == mx, "hist:percentile", "%s: p%.1f of %zu values is %llu, expected the max %llu", what, p, vals.size(), (unsigned long long)est, (unsigned long long)mx);
            continue;
        }
        uint64_t t = vals[k - 1];   // the estimate must fall into the bucket of the true value
        uint64_t lo = 0, hi = 0;
        if (t) { int b = 63 - __builtin_clzll(t); lo = 1ull << b; hi = b == 63 ? UINT64_MAX : (1ull << (b + 1)); }
        CHECK_KEY(est >= lo - (lo >> 40) && est <= hi && est <= (mx > UINT64_MAX - (mx >> 40) ? UINT64_MAX : mx + (mx >> 40)), "hist:percentile", "%s: p%.1f estimated %llu, true value %llu, max %llu", what, p, (unsigned long long)est, (unsigned long long)t, (unsigned long long)mx);
        HistItr f = h.find(p);
        CHECK_KEY(f != h.end() && f.getLowerBound() <= t && (t < f.getUpperBound() || f.getUpperBound() == UINT64_MAX), "hist:find", "%s: find(%.1f) is not the bucket of %llu", what, p, (unsigned long long)t);
    }
    CHECK_KEY(h.estimate(0) == 0 && h.estimate(100) == 0 && h.estimate(-5) == 0 && h.find(100) == h.end(), "hist:percentile", "%s: percentiles outside (0,100)", what);
}
static void histogram(uint64_t seed) {
    Rng r(seed);
    st().context = fmt("histogram seed=%llu", (unsigned long long)seed);
    Histogram h, g;
    std::vector<uint64_t> a, b;
    size_t n = r.pick(std::vector<size_t>{0, 1, 2, 10, 300});
    bool small = r.chance(40);
    for (size_t i = 0; i < n; ++i) { uint64_t v = small ? r(2000) : sampleVal(r); h.add(v); a.push_back(v); }
    for (size_t i = 0; i < r(40); ++i) { uint64_t v = sampleVal(r); g.add(v); b.push_back(v); }
    checkHist(h, a, true, "sequential");
    std::vector<uint64_t> u = a;
    u.insert(u.end(), b.begin(), b.end());
    Histogram s = h + g;
    checkHist(s, u, true, "a + b");
    checkHist(h, a, true, "a after a + b");
    Histogram c(h);
    c += g;
    checkHist(c, u, true, "a += b");
    c = g;
    checkHist(c, b, true, "assignment");
    size_t steps = 0;
    for (HistItr it = h.begin(); it != h.end(); ++it, ++steps) {
        HistItr x = it;
        ++x;
        if (x != h.end()) { --x; CHECK_KEY(x == it, "hist:iter", "++ then -- does not return"); }
    }
    count("histograms");
    progress++;
    seen(hash64(&seed, 8));
}
static void histogramConc(uint64_t seed) {
    Rng r(seed);
    st().context = fmt("histogram concurrent seed=%llu", (unsigned long long)seed);
    Histogram h;
    size_t nt = r.range(2, 6);
    std::vector<std::vector<uint64_t>> v(nt);
    {
        Noise noise(r);
        parallel(nt, [&](size_t t) { Rng q(seed * 7 + t); for (int i = 0; i < 200; ++i) { uint64_t x = sampleVal(q); h.add(x); v[t].push_back(x); if (i % 50 == 0) { h.estimate(50); h.getAverage(); } } });
    }
    std::vector<uint64_t> all;
    for (auto& x : v) all.insert(all.end(), x.begin(), x.end());
    checkHist(h, all, false, "concurrent");
    count("hist_adds", all.size());
    progress++;
}

// ---- atomic shared pointer
struct Obj {
    static std::atomic<int64_t> live, total;
    uint64_t magic, id, sum;
    explicit Obj(uint64_t i) : magic(0x5ca1ab1e5ca1ab1eull), id(i), sum(i * 31 + 7) { live++; total++; }
    ~Obj() { magic = 0xdeaddeaddeaddeadull; sum = 0; live--; }
    bool good() const { return magic == 0x5ca1ab1e5ca1ab1eull && sum == id * 31 + 7; }
};
std::atomic<int64_t> Obj::live{0}, Obj::total{0};
static void sharedPtr(uint64_t seed) {
    Rng r0(seed);
    st().context = fmt("shared pointer seed=%llu", (unsigned long long)seed);
    size_t nt = r0.range(2, 6), nslots = r0.range(1, 3);
    std::vector<std::unique_ptr<ashared_ptr<Obj>>> slot;
    for (size_t i = 0; i < nslots; ++i) slot.emplace_back(new ashared_ptr<Obj>(new Obj(i)));
    std::atomic<uint64_t> ids{100}, casOk{0}, casFail{0};
    int64_t live0 = Obj::live - nslots;
    {
        Noise noise(r0);
        parallel(nt, [&](size_t t) {
            Rng r(seed * 131 + t);
            std::vector<ashared_ptr<Obj>> mine(3);
            for (int i = 0; i < 120; ++i) {
                auto& s = *slot[r(nslots)];
                unsigned op = r(9);
                if (op < 3) {                       // read
                    ashared_ptr<Obj> c = s;
                    if (!(c == (const Obj*)nullptr)) {
                        if (!c->good()) viol("sp:freed", "a shared object was destroyed while held");
                        mine[r(3)] = c;
                    }
                } else if (op == 3) {               // replace
                    s = ashared_ptr<Obj>(new Obj(ids++));
                } else if (op < 6) {                // compare-exchange
                    ashared_ptr<Obj> exp = s;
                    ashared_ptr<Obj> nv(new Obj(ids++));
                    ashared_ptr<Obj> old = exp;
                    bool ok = s.compare_exchange(exp, nv);
                    if (ok) casOk++; else casFail++;
                    if (!(old == (const Obj*)nullptr) && !old->good()) viol("sp:freed", "the expected object was destroyed while held");
                    if (!nv->good()) viol("sp:freed", "the new object was destroyed while held");
                } else if (op == 6) {
                    mine[r(3)].reset();
                } else if (op == 7) {               // crosswise and self assignment
                    auto& s2 = *slot[r(nslots)];
                    s = s2;
                    if (r.chance(30)) s = s;
                } else {
                    auto& m = mine[r(3)];
                    if (!(m == (const Obj*)nullptr) && !m->good()) viol("sp:freed", "an object kept by a thread was destroyed");
                    m = m;
                }
                progress++;
            }
        });
    }
    // a null slot never appears: nobody stores null
    for (auto& s : slot) CHECK_KEY(!(*s == (const Obj*)nullptr) && (*s)->good(), "sp:lost", "a slot lost its object");
    {   // sequential compare-exchange semantics
        ashared_ptr<Obj> a(new Obj(1)), b(new Obj(2)), c(new Obj(3)), d = a;
        ashared_ptr<Obj> e = b;
        CHECK_KEY(!a.compare_exchange(e, c) && e == a && a == d, "sp:cas", "compare_exchange with another expected value");
        CHECK_KEY(a.compare_exchange(d, c) && a == c && d->id == 1, "sp:cas", "compare_exchange with the right expected value");
    }
    slot.clear();
    CHECK_KEY(Obj::live == live0, "sp:leak", "%lld objects are alive, expected %lld", (long long)Obj::live, (long long)live0);
    count("cas_ok", casOk);
    count("cas_failed", casFail);
    count("sp_runs");
    seen(hash64(&seed, 8));
}

// ---- latency collector
static void collector(uint64_t seed) {
    Rng r0(seed);
    st().context = fmt("latency collector seed=%llu", (unsigned long long)seed);
    size_t nt = r0.range(2, 6), names = r0.range(1, 12);   // fewer names than the collector's retries
    std::unique_ptr<LatencyCollector> lc(new LatencyCollector());
    std::vector<std::map<std::string, std::vector<uint64_t>>> added(nt);
    std::atomic<bool> stop{false};
    {
        Noise noise(r0);
        std::thread reader([&] {
            LatencyDumpDefaultImpl d;
            LatencyCollectorDumpOptions flat;
            flat.view_type = LatencyCollectorDumpOptions::FLAT;
            while (!stop) {
                size_t n = lc->getNumItems();
                if (n > names) viol("lc:items", fmt("%zu items of %zu names", n, names));
                lc->getAggrItem("n1");
                std::string s = lc->dump(&d, flat);
                lc->getNumCalls("n0");
                progress++;
                std::this_thread::yield();
            }
        });
        parallel(nt, [&](size_t t) {
            Rng r(seed * 131 + t);
            for (int i = 0; i < 150; ++i) {
                std::string nm = fmt("n%llu", (unsigned long long)r(names));
                uint64_t v = r(100000);
                lc->addLatency(nm, v);
                added[t][nm].push_back(v);
                progress++;
            }
        });
        stop = true;
        reader.join();
    }
    size_t used = 0;
    for (size_t i = 0; i < names; ++i) {
        std::string nm = fmt("n%zu", i);
        uint64_t n = 0, sum = 0;
        for (auto& m : added) for (uint64_t v : m[nm]) { n++; sum += v; }
        CHECK_KEY(lc->getNumCalls(nm) == n && lc->getTotalTime(nm) == sum, "lc:lost", "%s: %llu calls of %llu, %llu us of %llu recorded", nm.c_str(),
                  (unsigned long long)lc->getNumCalls(nm), (unsigned long long)n, (unsigned long long)lc->getTotalTime(nm), (unsigned long long)sum);
        CHECK_KEY(lc->getAvgLatency(nm) == (n ? sum / n : 0), "lc:avg", "average of %s", nm.c_str());
        used += n > 0;
        count("latencies", n);
    }
    CHECK_KEY(lc->getNumItems() == used, "lc:items", "%zu items, expected %zu", lc->getNumItems(), used);
    CHECK_KEY(lc->getNumCalls("absent") == 0 && lc->getAvgLatency("absent") == 0, "lc:absent", "an absent item has calls");
    count("collector_runs");
    seen(hash64(&seed, 8));
}
// Nested scopes: call counts per path; dumps in the middle of it.
static LatencyCollector* gl;
static std::map<std::string, uint64_t>* expPaths;
static void nest(Rng& r, std::string path, int depth, bool longNames) {
    // includes lengths around the tracker's buffer size, now and then
    std::string nm = fmt("f%llu", (unsigned long long)r(3));
    if (longNames) nm += std::string(r.chance(30) ? 4096 - 4 - nm.size() - std::min<size_t>(path.size(), 4000) + r(3) - 1 : r(600), 'x');
    LatencyCollectWrapper w(gl, nm);
    std::string p = path + " ## " + nm;
    if (depth < 4) for (uint64_t i = r(3); i > 0; --i) nest(r, p, depth + 1, longNames);
    if (r.chance(20)) {
        LatencyDumpDefaultImpl d;
        LatencyCollectorDumpOptions o;
        o.view_type = r.chance(70) ? LatencyCollectorDumpOptions::TREE : LatencyCollectorDumpOptions::FLAT;
        o.sort_by = (LatencyCollectorDumpOptions::SortBy)r(4);
        gl->dump(&d, o);
        count("dumps");
    }
    (*expPaths)[p]++;
}
static void nested(uint64_t seed) {
    Rng r(seed);
    st().context = fmt("nested latencies seed=%llu", (unsigned long long)seed);
    LatencyCollector lc;
    gl = &lc;
    std::map<std::string, uint64_t> e;
    expPaths = &e;
    bool longNames = r.chance(30);
    for (int i = 0; i < 3; ++i) nest(r, "", 0, longNames);
    for (auto& x : e) CHECK_KEY(lc.getNumCalls(x.first) == x.second, "lc:nested", "a call path was recorded %llu times instead of %llu", (unsigned long long)lc.getNumCalls(x.first), (unsigned long long)x.second);
    CHECK_KEY(lc.getNumItems() == e.size(), "lc:items", "%zu paths recorded, expected %zu", lc.getNumItems(), e.size());
    uint64_t tot = 0, agg = 0;
    for (auto& x : e) if (x.first.substr(x.first.rfind(" ## ") + 4) == "f1") tot += x.second;
    agg = lc.getAggrItem("f1").getNumCalls();
    CHECK_KEY(tot == agg, "lc:aggr", "aggregate over paths: %llu calls, expected %llu", (unsigned long long)agg, (unsigned long long)tot);
    LatencyDumpDefaultImpl d;
    LatencyCollectorDumpOptions o;
    std::string s = lc.dump(&d, o);
    CHECK_KEY((size_t)std::count(s.begin(), s.end(), '\n') == e.size() + 1, "lc:dump", "the dump has %zu lines for %zu paths", (size_t)std::count(s.begin(), s.end(), '\n'), e.size());
    count("nested_runs");
    progress++;
}

int main(int argc, char** argv) {
    init(argc, argv);
    uint64_t n = argn("runs", 60);
    std::thread wd(watchdog);
    std::string part = arg("part", "hsc");
    auto on = [&](char c) { return part.find(c) != std::string::npos; };
    for (uint64_t i = 0; i < n; ++i) {
        uint64_t s = st().seed * 1000003 + i;
        if (on('h')) {
            histogram(s * 2);
            histogram(s * 2 + 1);
            if (i % 4 == 0) histogramConc(s);
        }
        if (on('s')) sharedPtr(s);
        if (on('c')) {
            if (i % 2 == 0) collector(s);
            nested(s);
        }
        count("runs");
    }
    finished = true;
    wd.join();
    return finish();
}
