// SRCS: bloomfilter.cc murmurhash3.cc
// Bloom filter and bitmap: no false negative for any element, sequentially, across export and
// import, and under concurrent insertion; false-positive rate; bitmap against a model.
#include "common.h"
#include "bloomfilter.h"
#include "murmurhash3.h"
#include <cmath>
using namespace hx;

static std::string key(Rng& r) {
    size_t n = r.chance(10) ? 0 : r.chance(70) ? r.range(1, 40) : r.range(40, 300);
    std::string s(n, 0);
    for (auto& c : s) c = (char)r(256);
    return s;
}
static void bitmapRun(uint64_t seed) {
    Rng r(seed);
    st().context = fmt("bitmap seed=%llu", (unsigned long long)seed);
    uint64_t bits = r.pick(std::vector<uint64_t>{1, 7, 8, 9, 63, 64, 65, 1000, 4096});
    GenericBitmap b(bits, r(5));
    std::vector<bool> m(bits, false);
    CHECK_KEY(b.size() == bits, "bitmap:size", "size %zu, created with %llu", b.size(), (unsigned long long)bits);
    CHECK_KEY(b.getMemorySize() * 8 >= bits, "bitmap:memory", "%zu bytes for %llu bits", b.getMemorySize(), (unsigned long long)bits);
    std::unique_ptr<GenericBitmap> copy;
    std::vector<bool> cm;
    for (int i = 0; i < 400; ++i) {
        uint64_t k = r.chance(10) ? bits - 1 : r(bits);
        if (r.chance(50)) {
            bool v = r.chance(60);
            bool old = b.set(k, v);
            CHECK_KEY(old == m[k], "bitmap:set-old", "set(%llu) said the old value was %d", (unsigned long long)k, old);
            m[k] = v;
        } else {
            CHECK_KEY(b.get(k) == m[k], "bitmap:get", "get(%llu)=%d", (unsigned long long)k, !m[k]);
        }
        if (i == 200) {
            copy.reset(new GenericBitmap(b.getPtr(), b.getMemorySize(), bits));
            cm = m;
        }
        count("bitmap_ops");
    }
    for (uint64_t k = 0; k < bits; ++k) {
        CHECK_KEY(b.get(k) == m[k], "bitmap:get", "bit %llu", (unsigned long long)k);
        CHECK_KEY(copy->get(k) == cm[k], "bitmap:copy", "a copy of the bitmap differs at bit %llu", (unsigned long long)k);
    }
    void* mem = malloc(b.getMemorySize());
    memcpy(mem, b.getPtr(), b.getMemorySize());
    GenericBitmap b2(8);
    b2.moveFrom(mem, b.getMemorySize(), bits);
    CHECK_KEY(b2.size() == bits, "bitmap:move", "size %zu after moveFrom", b2.size());
    for (uint64_t k = 0; k < bits; ++k) CHECK_KEY(b2.get(k) == m[k], "bitmap:move", "bit %llu after moveFrom", (unsigned long long)k);
    std::string h(bits, '0');
    for (uint64_t k = 0; k < bits; ++k) h[k] = '0' + m[k];
    seen(hash64(h));
}
static void filterRun(uint64_t seed) {
    Rng r(seed);
    st().context = fmt("bloom seed=%llu", (unsigned long long)seed);
    uint64_t n = r.pick(std::vector<uint64_t>{1, 5, 60, 500});
    double bpk = r.pick(std::vector<double>{1, 4, 10, 16});
    uint64_t bits = std::max<uint64_t>(1, n * bpk) + r(9);
    uint8_t hc = r.range(1, 10);
    BloomFilter f(bits, hc);
    CHECK_KEY(f.size() >= bits && f.size() < bits + 8 && f.size() % 8 == 0, "bloom:size", "%zu bits for %llu asked", f.size(), (unsigned long long)bits);
    std::vector<std::string> ks;
    std::set<std::string> in;
    for (uint64_t i = 0; i < n; ++i) {
        std::string k = key(r);
        ks.push_back(k);
        in.insert(k);
        if (r.chance(50)) f.set((void*)k.data(), k.size());
        else {
            uint64_t h[2] = {0, 0};
            MurmurHash3_x64_128(k.data(), k.size(), 0, h);
            f.set(h);
        }
        CHECK_KEY(f.check((void*)k.data(), k.size()), "bloom:false-negative", "key %s not found right after it was added", printable(k).c_str());
    }
    auto all = [&](BloomFilter& g, const char* what) {
        for (auto& k : ks) {
            uint64_t h[2] = {0, 0};
            MurmurHash3_x64_128(k.data(), k.size(), 0, h);
            CHECK_KEY(g.check((void*)k.data(), k.size()), "bloom:false-negative", "%s: key %s lost (bits %llu hashes %u)", what,
                      printable(k).c_str(), (unsigned long long)bits, hc);
            CHECK_KEY(g.check(h), "bloom:false-negative", "%s: hash pair of %s lost", what, printable(k).c_str());
            count("member_checks", 2);
        }
    };
    all(f, "filter");
    // export -> import, three ways
    size_t len = f.size() / 8;
    std::vector<uint8_t> out(len + 3, 0xEE);
    f.exportBitmap(out.data(), out.size());
    CHECK_KEY(out[len] == 0xEE && out[len + 2] == 0xEE, "bloom:export-overrun", "export wrote past the bitmap");
    BloomFilter g(out.data(), len, hc);
    all(g, "imported by constructor");
    BloomFilter h(8, hc);
    void* mem = malloc(len);
    memcpy(mem, out.data(), len);
    h.moveBitmapFrom(mem, len);
    all(h, "imported by moveBitmapFrom");
    CHECK_KEY(g.size() == f.size() && h.size() == f.size(), "bloom:size", "size changed by import");
    std::vector<uint8_t> out2(len);
    h.exportBitmap(out2.data(), len);
    CHECK_KEY(!memcmp(out.data(), out2.data(), len) && !memcmp(f.getPtr(), out.data(), len), "bloom:export", "export, import, export is not the identity");
    // both query paths and the imported copies agree on foreign keys; the rate is the expected one
    uint64_t fp = 0, tries = 3000;
    for (uint64_t i = 0; i < tries; ++i) {
        std::string k = key(r);
        if (in.count(k)) { tries--; continue; }
        uint64_t hp[2] = {0, 0};
        MurmurHash3_x64_128(k.data(), k.size(), 0, hp);
        bool a = f.check((void*)k.data(), k.size());
        CHECK_KEY(a == f.check(hp) && a == g.check((void*)k.data(), k.size()) && a == h.check(hp), "bloom:disagree", "the query paths disagree on %s", printable(k).c_str());
        fp += a && k.size() > 3;
    }
    double p = std::pow(1 - std::exp(-(double)hc * n / f.size()), hc);
    if (n >= 60 && bpk >= 4) {
        double exp = p * tries;
        CHECK_KEY(fp <= exp * 2.5 + 60, "bloom:fp-rate", "%llu false positives of %llu, theory says about %.1f (bits %llu keys %llu hashes %u)",
                  (unsigned long long)fp, (unsigned long long)tries, exp, (unsigned long long)bits, (unsigned long long)n, hc);
        count("rate_checks");
    }
    count("filters");
    seen(hash64(out.data(), len));
    if (seed % 50 == 0) sample(fmt("filter of %llu bits, %u hashes, %llu keys: no false negative, %llu/%llu false positives (theory %.4f)",
                                   (unsigned long long)bits, hc, (unsigned long long)n, (unsigned long long)fp, (unsigned long long)tries, p));
}
static void concurrentRun(uint64_t seed) {
    Rng r0(seed);
    st().context = fmt("bloom concurrent seed=%llu", (unsigned long long)seed);
    size_t nth = r0.range(2, 8);
    uint64_t per = 120;
    BloomFilter f(r0.pick(std::vector<uint64_t>{64, 2000, 20000}), r0.range(1, 6));
    GenericBitmap b(nth * per, r0(9));
    std::atomic<uint64_t> done[8];
    for (auto& d : done) d = 0;
    {
        Noise noise(r0);
        parallel(nth, [&](size_t t) {
            Rng r(seed * 7 + t);
            for (uint64_t i = 0; i < per; ++i) {
                std::string k = fmt("%zu-%llu", t, (unsigned long long)i);
                f.set((void*)k.data(), k.size());
                uint64_t bit = i * nth + t;   // neighbours in one byte belong to different threads
                b.set(bit, true);
                if (i % 3 == 0) b.set(bit, false);
                done[t].store(i + 1, std::memory_order_release);
                size_t o = r(nth);
                uint64_t d = done[o].load(std::memory_order_acquire);
                if (d) {
                    uint64_t j = r(d);
                    std::string q = fmt("%zu-%llu", o, (unsigned long long)j);
                    CHECK_KEY(f.check((void*)q.data(), q.size()), "bloom:conc-false-negative", "key %s, added before, not found", q.c_str());
                    CHECK_KEY(b.get(j * nth + o) == (j % 3 != 0), "bitmap:conc-lost", "bit set by one thread lost");
                    count("concurrent_checks");
                }
            }
        });
    }
    for (size_t t = 0; t < nth; ++t) for (uint64_t i = 0; i < per; ++i) {
        std::string q = fmt("%zu-%llu", t, (unsigned long long)i);
        CHECK_KEY(f.check((void*)q.data(), q.size()), "bloom:conc-false-negative", "key %s lost among concurrent additions", q.c_str());
        CHECK_KEY(b.get(i * nth + t) == (i % 3 != 0), "bitmap:conc-lost", "bit %llu lost among concurrent updates", (unsigned long long)(i * nth + t));
    }
    count("concurrent_runs");
}
int main(int argc, char** argv) {
    init(argc, argv);
    uint64_t n = argn("runs", 300), c = argn("conc", 60);
    for (uint64_t i = 0; i < n; ++i) { filterRun(st().seed * 1000003 + i); bitmapRun(st().seed * 2000003 + i); }
    for (uint64_t i = 0; i < c; ++i) concurrentRun(st().seed * 3000017 + i);
    return finish();
}
