// SRCS: crc32.cc murmurhash3.cc
// Checksum and hash functions against independent references, for every length and alignment;
// composition over split buffers; error detection; no access outside the given bytes.
#include "common.h"
#include "crc32.h"
#include "murmurhash3.h"
using namespace hx;

static uint32_t refCrc(const uint8_t* p, size_t n, uint32_t prev) {   // IEEE 802.3, bit by bit
    uint32_t c = ~prev;
    for (size_t i = 0; i < n; ++i) {
        c ^= p[i];
        for (int k = 0; k < 8; ++k) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1)));
    }
    return ~c;
}
static uint64_t rot(uint64_t x, int r) { return (x << r) | (x >> (64 - r)); }
static uint64_t mix(uint64_t k) {
    k ^= k >> 33; k *= 0xff51afd7ed558ccdull; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ull; return k ^ (k >> 33);
}
static void refMurmur(const uint8_t* d, size_t n, uint32_t seed, uint64_t* out) {
    uint64_t h1 = seed, h2 = seed;
    const uint64_t c1 = 0x87c37b91114253d5ull, c2 = 0x4cf5ad432745937full;
    size_t i = 0;
    for (; i + 16 <= n; i += 16) {
        uint64_t a = 0, b = 0;
        for (int j = 7; j >= 0; --j) { a = (a << 8) | d[i + j]; b = (b << 8) | d[i + 8 + j]; }
        h1 ^= rot(a * c1, 31) * c2; h1 = (rot(h1, 27) + h2) * 5 + 0x52dce729;
        h2 ^= rot(b * c2, 33) * c1; h2 = (rot(h2, 31) + h1) * 5 + 0x38495ab5;
    }
    uint64_t a = 0, b = 0;
    size_t t = n - i;
    for (size_t j = t; j-- > 0;) { if (j >= 8) b = (b << 8) | d[i + j]; else a = (a << 8) | d[i + j]; }
    if (t > 8) h2 ^= rot(b * c2, 33) * c1;
    if (t > 0) h1 ^= rot(a * c1, 31) * c2;
    h1 ^= n; h2 ^= n; h1 += h2; h2 += h1; h1 = mix(h1); h2 = mix(h2); h1 += h2; h2 += h1;
    out[0] = h1; out[1] = h2;
}
static uint32_t rot32(uint32_t x, int r) { return (x << r) | (x >> (32 - r)); }
static uint32_t mix32(uint32_t h) { h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35; return h ^ (h >> 16); }
static void refMurmur128x86(const uint8_t* d, size_t n, uint32_t seed, uint32_t* out) {
    const uint32_t c[4] = {0x239b961b, 0xab0e9789, 0x38b34ae5, 0xa1e38b93};
    const int r1[4] = {15, 16, 17, 18}, r2[4] = {19, 17, 15, 13};
    const uint32_t add[4] = {0x561ccd1b, 0x0bcaa747, 0x96cd1c35, 0x32ac3b17};
    uint32_t h[4] = {seed, seed, seed, seed};
    size_t i = 0;
    for (; i + 16 <= n; i += 16)
        for (int w = 0; w < 4; ++w) {
            uint32_t k = 0;
            for (int j = 3; j >= 0; --j) k = (k << 8) | d[i + 4 * w + j];
            h[w] ^= rot32(k * c[w], r1[w]) * c[(w + 1) & 3];
            h[w] = (rot32(h[w], r2[w]) + h[(w + 1) & 3]) * 5 + add[w];
        }
    size_t t = n - i;
    for (int w = 3; w >= 0; --w) {
        if (t <= (size_t)4 * w) continue;
        uint32_t k = 0;
        for (size_t j = std::min<size_t>(t, 4 * w + 4); j-- > (size_t)4 * w;) k = (k << 8) | d[i + j];
        h[w] ^= rot32(k * c[w], r1[w]) * c[(w + 1) & 3];
    }
    for (auto& x : h) x ^= (uint32_t)n;
    for (int w = 1; w < 4; ++w) h[0] += h[w];
    for (int w = 1; w < 4; ++w) h[w] += h[0];
    for (auto& x : h) x = mix32(x);
    for (int w = 1; w < 4; ++w) h[0] += h[w];
    for (int w = 1; w < 4; ++w) h[w] += h[0];
    memcpy(out, h, 16);
}
static uint32_t refMurmur32(const uint8_t* d, size_t n, uint32_t seed) {
    uint32_t h = seed;
    size_t i = 0;
    for (; i + 4 <= n; i += 4) {
        uint32_t k = d[i] | d[i + 1] << 8 | d[i + 2] << 16 | (uint32_t)d[i + 3] << 24;
        h ^= rot32(k * 0xcc9e2d51, 15) * 0x1b873593;
        h = rot32(h, 13) * 5 + 0xe6546b64;
    }
    uint32_t k = 0;
    for (size_t j = n - i; j-- > 0;) k = (k << 8) | d[i + j];
    if (n - i) h ^= rot32(k * 0xcc9e2d51, 15) * 0x1b873593;
    return mix32(h ^ (uint32_t)n);
}
// exactly `n` bytes at alignment `a`, with nothing addressable behind them
struct Tight {
    std::vector<uint8_t> v;
    uint8_t* p;
    size_t n;
    Tight(size_t n, size_t a, Rng& r) : v(a + n), p(v.data() + a), n(n) { v.shrink_to_fit(); for (size_t i = 0; i < n; ++i) p[i] = (uint8_t)r(256); }
};
static void crcOne(Rng& r, size_t n, size_t a) {
    Tight t(n, a, r);
    unsigned style = r(6);
    if (style == 0) std::fill(t.p, t.p + n, 0);
    if (style == 1) std::fill(t.p, t.p + n, 0xff);
    uint32_t prev = r.chance(40) ? 0 : r.chance(20) ? 0xffffffffu : (uint32_t)r.next();
    uint32_t ref = refCrc(t.p, n, prev);
    CHECK_KEY(crc32_8(t.p, n, prev) == ref, "crc:crc32_8", "length %zu alignment %zu previous %08x: %08x, expected %08x", n, a, prev, crc32_8(t.p, n, prev), ref);
    CHECK_KEY(crc32_1(t.p, n, prev) == ref, "crc:crc32_1", "length %zu alignment %zu previous %08x", n, a, prev);
    size_t m = std::min<size_t>(n, 8);
    CHECK_KEY(crc32_8_last8(t.p, n, prev) == refCrc(t.p + n - m, m, prev), "crc:last8", "length %zu alignment %zu", n, a);
    if (n) {
        size_t k = r(n + 1), k2 = k + r(n - k + 1);
        uint32_t c = crc32_8(t.p, k, prev);
        c = crc32_8(t.p + k, k2 - k, c);
        c = crc32_8(t.p + k2, n - k2, c);
        CHECK_KEY(c == ref, "crc:composition", "a buffer of %zu checksummed in pieces 0-%zu-%zu differs from the whole", n, k, k2);
        // bursts of up to 32 bits are always detected
        uint32_t base = crc32_8(t.p, n, 0);
        size_t bit = r(n * 8), len = r.range(1, 32);
        std::vector<uint8_t> save(t.p, t.p + n);
        for (size_t b = bit; b < std::min(bit + len, n * 8); ++b)
            if (b == bit || r.chance(50)) t.p[b / 8] ^= 1 << (b % 8);
        CHECK_KEY(crc32_8(t.p, n, 0) != base, "crc:undetected", "a change within 32 bits of a %zu-byte buffer is not detected", n);
        memcpy(t.p, save.data(), n);
        count("error_patterns");
    }
    uint64_t h[2] = {7, 7}, rh[2];
    uint32_t seed = r.chance(40) ? 0 : (uint32_t)r.next();
    MurmurHash3_x64_128(t.p, n, seed, h);
    refMurmur(t.p, n, seed, rh);
    CHECK_KEY(h[0] == rh[0] && h[1] == rh[1], "murmur:x64-128", "length %zu alignment %zu seed %08x: %016llx %016llx", n, a, seed, (unsigned long long)h[0], (unsigned long long)h[1]);
    uint32_t g[4] = {7, 7, 7, 7}, rg[4];
    MurmurHash3_x86_128(t.p, n, seed, g);
    refMurmur128x86(t.p, n, seed, rg);
    CHECK_KEY(!memcmp(g, rg, 16), "murmur:x86-128", "length %zu alignment %zu seed %08x", n, a, seed);
    uint32_t q = 7;
    MurmurHash3_x86_32(t.p, n, seed, &q);
    CHECK_KEY(q == refMurmur32(t.p, n, seed), "murmur:x86-32", "length %zu alignment %zu seed %08x: %08x", n, a, seed, q);
    count("buffers");
    seen(hash64(t.p, n, n * 977 + a + ref));
}
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(st().seed);
    // published vectors
    CHECK_KEY(refCrc((const uint8_t*)"123456789", 9, 0) == 0xCBF43926u && crc32_8("123456789", 9, 0) == 0xCBF43926u, "crc:vector", "check value of '123456789'");
    uint32_t q;
    MurmurHash3_x86_32("hello, world", 12, 0, &q);
    CHECK_KEY(q == 0x149bbb7fu, "murmur:vector", "x86_32('hello, world') = %08x", q);
    uint64_t reps = argn("reps", 3), big = argn("big", 300);
    for (uint64_t k = 0; k < reps; ++k) for (size_t n = 0; n <= 280; ++n) for (size_t a = 0; a < 8; ++a) crcOne(r, n, a);
    for (uint64_t k = 0; k < big; ++k) crcOne(r, r.chance(80) ? r.range(281, 9000) : r.range(9000, 200000), r(8));
    sample(fmt("lengths 0..280 at 8 alignments %llu times, %llu larger buffers", (unsigned long long)reps, (unsigned long long)big));
    return finish();
}
