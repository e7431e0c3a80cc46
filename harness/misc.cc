// SRCS: murmurhash3.cc internal_helper.cc
// Hashing that places keys (partition, bloom filter, lookup table) and the small helpers the rest
// relies on, each against an independent definition.
#include "common.h"
#include "internal_helper.h"
#include "murmurhash3.h"
#include <cmath>
#include <sys/mman.h>
using namespace hx;
using namespace jungle;

// MurmurHash3 written from its definition, byte by byte.
static uint32_t le32(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static uint64_t le64(const uint8_t* p) { return le32(p) | (uint64_t)le32(p + 4) << 32; }
static uint32_t rol(uint32_t x, int r) { return x << r | x >> (32 - r); }
static uint64_t rol(uint64_t x, int r) { return x << r | x >> (64 - r); }
static uint32_t mix32(uint32_t h) { h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35; return h ^ h >> 16; }
static uint64_t mix64(uint64_t k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdull; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ull; return k ^ k >> 33; }
static uint32_t ref32(const uint8_t* p, size_t n, uint32_t h) {
    std::vector<uint8_t> b(p, p + n);
    size_t i = 0;
    for (; i + 4 <= n; i += 4) h = rol(h ^ rol(le32(&b[i]) * 0xcc9e2d51u, 15) * 0x1b873593u, 13) * 5 + 0xe6546b64u;
    if (i < n) {
        uint8_t t[4] = {0, 0, 0, 0};
        memcpy(t, &b[i], n - i);
        h ^= rol(le32(t) * 0xcc9e2d51u, 15) * 0x1b873593u;
    }
    return mix32(h ^ (uint32_t)n);
}
static void ref64(const uint8_t* p, size_t n, uint32_t seed, uint64_t* out) {
    const uint64_t c1 = 0x87c37b91114253d5ull, c2 = 0x4cf5ad432745937full;
    uint64_t a = seed, b = seed;
    size_t i = 0;
    for (; i + 16 <= n; i += 16) {
        a ^= rol(le64(p + i) * c1, 31) * c2;
        a = (rol(a, 27) + b) * 5 + 0x52dce729;
        b ^= rol(le64(p + i + 8) * c2, 33) * c1;
        b = (rol(b, 31) + a) * 5 + 0x38495ab5;
    }
    uint8_t t[16] = {0};
    if (n > i) memcpy(t, p + i, n - i);
    if (n - i > 8) b ^= rol(le64(t + 8) * c2, 33) * c1;
    if (n - i > 0) a ^= rol(le64(t) * c1, 31) * c2;
    a ^= n; b ^= n;
    a += b; b += a;
    a = mix64(a); b = mix64(b);
    a += b; b += a;
    out[0] = a; out[1] = b;
}
static void ref128x86(const uint8_t* p, size_t n, uint32_t seed, uint32_t* out) {
    const uint32_t c[4] = {0x239b961b, 0xab0e9789, 0x38b34ae5, 0xa1e38b93};
    uint32_t h[4] = {seed, seed, seed, seed};
    const int r1[4] = {15, 16, 17, 18}, r2[4] = {19, 17, 15, 13};
    const uint32_t add[4] = {0x561ccd1b, 0x0bcaa747, 0x96cd1c35, 0x32ac3b17};
    size_t i = 0;
    for (; i + 16 <= n; i += 16)
        for (int k = 0; k < 4; ++k) {
            h[k] ^= rol(le32(p + i + 4 * k) * c[k], r1[k]) * c[(k + 1) % 4];
            h[k] = (rol(h[k], r2[k]) + h[(k + 1) % 4]) * 5 + add[k];
        }
    uint8_t t[16] = {0};
    if (n > i) memcpy(t, p + i, n - i);
    for (int k = 0; k < 4; ++k) if (n - i > (size_t)(4 * k)) h[k] ^= rol(le32(t + 4 * k) * c[k], r1[k]) * c[(k + 1) % 4];
    for (int k = 0; k < 4; ++k) h[k] ^= (uint32_t)n;
    for (int k = 1; k < 4; ++k) h[0] += h[k];
    for (int k = 1; k < 4; ++k) h[k] += h[0];
    for (int k = 0; k < 4; ++k) h[k] = mix32(h[k]);
    for (int k = 1; k < 4; ++k) h[0] += h[k];
    for (int k = 1; k < 4; ++k) h[k] += h[0];
    memcpy(out, h, 16);
}

static void hashes(uint64_t seed, size_t runs) {
    Rng r(seed);
    st().context = "murmur";
    size_t pg = sysconf(_SC_PAGESIZE);
    for (size_t i = 0; i < runs; ++i) {
        size_t n = i < 200 ? i : (r.chance(90) ? r(300) : r(20000));
        // an exact heap buffer, at any alignment: reading beyond either end is caught
        size_t mis = r(8);
        std::unique_ptr<uint8_t[]> buf(new uint8_t[n + mis]);
        uint8_t* p = buf.get() + mis;
        for (size_t j = 0; j < n; ++j) p[j] = r.chance(20) ? 0 : (r.chance(20) ? 0xff : (uint8_t)r.next());
        uint32_t sd = r.chance(50) ? 0 : (uint32_t)r.next(), o32 = 0, e128[4], o128[4];
        uint64_t e64[2], o64[2];
        MurmurHash3_x86_32(p, (int)n, sd, &o32);
        CHECK_KEY(o32 == ref32(p, n, sd), "hash:x86_32", "32-bit hash of %zu bytes", n);
        MurmurHash3_x64_128(p, (int)n, sd, o64);
        ref64(p, n, sd, e64);
        CHECK_KEY(!memcmp(o64, e64, 16), "hash:x64_128", "x64 128-bit hash of %zu bytes", n);
        MurmurHash3_x86_128(p, (int)n, sd, o128);
        ref128x86(p, n, sd, e128);
        CHECK_KEY(!memcmp(o128, e128, 16), "hash:x86_128", "x86 128-bit hash of %zu bytes", n);
        SizedBuf k(n, p);
        ref64(p, n, 0, e64);
        size_t lim = 1 + r(64);
        CHECK_KEY(get_murmur_hash_32(k) == ref32(p, n, 0), "hash:helper", "get_murmur_hash_32");
        CHECK_KEY(get_murmur_hash(k, lim) == ref32(p, n, 0) % lim, "hash:helper", "get_murmur_hash");
        CHECK_KEY(get_murmur_hash_64(k) == e64[0], "hash:helper", "get_murmur_hash_64");
        // custom hash length
        DBConfig c;
        size_t want = r(n + 3), used = want == 0 || want > n ? n : want;
        bool partial = r.chance(50), gotPartial = !partial, custom = false;
        if (r.chance(70)) c.customLenForHash = [&](const HashKeyLenParams& hp) { gotPartial = hp.isPartialKey; return want; };
        else { used = n; gotPartial = partial; }
        SizedBuf d = get_data_to_hash(&c, k, partial, &custom);
        CHECK_KEY(d.size == used && d.data == p && gotPartial == partial, "hash:prefix", "hashed %u bytes of %zu, expected %zu", d.size, n, used);
        uint64_t pr[2];
        bool cu = get_hash_pair(&c, k, partial, pr);
        ref64(p, used, 0, e64);
        CHECK_KEY(!memcmp(pr, e64, 16), "hash:pair", "hash pair over %zu of %zu bytes", used, n);
        CHECK_KEY(cu == ((bool)c.customLenForHash && want != 0 && want <= n), "hash:pair", "custom-hash flag");
        seen(e64[0]);
        count("hashes", 3);
    }
    (void)pg;
    // Spread: keys go to every partition about evenly.
    size_t parts = 2 + r(8), N = 20000;
    std::vector<size_t> c(parts, 0);
    for (size_t i = 0; i < N; ++i) { std::string s = fmt("k%08zu", i); c[get_murmur_hash(SizedBuf(s), parts)]++; }
    for (size_t x : c) CHECK_KEY(x > N / parts * 85 / 100 && x < N / parts * 115 / 100, "hash:spread", "%zu of %zu keys in one of %zu partitions", x, N, parts);
}

static void helpers(uint64_t seed) {
    Rng r(seed);
    st().context = "helpers";
    auto prime = [](size_t v) { if (v < 2) return false; for (size_t d = 2; d * d <= v; ++d) if (v % d == 0) return false; return true; };
    for (size_t v = 0; v < 1200; ++v) {
        size_t e = std::min<size_t>(v, 997);
        while (!prime(e)) e++;
        CHECK_KEY(PrimeNumber::getUpper(v) == e, "util:prime", "getUpper(%zu) = %zu, expected %zu", v, PrimeNumber::getUpper(v), e);
    }
    for (int i = 0; i < 500; ++i) {
        size_t n = r(40);
        std::string s, hx, HX;
        for (size_t j = 0; j < n; ++j) s += (char)r.next();
        for (unsigned char c : s) { hx += fmt("%02x", c); HX += fmt("%02X", c); }
        SizedBuf b = HexDump::hexStr2bin(r.chance(50) ? hx : HX);
        CHECK_KEY(b.size == n && !memcmp(b.data ? b.data : (void*)"", s.data(), n), "util:hex", "hexStr2bin(%s)", hx.c_str());
        b.free();
        std::string bad = hx;
        if (n) {
            if (r.chance(50)) bad.pop_back();
            else bad[r(bad.size())] = "gG-:/@`x \n"[r(10)];
            SizedBuf x = HexDump::hexStr2bin(bad);
            CHECK_KEY(x.empty(), "util:hex", "hexStr2bin accepted %s", bad.c_str());
            x.free();
        }
        // the dump shows every byte
        std::string d = HexDump::toString(s);
        size_t bytes = 0;
        CHECK_KEY(n == 0 || !d.empty(), "util:dump", "empty dump");
        for (size_t p = 0; p + 2 < d.size(); ++p) if (isxdigit(d[p]) && isxdigit(d[p + 1]) && d[p + 2] == ' ' && p && d[p - 1] == ' ') bytes++;
        CHECK_KEY(bytes >= n, "util:dump", "dump of %zu bytes shows %zu", n, bytes);
        size_t lim = 1 + r(50);
        std::string rs = HexDump::rStr(s, lim), er;
        for (size_t j = 0; j < std::min(n, lim); ++j) er += (s[j] >= 0x20 && s[j] <= 0x7d) ? s[j] : '.';
        er += fmt(" (%zu)", n);
        CHECK_KEY(rs == er, "util:rstr", "rStr");

        std::string t;
        for (size_t j = 0; j < n; ++j) t += "ab, \t"[r(5)];
        std::string bef = r.chance(50) ? "a" : (r.chance(50) ? "ab" : ","), aft = r.chance(50) ? "" : "aab";
        std::string e;
        for (size_t p = 0; p < t.size();) { if (!t.compare(p, bef.size(), bef)) { e += aft; p += bef.size(); } else e += t[p++]; }
        CHECK_KEY(StrHelper::replace(t, bef, aft) == e, "util:replace", "replace(%s)", t.c_str());
        std::vector<std::string> tk = StrHelper::tokenize(t, bef);
        std::string joined;
        for (auto& x : tk) { CHECK_KEY(x.find(bef) == std::string::npos, "util:tokenize", "token contains the delimiter"); joined += x + bef; }
        CHECK_KEY(joined == t || joined == t + bef, "util:tokenize", "tokens of %s", t.c_str());
        std::string tr = StrHelper::trim(t);
        size_t p1 = 0, p2 = t.size();
        while (p1 < p2 && strchr(" \t\n", t[p1])) p1++;
        while (p2 > p1 && strchr(" \t\n", t[p2 - 1])) p2--;
        CHECK_KEY(tr == t.substr(p1, p2 - p1), "util:trim", "trim(%s)", t.c_str());

        // sizes, times and counts print a value that is right to the printed precision
        uint64_t v = r.next() >> r(64);
        double got = 0;
        char unit[16] = "";
        sscanf(Formatter::sizeToString(v, 3).c_str(), "%lf %15s", &got, unit);
        double mul = !strcmp(unit, "B") ? 1 : !strcmp(unit, "KiB") ? 1024 : !strcmp(unit, "MiB") ? 1048576 : !strcmp(unit, "GiB") ? 1073741824 : 0;
        CHECK_KEY(mul && std::fabs(got * mul - v) <= 0.00051 * mul + v * 1e-12 && (mul == 1073741824 || got < 1024.001), "util:format", "sizeToString(%llu)", (unsigned long long)v);
        unit[0] = 0;
        sscanf(Formatter::usToString(v, 3).c_str(), "%lf %15s", &got, unit);
        mul = !strcmp(unit, "us") ? 1 : !strcmp(unit, "ms") ? 1e3 : !strcmp(unit, "s") ? 1e6 : !strcmp(unit, "m") ? 6e7 : 0;
        CHECK_KEY(mul && std::fabs(got * mul - v) <= (mul == 6e7 ? 0.51 : 0.00051) * mul + v * 1e-12, "util:format", "usToString(%llu)", (unsigned long long)v);
        unit[0] = 0;
        sscanf(Formatter::countToString(v, 3).c_str(), "%lf%15s", &got, unit);
        mul = !unit[0] ? 1 : unit[0] == 'K' ? 1e3 : unit[0] == 'M' ? 1e6 : unit[0] == 'B' ? 1e9 : 0;
        CHECK_KEY(mul && std::fabs(got * mul - v) <= 0.00051 * mul + v * 1e-12, "util:format", "countToString(%llu)", (unsigned long long)v);
        count("helper_cases", 8);
    }
    // weighted choice never picks weight zero, picks the others about as often as their weights say
    for (int i = 0; i < 10; ++i) {
        std::vector<size_t> w(1 + r(6)), c(6, 0);
        size_t sum = 0;
        for (auto& x : w) sum += (x = r.chance(30) ? 0 : r(100));
        if (!sum) continue;
        for (int j = 0; j < 20000; ++j) c[RndGen::fromProbDist(w)]++;
        for (size_t k = 0; k < w.size(); ++k) {
            double e = 20000.0 * w[k] / sum;
            CHECK_KEY(w[k] ? std::fabs(c[k] - e) < 60 + e * 0.25 : c[k] == 0, "util:choice", "weight %zu of %zu chosen %zu times", w[k], sum, c[k]);
        }
        count("helper_cases");
    }
    // directory helpers
    std::string dir = st().scratch + "/fm";
    mkdirs(dir + "/sub");
    uint64_t total = 0, deep = 0;
    std::set<std::string> names = {".", "..", "sub"};
    size_t nf = r(12);
    for (size_t i = 0; i < nf; ++i) {
        size_t n = r(5000);
        bool sub = r.chance(30);
        std::string nm = fmt("f%zu", i), p = dir + (sub ? "/sub/" : "/") + nm;
        FILE* f = fopen(p.c_str(), "wb");
        std::string data(n, 'z');
        fwrite(data.data(), 1, n, f);
        fclose(f);
        (sub ? deep : total) += n;
        if (!sub) names.insert(nm);
        CHECK_KEY(FileMgr::exist(p) && FileMgr::fileSize(p) == n && FileMgr::filePart(p) == nm, "util:files", "file helpers on %s", p.c_str());
    }
    std::vector<std::string> got;
    FileMgr::scan(dir, got);
    CHECK_KEY(std::set<std::string>(got.begin(), got.end()) == names && got.size() == names.size(), "util:files", "scan found %zu entries of %zu", got.size(), names.size());
    CHECK_KEY(FileMgr::dirSize(dir) == total && FileMgr::dirSize(dir, true) == total + deep, "util:files", "dirSize");
    CHECK_KEY(!FileMgr::exist(dir + "/none") && FileMgr::fileSize(dir + "/none") == 0 && FileMgr::remove(dir + "/none") == 0, "util:files", "missing file");
    FILE* f = fopen((dir + "/x").c_str(), "wb");
    fclose(f);
    CHECK_KEY(FileMgr::remove(dir + "/x") == 0 && !FileMgr::exist(dir + "/x"), "util:files", "remove");
    CHECK_KEY(FileMgr::mkdir(dir + "/d2") == 0 && FileMgr::exist(dir + "/d2"), "util:files", "mkdir");
    CHECK_KEY(FileMgr::filePart("abc") == "abc" && FileMgr::filePart("a/b/") == "", "util:files", "filePart");
    rmtree(dir);
    // memory encoding helpers agree with the big-endian definition
    for (int i = 0; i < 200; ++i) {
        uint8_t m[64] = {0};
        uint64_t off = 0, st0 = r(8), v64 = r.next();
        append_mem_64(m, v64, st0, off);
        append_mem_32(m, (uint32_t)v64, st0, off);
        append_mem_16(m, (uint16_t)v64, st0, off);
        append_mem_8(m, (uint8_t)v64, st0, off);
        bool ok = off == 15;
        size_t q = st0;
        for (int w : {8, 4, 2, 1}) for (int b = w - 1; b >= 0; --b) ok = ok && m[q++] == (uint8_t)(v64 >> (8 * b));
        uint64_t a = 0; uint32_t b = 0; uint16_t c = 0; uint8_t d = 0;
        off = 0;
        read_mem_64(m, a, st0, off); read_mem_32(m, b, st0, off); read_mem_16(m, c, st0, off); read_mem_8(m, d, st0, off);
        CHECK_KEY(ok && off == 15 && a == v64 && b == (uint32_t)v64 && c == (uint16_t)v64 && d == (uint8_t)v64, "util:mem", "memory encoding of %llx", (unsigned long long)v64);
        count("helper_cases");
    }
    // several threads asking one rate-limited printer: suppressed ones are all accounted for
    VerboseLog vl(1);
    std::atomic<long> asked(0), printed(0), reported(0);
    parallel(4, [&](size_t) {
        for (int i = 0; i < 3000; ++i) {
            int sup = 0;
            asked++;
            if (vl.checkPrint(sup)) { printed++; reported += sup; }
            if (i % 500 == 0) usleep(300);
        }
    });
    long left = vl.numSuppressed.load();
    CHECK_KEY(asked == printed + reported + left, "util:verbose", "asked %ld = printed %ld + reported %ld + pending %ld", asked.load(), printed.load(), reported.load(), left);
    CHECK_KEY(printed >= 1, "util:verbose", "nothing printed");
}

int main(int argc, char** argv) {
    init(argc, argv);
    hashes(st().seed, argn("runs", 4000));
    for (uint64_t i = 0; i < argn("reps", 4); ++i) helpers(st().seed * 1000 + i);
    count("runs");
    sample("hashes of 0..20000 bytes against a byte-wise reference");
    return finish();
}
