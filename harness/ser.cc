// SRCS: internal_helper.cc fileops_posix.cc murmurhash3.cc
// Binary encoding of metadata (serializer): what was put comes back, in every mode; fixed
// big-endian layout; reads of truncated or arbitrary bytes stay inside the buffer, report an
// error, and never disturb later reads.
#include "common.h"
#include "fsx.h"
#include "fileops_posix.h"
#include "internal_helper.h"
using namespace hx;
using namespace jungle;

struct Item { int kind; uint64_t v; std::string s; };
static Item makeItem(Rng& r) {
    Item it;
    it.kind = r(6);
    uint64_t v = r.chance(20) ? ~0ull : r.chance(20) ? 1ull << r(64) : r.next();
    it.v = it.kind == 0 ? v : it.kind == 1 ? (uint32_t)v : it.kind == 2 ? (uint16_t)v : (uint8_t)v;
    if (it.kind >= 4) {
        size_t n = r.chance(20) ? 0 : r.chance(85) ? r.range(1, 60) : r.range(60, 900);
        it.s.resize(n);
        for (auto& c : it.s) c = (char)r(256);
        if (it.kind == 5 && it.s.empty()) it.s = "x";
    }
    return it;
}
static void be(std::string& o, uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) o += (char)(v >> (8 * i)); }
static std::string layout(const std::vector<Item>& is) {
    std::string o;
    for (auto& i : is) {
        if (i.kind == 0) be(o, i.v, 8);
        else if (i.kind == 1) be(o, i.v, 4);
        else if (i.kind == 2) be(o, i.v, 2);
        else if (i.kind == 3) be(o, i.v, 1);
        else if (i.kind == 4) { be(o, i.s.size(), 4); o += i.s; }
        else o += i.s;
    }
    return o;
}
static Status put(RwSerializer& w, const Item& i) {
    switch (i.kind) {
    case 0: return w.putU64(i.v);
    case 1: return w.putU32(i.v);
    case 2: return w.putU16(i.v);
    case 3: return w.putU8(i.v);
    case 4: return w.putSb(SizedBuf(i.s));
    default: return w.put(i.s.data(), i.s.size());
    }
}
// Reads one item; returns false when the serializer reported an error.
static bool get(RwSerializer& w, const Item& i, Rng& r, bool mem, bool dflt, const char* mode) {
    Status s;
    uint64_t v = 0;
    size_t before = w.pos();
    switch (i.kind) {
    case 0: v = dflt ? w.getU64() : w.getU64(s); break;
    case 1: v = dflt ? w.getU32() : w.getU32(s); break;
    case 2: v = dflt ? w.getU16() : w.getU16(s); break;
    case 3: v = dflt ? w.getU8() : w.getU8(s); break;
    case 4: {
        SizedBuf b;
        s = w.getSb(b, !mem || r.chance(60));
        if (s && b.toString() != i.s) viol("ser:blob", fmt("%s: a %zu-byte blob came back as %u other bytes", mode, i.s.size(), b.size));
        b.free();
        break;
    }
    default: {
        std::string b(i.s.size(), 0);
        s = w.get(&b[0], b.size());
        if (s && b != i.s) viol("ser:bytes", fmt("%s: %zu raw bytes came back changed", mode, b.size()));
    }
    }
    if (i.kind < 4 && s && v != i.v) viol("ser:integer", fmt("%s: %llx of kind %d came back as %llx at offset %zu%s", mode, (unsigned long long)i.v, i.kind,
                                                            (unsigned long long)v, before, dflt ? " (status not asked for)" : ""));
    count("gets");
    return !!s;
}
static void roundTrip(uint64_t seed) {
    Rng r(seed);
    st().context = fmt("serializer seed=%llu", (unsigned long long)seed);
    std::vector<Item> is;
    size_t n = r.range(1, 40);
    for (size_t i = 0; i < n; ++i) is.push_back(makeItem(r));
    std::string ref = layout(is);
    seen(hash64(ref));
    // 1. fixed buffer of exactly the right size
    {
        std::unique_ptr<uint8_t[]> buf(new uint8_t[ref.size()]);
        RwSerializer w(buf.get(), ref.size());
        for (auto& i : is) CHECK_KEY(put(w, i).ok(), "ser:put", "put into a buffer with room failed");
        CHECK_KEY(w.pos() == ref.size(), "ser:pos", "position %zu after writing %zu bytes", w.pos(), ref.size());
        CHECK_KEY(!memcmp(buf.get(), ref.data(), ref.size()), "ser:layout", "the bytes written differ from the big-endian layout");
        RwSerializer g(SizedBuf(ref.size(), buf.get()));
        for (auto& i : is) if (!get(g, i, r, true, r.chance(50), "memory")) viol("ser:get", "a read inside the buffer failed");
        CHECK_KEY(g.pos() == ref.size() && !g.available(1) && g.available(0), "ser:available", "position or availability wrong at the end");
    }
    // 2. growing buffer
    {
        SizedBuf b;
        if (r.chance(70)) b.alloc(r.range(1, 40));
        RwSerializer w(&b);
        for (auto& i : is) CHECK_KEY(put(w, i).ok(), "ser:put", "put into a growing buffer failed");
        CHECK_KEY(w.pos() == ref.size() && b.size >= ref.size() && w.size() >= ref.size(), "ser:pos", "growing buffer: position %zu size %u, wrote %zu", w.pos(), b.size, ref.size());
        CHECK_KEY(!memcmp(b.data, ref.data(), ref.size()), "ser:layout", "growing buffer: the bytes differ from the layout");
        w.pos(0);
        for (auto& i : is) if (!get(w, i, r, true, false, "growing")) viol("ser:get", "a read inside the growing buffer failed");
        b.free();
    }
    // 3. file, by position or by appending
    if (r.chance(40)) {
        bool app = r.chance(50);
        FileOpsPosix pops;
        FileOps& ops = pops;
        std::string fn = st().scratch + "/ser.bin";
        ::unlink(fn.c_str());
        FileHandle* h = nullptr;
        ops.open(&h, fn);
        RwSerializer w(&ops, h, app);
        for (auto& i : is) CHECK_KEY(put(w, i).ok(), "ser:put", "put into a file failed");
        CHECK_KEY((size_t)ops.eof(h) == ref.size(), "ser:layout", "file of %lld bytes, expected %zu", (long long)ops.eof(h), ref.size());
        std::string got(ref.size(), 0);
        ops.pread(h, &got[0], got.size(), 0);
        CHECK_KEY(got == ref, "ser:layout", "file (%s): the bytes differ from the layout", app ? "append" : "position");
        RwSerializer g(&ops, h, false);
        CHECK_KEY(g.size() == ref.size(), "ser:size", "size of a file serializer is %zu, expected %zu", g.size(), ref.size());
        for (auto& i : is) if (!get(g, i, r, false, false, "file")) viol("ser:get", "a read inside the file failed");
        // beyond the end
        Status s;
        g.getU32(s);
        CHECK_KEY(!s.ok(), "ser:beyond", "a read beyond the end of the file reported no error");
        count("file_runs");
        ops.close(h);
        delete h;
    }
    // 4. truncated at every kind of place: never a wrong value without an error, never beyond the end
    for (int k = 0; k < 4; ++k) {
        size_t cut = r(ref.size());
        std::unique_ptr<uint8_t[]> buf(new uint8_t[cut ? cut : 1]);
        memcpy(buf.get(), ref.data(), cut);
        bool dflt = r.chance(30);
        if (cut) {
            RwSerializer g(buf.get(), cut);
            size_t end = 0;
            for (auto& i : is) {
                end += layout({i}).size();
                bool fits = end <= cut;
                if (!fits && dflt) {   // the status is not asked for: must not disturb what comes later
                    Status ignored;
                    if (i.kind == 0) g.getU64(); else if (i.kind == 1) g.getU32(); else if (i.kind == 2) g.getU16(); else if (i.kind == 3) g.getU8();
                    break;
                }
                bool ok = fits ? get(g, i, r, true, dflt, "truncated") : false;
                if (!fits) {
                    Status s;
                    SizedBuf b;
                    bool cl = r.chance(50);
                    if (i.kind == 0) g.getU64(s); else if (i.kind == 1) g.getU32(s); else if (i.kind == 2) g.getU16(s); else if (i.kind == 3) g.getU8(s);
                    else if (i.kind == 4) {
                        s = g.getSb(b, cl);
                        if (s) { volatile uint8_t x = 0; for (uint32_t q = 0; q < b.size; ++q) x += b.data[q]; }
                        b.free();
                    } else { std::string t(i.s.size(), 0); s = g.get(&t[0], t.size()); }
                    CHECK_KEY(!s.ok(), "ser:truncated", "reading kind %d across the end of the buffer reported no error", i.kind);
                    CHECK_KEY(g.pos() <= cut, "ser:truncated-pos", "position %zu beyond a buffer of %zu", g.pos(), cut);
                    count("truncated_reads");
                    break;
                }
                if (!ok) { viol("ser:get", "a read inside a truncated buffer failed"); break; }
            }
        }
        // a later reader is unaffected
        uint8_t two[6];
        RwSerializer w2(two, 6);
        w2.putU16(0x0102); w2.putU32(0x03040506);
        RwSerializer g2(two, 6);
        uint64_t a = g2.getU16(), c = g2.getU32();
        CHECK_KEY(a == 0x0102 && c == 0x03040506, "ser:sticky-error", "after an unrelated failed read, a fresh reader returned %llx and %llx for 102 and 3040506",
                  (unsigned long long)a, (unsigned long long)c);
    }
    // 5. arbitrary bytes read as blobs
    {
        size_t m = r.range(1, 64);
        std::unique_ptr<uint8_t[]> buf(new uint8_t[m]);
        for (size_t i = 0; i < m; ++i) buf[i] = r.chance(60) ? 0 : (uint8_t)r(256);
        RwSerializer g(buf.get(), m);
        for (int k = 0; k < 20; ++k) {
            SizedBuf b;
            Status s = g.getSb(b, r.chance(70));
            if (!s) break;
            CHECK_KEY(b.size <= m, "ser:arbitrary", "a blob of %u bytes out of a %zu-byte buffer", b.size, m);
            volatile uint8_t x = 0;
            for (uint32_t q = 0; q < b.size; ++q) x += b.data[q];
            b.free();
            CHECK_KEY(g.pos() <= m, "ser:arbitrary", "position %zu beyond a buffer of %zu", g.pos(), m);
        }
        count("arbitrary_reads");
    }
    count("streams");
}
static void memHelpers(Rng& r) {
    uint8_t b[64];
    uint64_t off = 0, start = r(8);
    uint64_t v = r.next();
    append_mem_64(b, v, start, off); append_mem_32(b, (uint32_t)v, start, off); append_mem_16(b, (uint16_t)v, start, off);
    append_mem_8(b, (uint8_t)v, start, off); append_mem(b, "abc", 3, start, off);
    CHECK_KEY(off == 18, "ser:offset", "offset %llu after 18 bytes", (unsigned long long)off);
    std::string e;
    be(e, v, 8); be(e, (uint32_t)v, 4); be(e, (uint16_t)v, 2); be(e, (uint8_t)v, 1); e += "abc";
    CHECK_KEY(!memcmp(b + start, e.data(), e.size()), "ser:layout", "append_mem wrote other bytes");
    uint64_t a; uint32_t c; uint16_t d; uint8_t f; char g[3];
    off = 0;
    read_mem_64(b, a, start, off); read_mem_32(b, c, start, off); read_mem_16(b, d, start, off); read_mem_8(b, f, start, off); read_mem(b, g, 3, start, off);
    CHECK_KEY(a == v && c == (uint32_t)v && d == (uint16_t)v && f == (uint8_t)v && !memcmp(g, "abc", 3) && off == 18, "ser:integer", "read_mem returned other values");
    // hex strings
    size_t n = r.range(1, 30);
    std::string raw(n, 0), hex;
    for (auto& ch : raw) { ch = (char)r(256); hex += fmt(r.chance(50) ? "%02x" : "%02X", (unsigned char)ch); }
    SizedBuf hb = HexDump::hexStr2bin(hex);
    CHECK_KEY(hb.toString() == raw, "ser:hex", "hex string %s decoded wrongly", hex.c_str());
    hb.free();
    std::string bad = hex;
    bad[r(bad.size())] = "gG !/:@`"[r(8)];
    SizedBuf h2 = HexDump::hexStr2bin(bad);
    CHECK_KEY(h2.empty(), "ser:hex", "invalid hex string accepted");
    h2.free();
    count("memory_helpers");
}
int main(int argc, char** argv) {
    init(argc, argv);
    fsx::maxSleepUs(20);
    uint64_t n = argn("runs", 1500);
    for (uint64_t i = 0; i < n; ++i) roundTrip(st().seed * 1000003 + i);
    Rng r(st().seed);
    for (uint64_t i = 0; i < n; ++i) memHelpers(r);
    sample(fmt("%llu random sequences of 1..40 integers, blobs and raw bytes through memory, growing buffer, file; cut at random offsets", (unsigned long long)n));
    return finish();
}
