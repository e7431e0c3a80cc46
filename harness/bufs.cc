// SRCS: internal_helper.cc fileops_posix.cc murmurhash3.cc
// Buffers, pairs and records: ordering laws, independence of copies, single ownership under
// random programs of copy, move, assign, clone and free (leaks and double frees by sanitizer).
#include "common.h"
#include <libjungle/jungle.h>
using namespace hx;
using namespace jungle;

static std::string rnd(Rng& r) {
    size_t n = r.chance(15) ? 0 : r.chance(70) ? r.range(1, 5) : r.range(5, 70);
    std::string s(n, 0);
    for (auto& c : s) c = r.chance(50) ? "\0\x01\x7f\x80\xff""ab"[r(7)] : (char)r(256);
    return s;
}
static int sg(int x) { return x < 0 ? -1 : x > 0; }
static int sgs(const std::string& a, const std::string& b) { return a < b ? -1 : a > b ? 1 : 0; }   // unsigned bytes

static void order(Rng& r) {
    std::string a = rnd(r), b = r.chance(40) ? a : rnd(r);
    if (r.chance(30)) b = a + rnd(r);
    if (r.chance(20) && !b.empty()) b[r(b.size())] ^= 1 << r(8);
    // exactly sized, so that reading past the end is seen
    std::unique_ptr<char[]> pa(new char[a.size()]), pb(new char[b.size()]);
    memcpy(pa.get(), a.data(), a.size());
    memcpy(pb.get(), b.data(), b.size());
    SizedBuf x(a.size(), a.empty() && r.chance(50) ? nullptr : pa.get()), y(b.size(), b.empty() && r.chance(50) ? nullptr : pb.get());
    int e = sgs(a, b);
    std::string pr = printable(a) + " vs " + printable(b);
    CHECK_KEY(sg(SizedBuf::cmp(x, y)) == e, "buf:cmp", "cmp %s", pr.c_str());
    CHECK_KEY((x < y) == (e < 0), "buf:lt", "< %s", pr.c_str());
    CHECK_KEY((x <= y) == (e <= 0), "buf:le", "<= %s", pr.c_str());
    CHECK_KEY((x > y) == (e > 0), "buf:gt", "> %s", pr.c_str());
    CHECK_KEY((x >= y) == (e >= 0), "buf:ge", ">= %s", pr.c_str());
    CHECK_KEY((x == y) == (e == 0), "buf:eq", "== %s", pr.c_str());
    CHECK_KEY((x != y) == (e != 0), "buf:ne", "!= %s", pr.c_str());
    CHECK_KEY(x.empty() == a.empty() && x.toString() == a, "buf:content", "%s", pr.c_str());
    std::string rs = x.toReadableString();
    CHECK_KEY(a.empty() ? rs == "(empty)" : rs.compare(0, 1, "(") == 0, "buf:readable", "%s", pr.c_str());
    Record ra, rb;
    ra.kv.key = x; rb.kv.key = y;
    CHECK_KEY(Record::Less()(&ra, &rb) == (e < 0), "rec:less", "Less %s", pr.c_str());
    count("comparisons");
    seen(hash64(a, hash64(b)));
}
// A pool of records and what each must contain; each allocated buffer has exactly one owner.
struct Slot { Record rec; std::string k, v, m; uint64_t seq = Record::NIL_SEQNUM; int type = 0; bool live = false; };
static void verify(Slot& s, const char* what) {
    CHECK_KEY(s.rec.kv.key.toString() == s.k && s.rec.kv.value.toString() == s.v && s.rec.meta.toString() == s.m, "rec:content",
              "%s: a record holds %s=%s, expected %s=%s", what, printable(s.rec.kv.key.toString()).c_str(), printable(s.rec.kv.value.toString()).c_str(),
              printable(s.k).c_str(), printable(s.v).c_str());
    CHECK_KEY(s.rec.seqNum == s.seq && (int)s.rec.type == s.type, "rec:fields", "%s: sequence number or type changed", what);
    CHECK_KEY(s.rec.size() == s.k.size() + s.v.size() + s.m.size(), "rec:size", "%s: size %zu", what, s.rec.size());
    CHECK_KEY(s.rec.empty() == (s.k.empty() && s.v.empty()), "rec:empty", "%s", what);
    CHECK_KEY(s.rec.isIns() + s.rec.isDel() + s.rec.isCmd() == 1 && s.rec.isDel() == (s.type == 1), "rec:type", "%s", what);
    count("record_checks");
}
static void reset(Slot& s) { s.rec.free(); s.rec.clear(); s.k = s.v = s.m = ""; s.seq = Record::NIL_SEQNUM; s.type = 0; }
static void ownership(uint64_t seed) {
    Rng r(seed);
    st().context = fmt("records seed=%llu", (unsigned long long)seed);
    std::vector<Slot> p(4);
    std::string hist;
    for (int i = 0; i < 60; ++i) {
        size_t a = r(p.size()), b = r(p.size());
        unsigned op = r(9);
        hist += (char)('0' + op);
        Slot &x = p[a], &y = p[b];
        switch (op) {
        case 0: case 1: {
            reset(x);
            x.k = rnd(r); x.v = rnd(r); x.m = rnd(r); x.seq = r(1000); x.type = r(3);
            if (r.chance(50)) x.rec.kv.alloc(x.k, x.v);
            else x.rec.kv.alloc(SizedBuf(x.k), SizedBuf(x.v));
            x.rec.meta.alloc(x.m);
            x.rec.seqNum = x.seq;
            x.rec.type = (Record::Type)x.type;
            break;
        }
        case 2:
            if (a == b) break;
            reset(y);
            x.rec.copyTo(y.rec);
            y.k = x.k; y.v = x.v; y.m = x.m; y.seq = x.seq; y.type = x.type;
            // the copy is independent
            for (uint32_t q = 0; q < y.rec.kv.value.size; ++q) y.rec.kv.value.data[q] ^= 0x55;
            for (auto& c : y.v) c ^= 0x55;
            break;
        case 3:
            if (a == b) break;
            reset(y);
            x.rec.moveTo(y.rec);
            y.k = x.k; y.v = x.v; y.m = x.m; y.seq = x.seq; y.type = x.type;
            x.k = x.v = x.m = ""; x.seq = Record::NIL_SEQNUM; x.type = 0;
            break;
        case 4: {
            if (a == b) break;
            bool occupied = y.rec.kv.key.data || y.rec.kv.value.data;
            if (!occupied) reset(y);
            Status s = y.rec.clone(x.rec);
            CHECK_KEY(s.ok() == !occupied, "rec:clone", "clone into %s record returned %d", occupied ? "an occupied" : "an empty", (int)s);
            if (s) { y.k = x.k; y.v = x.v; y.m = x.m; y.seq = x.seq; y.type = x.type; }
            break;
        }
        case 5: {   // a reference: freeing it must leave the original alone
            SizedBuf ref;
            ref.referTo(x.rec.kv.value);
            CHECK_KEY(ref == x.rec.kv.value, "buf:refer", "a reference differs from its source");
            CHECK_KEY(!ref.free(), "buf:refer-free", "freeing a reference freed memory");
            KV kv(x.k, x.v);
            kv.free();
            KV k2(kv);
            CHECK_KEY(k2.key.toString() == x.k && k2.size() == x.k.size() + x.v.size(), "kv:ref", "KV reference differs");
            break;
        }
        case 6: {   // grow and shrink an owned buffer
            if (!x.rec.kv.value.size) break;
            size_t n = r.chance(25) ? 0 : r(100);
            x.rec.kv.value.resize(n);
            CHECK_KEY(x.rec.kv.value.size == n, "buf:resize", "size %u after resize(%zu)", x.rec.kv.value.size, n);
            size_t old = x.v.size();
            x.v.resize(n);
            for (size_t q = old; q < n; ++q) { x.v[q] = (char)q; x.rec.kv.value.data[q] = (uint8_t)q; }
            break;
        }
        case 7: {   // move a plain buffer around
            SizedBuf t, u(r(30));
            CHECK_KEY(u.toString() == std::string(u.size, 0), "buf:zero", "a buffer allocated by size is not zeroed");
            u.moveTo(t);
            CHECK_KEY(u.empty() && !u.data && !u.free(), "buf:move", "the source of a move still owns memory");
            { SizedBuf::Holder h(t); }
            CHECK_KEY(t.empty() && !t.data && !t.free(), "buf:free", "a freed buffer still refers to memory");
            SizedBuf d;
            d.set(5, new uint8_t[5]);
            d.setNeedToDelete();
            CHECK_KEY(d.free(), "buf:free", "free of an owned buffer reported nothing freed");
            SizedBuf big;
            big.alloc(x.k);
            SizedBuf cp;
            big.copyTo(cp);
            CHECK_KEY(cp == big && (big.empty() || cp.data != big.data), "buf:copy", "copyTo did not clone");
            big.resize(r(5));   // the owner of a released buffer must stay usable
            CHECK_KEY(cp.toString() == x.k, "buf:copy", "changing the source changed the copy");
            big.free(); cp.free();
            break;
        }
        case 8: reset(x); break;
        }
        verify(x, "after an operation");
        if (a != b) verify(y, "after an operation");
    }
    for (auto& x : p) { verify(x, "at the end"); Record::Holder h(x.rec); }
    for (auto& x : p) CHECK_KEY(x.rec.kv.key.empty() && x.rec.kv.value.empty() && x.rec.meta.empty(), "rec:free", "a record still holds data after free");
    seen(hash64(hist));
    count("programs");
}
int main(int argc, char** argv) {
    init(argc, argv);
    uint64_t n = argn("runs", 3000);
    Rng r(st().seed);
    for (uint64_t i = 0; i < n * 10; ++i) order(r);
    // transitivity over a random pool is implied by equality with the reference order, checked above
    for (uint64_t i = 0; i < n; ++i) ownership(st().seed * 1000003 + i);
    sample(fmt("%llu ordered pairs against unsigned lexicographic order, %llu programs of 60 ownership operations over 4 records", (unsigned long long)n * 10, (unsigned long long)n));
    return finish();
}
