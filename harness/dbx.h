// Shared by the database harnesses: a multi-version reference model, random configurations, random
// operations, and monitors that compare what the database answers with the model.
#pragma once
#include "common.h"
#include "fsx.h"
#include <libjungle/jungle.h>
#include <libjungle/iterator.h>
#include <libjungle/global_batch.h>

namespace dbx {
using namespace hx;
using jungle::DB;
using jungle::DBConfig;
using jungle::Iterator;
using jungle::KV;
using jungle::Record;
using jungle::SizedBuf;
using jungle::Status;
using jungle::SearchOptions;

inline SizedBuf SB(const std::string& s) { return SizedBuf(s.size(), (void*)s.data()); }
inline std::string str(const SizedBuf& b) { return std::string((const char*)b.data, b.size); }
inline std::string stname(Status s) { return s.toString(); }

// ---- key orders -------------------------------------------------------------
enum CmpKind { BYTES, REVERSE, LENGTH };
inline int cmpBytes(const void* a, size_t al, const void* b, size_t bl) {
    int c = memcmp(a, b, std::min(al, bl));
    if (c) return c;
    return al < bl ? -1 : al > bl ? 1 : 0;
}
inline int cmpReverse(void* a, size_t al, void* b, size_t bl, void*) { return cmpBytes(b, bl, a, al); }
inline int cmpLength(void* a, size_t al, void* b, size_t bl, void*) {
    if (al != bl) return al < bl ? -1 : 1;
    return memcmp(a, b, al);
}
struct Less {
    CmpKind k = BYTES;
    bool operator()(const std::string& a, const std::string& b) const {
        if (k == REVERSE) return b < a;
        if (k == LENGTH && a.size() != b.size()) return a.size() < b.size();
        return a < b;
    }
};

// ---- model ------------------------------------------------------------------
struct MRec {
    uint64_t seq;
    std::string key, val, meta;
    bool del;
};
struct Model {
    typedef std::map<std::string, std::vector<MRec>, Less> Map;
    Map m;
    std::map<uint64_t, std::string> bySeq;
    uint64_t maxSeq = 0;
    explicit Model(CmpKind k = BYTES) : m(Less{k}) {}
    void put(const MRec& r) {
        m[r.key].push_back(r);
        bySeq[r.seq] = r.key;
        maxSeq = std::max(maxSeq, r.seq);
    }
    // latest record of the key as of `asof`
    const MRec* at(const std::string& k, uint64_t asof) const {
        auto e = m.find(k);
        return e == m.end() ? nullptr : at(e, asof);
    }
    const MRec* at(Map::const_iterator e, uint64_t asof) const {
        for (size_t i = e->second.size(); i--;) if (e->second[i].seq <= asof) return &e->second[i];
        return nullptr;
    }
    const MRec* bySeqNum(uint64_t s) const {
        auto e = bySeq.find(s);
        if (e == bySeq.end()) return nullptr;
        for (auto& r : m.at(e->second)) if (r.seq == s) return &r;
        return nullptr;
    }
    // Live records in order, as of `asof`
    std::vector<const MRec*> live(uint64_t asof) const {
        std::vector<const MRec*> r;
        for (auto e = m.begin(); e != m.end(); ++e) {
            const MRec* x = at(e, asof);
            if (x && !x->del) r.push_back(x);
        }
        return r;
    }
    // Forgets everything after `upto`
    void truncate(uint64_t upto) {
        for (auto e = m.begin(); e != m.end();) {
            auto& v = e->second;
            while (!v.empty() && v.back().seq > upto) { bySeq.erase(v.back().seq); v.pop_back(); }
            if (v.empty()) e = m.erase(e); else ++e;
        }
        maxSeq = bySeq.empty() ? 0 : bySeq.rbegin()->first;
    }
    uint64_t hash(uint64_t asof) const {
        uint64_t h = 7;
        for (auto* r : live(asof)) { h = hash64(r->key, h); h = hash64(&r->seq, 8, h); }
        return h;
    }
};

// ---- configuration ----------------------------------------------------------
struct Opt {
    CmpKind cmp = BYTES;
    bool seqIdx = true;
    bool compress = false;
    std::string text;
};
inline ssize_t zMax(DB*, const Record& r) { return r.kv.value.size + 9; }
// Byte-pair run-length coding; refuses (returns 0) what does not shrink.
inline ssize_t zComp(DB*, const Record& r, SizedBuf& out) {
    const uint8_t* p = r.kv.value.data;
    size_t n = r.kv.value.size, o = 0;
    for (size_t i = 0; i < n;) {
        size_t j = i;
        while (j < n && j - i < 255 && p[j] == p[i]) ++j;
        if (o + 2 > out.size) return 0;
        out.data[o++] = (uint8_t)(j - i);
        out.data[o++] = p[i];
        i = j;
    }
    return o;
}
inline ssize_t zDecomp(DB*, const SizedBuf& in, SizedBuf& out) {
    size_t o = 0;
    for (size_t i = 0; i + 1 < in.size; i += 2)
        for (size_t k = 0; k < in.data[i]; ++k) {
            if (o >= out.size) return -1;
            out.data[o++] = in.data[i + 1];
        }
    return o;
}

struct CfgOpts {
    bool custom = true;      // comparators, direct I/O, compression, hash lengths
    bool smallLogs = true;
    bool smallTables = true;
};
inline DBConfig randomConfig(Rng& r, Opt& o, const CfgOpts& co = CfgOpts()) {
    DBConfig c;
    std::string t;
    c.throttlingNumLogFilesSoft = 100000;
    c.throttlingNumLogFilesHard = 200000;
    static const uint32_t ents[] = {1, 2, 5, 11, 30, 100, 16384};
    c.maxEntriesInLogFile = ents[r(7)];
    if (r.chance(25)) c.maxLogFileSize = 300 + r(6000);
    static const uint32_t parts[] = {1, 2, 3, 4, 8};
    c.numL0Partitions = parts[r(5)];
    c.bloomFilterBitsPerUnit = r.chance(60) ? (r.chance(80) ? 10.0 : 1.0) : 0.0;
    c.useBloomFilterForGet = r.chance(85);
    c.fastIndexScan = r.chance(30);
    c.purgeDeletedDocImmediately = r.chance(60);
    c.bulkLoading = r.chance(10);
    c.skipManifestSync = r.chance(15);
    c.serializeMultiThreadedLogFlush = r.chance(50);
    c.maxParallelWritesPerJob = r.chance(30) ? 1 + r(4) : 0;
    c.maxKeepingCheckpoints = r.chance(50) ? 10 : 1 + r(4);
    if (co.smallTables) {
        c.maxL0TableSize = 2000 << r(6);
        c.maxL1TableSize = 3000 << r(6);
        c.minFileSizeToCompact = 500 << r(5);
        c.minWssToMerge = 500 << r(5);
        c.compactionFactor = 110 + r(200);
        c.minNumTablesPerLevel = 1 + r(8);
    }
    o.seqIdx = c.useSequenceIndex = r.chance(80);
    // The default takes 100 MB for every table
    c.lookupBoosterLimit_mb = {(uint32_t)r(2), (uint32_t)r(2)};
    t = fmt("ent=%u sz=%u parts=%u bloom=%.0f fast=%d purge=%d bulk=%d skipmani=%d L0=%llu L1=%llu seqidx=%d", c.maxEntriesInLogFile,
            c.maxLogFileSize, c.numL0Partitions, c.bloomFilterBitsPerUnit, c.fastIndexScan, c.purgeDeletedDocImmediately, c.bulkLoading,
            c.skipManifestSync, (unsigned long long)c.maxL0TableSize, (unsigned long long)c.maxL1TableSize, o.seqIdx);
    if (co.custom) {
        if (r.chance(30)) {
            o.cmp = r.chance(50) ? REVERSE : LENGTH;
            c.cmpFunc = o.cmp == REVERSE ? cmpReverse : cmpLength;
        }
        if (r.chance(25)) {
            c.directIoOpt.enabled = true;
            // A file takes 4 KiB at once then
            if (c.maxLogFileSize < 20000) c.maxLogFileSize += 20000;
            static const size_t bs[] = {4096, 16384, 131072};
            c.directIoOpt.bufferSize = bs[r(3)];
            c.directIoOpt.alignSize = r.chance(60) ? 4096 : 512;
            t += fmt(" dio=%zu/%zu", c.directIoOpt.bufferSize, c.directIoOpt.alignSize);
        }
        if (r.chance(25)) {
            o.compress = true;
            c.compOpt.cbGetMaxSize = zMax;
            c.compOpt.cbCompress = zComp;
            c.compOpt.cbDecompress = zDecomp;
            t += " compress";
        }
        if (r.chance(25) && o.cmp == BYTES) {
            size_t len = 1 + r(4);
            c.customLenForHash = [len](const jungle::HashKeyLenParams&) -> size_t { return len; };
            t += fmt(" hashlen=%zu", len);
        }
    }
    o.text = t + fmt(" cmp=%d", o.cmp);
    return c;
}

inline void initGlobal(Rng& r, bool workers, bool autoSync = false) {
    jungle::GlobalConfig g;
    g.globalLogPath = st().scratch;
    g.fdbCacheSize = 0;
    g.numTableWriters = r(4);
    g.numFlusherThreads = workers ? 1 + r(2) : 0;
    g.numCompactorThreads = workers ? 1 + r(2) : 0;
    g.flusherSleepDuration_ms = 10 + r(30);
    g.compactorSleepDuration_ms = 10 + r(30);
    g.logFileReclaimerSleep_sec = 1;
    g.flusherMinRecordsToTrigger = 1 + r(200);
    g.flusherMinLogFilesToTrigger = 1 + r(8);
    g.flusherAutoSync = workers && autoSync;
    g.shutdownLogger = false;
    jungle::init(g);
}

// ---- key and value generation -----------------------------------------------
struct Gen {
    Rng& r;
    std::vector<std::string> keys;
    uint64_t nval = 0;
    size_t bigVal = 0;
    Gen(Rng& rr, size_t n) : r(rr) {
        int style = r(5);
        std::set<std::string> s;
        size_t guard = 0;
        while (s.size() < n && guard++ < n * 50) {
            std::string k;
            if (style == 0) k = fmt("k%05llu", (unsigned long long)r(n * 2));
            else if (style == 1) { size_t l = 1 + r(6); for (size_t i = 0; i < l; ++i) k += "ab\0\xff"[r(4)]; }
            else if (style == 2) { size_t l = 1 + r(40); for (size_t i = 0; i < l; ++i) k += (char)r(256); }
            else if (style == 3) k = std::string(1 + r(200), 'p') + fmt("%llu", (unsigned long long)r(n));
            else { k = fmt("%llu", (unsigned long long)r(n * 3)); if (r.chance(20)) k += std::string(r(300), 'x'); }
            s.insert(k);
        }
        keys.assign(s.begin(), s.end());
        if (r.chance(20)) bigVal = 5000;
    }
    const std::string& key() { return r.pick(keys); }
    // A key that may or may not be used as one
    std::string probe() {
        if (r.chance(70)) return key();
        std::string k = key();
        switch (r(4)) {
        case 0: k += "\x01"; break;
        case 1: if (k.size() > 1) k.pop_back(); break;
        case 2: k[r(k.size())] ^= 1 + r(255); break;
        default: k = std::string(1 + r(3), (char)r(256));
        }
        return k;
    }
    std::string value() {
        std::string v = fmt("v%llu.", (unsigned long long)++nval);
        if (r.chance(3)) return "";
        if (r.chance(30)) v += std::string(r(100), 'a' + r(4));
        if (bigVal && r.chance(10)) v += std::string(r(bigVal), 'z');
        return v;
    }
    std::string meta() { return r.chance(60) ? "" : fmt("m%llu", (unsigned long long)r(1000)) + std::string(r(20), 0); }
};

// ---- monitors ---------------------------------------------------------------
struct View {      // a database or snapshot handle, and the state it must show
    DB* db;
    uint64_t asof;
    const char* what;
};
inline std::string show(const MRec* r) {
    if (!r) return "none";
    return fmt("%s seq %llu %s", r->del ? "tombstone" : "record", (unsigned long long)r->seq, printable(r->val, 24).c_str());
}

struct Monitors {
    const Model* m;
    Opt opt;
    Rng* r;
    uint64_t flushedUpto = 0;   // everything after it is still in the log

    bool same(const Record& a, const MRec& b) const {
        return str(a.kv.key) == b.key && a.seqNum == b.seq && a.isDel() == b.del && str(a.meta) == b.meta && (b.del || str(a.kv.value) == b.val);
    }

    void point(const View& v, const std::string& k) const {
        count("gets");
        const MRec* x = m->at(k, v.asof);
        bool live = x && !x->del;
        {
            SizedBuf out;
            SizedBuf::Holder h(out);
            Status s = v.db->get(SB(k), out);
            if (live) {
                if (!s.ok()) viol("get-missing", fmt("%s: get(%s) = %s, expected %s", v.what, printable(k).c_str(), stname(s).c_str(), show(x).c_str()));
                else if (str(out) != x->val)
                    viol("get-stale", fmt("%s: get(%s) = %s, expected %s", v.what, printable(k).c_str(), printable(str(out), 24).c_str(), show(x).c_str()));
            } else if (s.ok()) {
                viol("get-ghost", fmt("%s: get(%s) = %s, expected not found (%s)", v.what, printable(k).c_str(), printable(str(out), 24).c_str(), show(x).c_str()));
            } else if (s != Status::KEY_NOT_FOUND)
                viol("get-status", fmt("%s: get(%s) of no record = %s", v.what, printable(k).c_str(), stname(s).c_str()));
        }
        for (int mo = 0; mo < 2; ++mo) {
            Record rec;
            Record::Holder h(rec);
            Status s = v.db->getRecordByKey(SB(k), rec, mo);
            if (!s.ok()) {
                if (live) viol("getrec-missing", fmt("%s: getRecordByKey(%s, %d) = %s, expected %s", v.what, printable(k).c_str(), mo, stname(s).c_str(), show(x).c_str()));
                else if (s != Status::KEY_NOT_FOUND) viol("getrec-status", fmt("%s: getRecordByKey(%s, %d) = %s", v.what, printable(k).c_str(), mo, stname(s).c_str()));
                continue;
            }
            bool ok = x && (mo || live) && str(rec.kv.key) == k && rec.seqNum == x->seq && rec.isDel() == x->del && str(rec.meta) == x->meta &&
                      (mo ? (rec.kv.value.empty()) : str(rec.kv.value) == x->val);
            if (!ok)
                viol("getrec-wrong", fmt("%s: getRecordByKey(%s, %d) = key %s seq %llu type %d value %s meta %s, expected %s meta %s", v.what, printable(k).c_str(), mo,
                                         printable(str(rec.kv.key)).c_str(), (unsigned long long)rec.seqNum, rec.type, printable(str(rec.kv.value), 24).c_str(),
                                         printable(str(rec.meta)).c_str(), show(x).c_str(), x ? printable(x->meta).c_str() : ""));
        }
    }

    // Whatever the iterator shows at its cursor against the expected live record
    bool atCursor(Iterator& it, const MRec* want, const char* what, const std::string& how) const {
        Record rec;
        Record::Holder h(rec);
        Status s = it.get(rec);
        count("iterator_gets");
        if (!want) {
            if (s.ok()) viol("itr-extra", fmt("%s: %s: iterator shows %s seq %llu, expected nothing", what, how.c_str(), printable(str(rec.kv.key)).c_str(), (unsigned long long)rec.seqNum));
            return !s.ok();
        }
        if (!s.ok()) {
            viol("itr-missing", fmt("%s: %s: iterator get = %s, expected %s %s", what, how.c_str(), stname(s).c_str(), printable(want->key).c_str(), show(want).c_str()));
            return false;
        }
        if (!same(rec, *want)) {
            viol("itr-wrong", fmt("%s: %s: iterator shows %s seq %llu type %d value %s, expected %s %s", what, how.c_str(), printable(str(rec.kv.key)).c_str(),
                                  (unsigned long long)rec.seqNum, rec.type, printable(str(rec.kv.value), 24).c_str(), printable(want->key).c_str(), show(want).c_str()));
            return false;
        }
        return true;
    }
};
}  // namespace dbx
