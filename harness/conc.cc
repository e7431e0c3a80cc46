// Concurrent clients of one or two databases, while logs are flushed, tables are compacted, snapshots
// and checkpoints come and go, and (optionally) background workers run. Every write and every answer is
// recorded with its real-time interval; an offline checker then decides whether the history is that of
// one atomic, multi-version map:
//   - each writer owns its keys, so what a read shows of a writer must be a prefix of that writer's
//     operations, no older than what had completed before the read began (or had been shown by a read that
//     ended before), no newer than what had begun when it ended;
//   - scans and snapshots must show such a prefix of every writer at once, a batch entirely or not at all,
//     the same every time, and consistent with sequence numbers and with real time between writers;
//   - batches over two databases become visible in both at once;
//   - sequence numbers are unique and follow real time.
#include "dbx.h"
#include <dirent.h>
using namespace dbx;

static uint64_t tick() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// wall-clock time of a tick, as in the logs of the database
static std::string wall(uint64_t t) {
    if (t == UINT64_MAX) return "never";
    int64_t off = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count() - (int64_t)tick();
    uint64_t us = (t + off) / 1000;
    time_t sec = us / 1000000;
    struct tm tm;
    gmtime_r(&sec, &tm);
    return fmt("%02d:%02d:%02d.%06d", tm.tm_hour, tm.tm_min, tm.tm_sec, (int)(us % 1000000));
}

namespace {
struct Effect { int db, key; bool del; };
struct WOp {
    uint64_t inv = 0, ret = UINT64_MAX;
    char kind = 's';
    bool failed = false;
    std::vector<Effect> eff;
    std::map<int, uint64_t> seq;      // per db, first sequence number as learned from reads
};
struct KeyDef { std::string text; int writer; std::vector<std::pair<int, bool>> hist[2]; };   // per db: (op, deleted)

struct Shown { int key; int op; uint64_t seq; };   // op -1: not found
struct Read {
    uint64_t inv, ret;
    int db;
    char kind;
    bool all;                      // shown lists every key that is live in [lo, hi)
    int lo, hi;
    std::vector<Shown> shown;
    std::vector<int> absent;       // keys that were asked for and not found
    uint64_t chk = 0;              // exact sequence number of the snapshot, when known
    uint64_t maxSeq = 0;
};

struct World {
    int nDb, W, R, M;
    std::vector<KeyDef> keys;                  // sorted by key order
    std::vector<std::vector<WOp>> ops;         // per writer
    std::vector<std::vector<Read>> reads;      // per reader thread
    DB* db[2] = {nullptr, nullptr};
    std::string path[2];
    std::map<std::string, int> byText;
    Opt opt[2];
    size_t parts = 1;
    std::atomic<int> writersLeft{0};
    std::atomic<uint64_t> progress{0};
    std::string ctx;
};

std::string valueOf(int w, int op, int key, Rng& r) {
    std::string v = fmt("%d.%d.%d.", w, op, key);
    if (r.chance(30)) v += std::string(r(200), 'a' + r(4));
    if (r.chance(2)) v += std::string(r(5000), 'z');
    return v;
}
bool parse(const std::string& v, int& w, int& op, int& key) { return sscanf(v.c_str(), "%d.%d.%d.", &w, &op, &key) == 3; }

// One record that came out of the database
bool take(World& x, int db, const char* how, const std::string& key, const std::string& val, uint64_t seq, Shown& out) {
    auto e = x.byText.find(key);
    if (e == x.byText.end()) { viol("conc-foreign", fmt("%s showed a key that was never written: %s", how, printable(key).c_str())); return false; }
    int w, op, k;
    if (!parse(val, w, op, k) || k != e->second || w != x.keys[k].writer) {
        viol("conc-garbled", fmt("%s showed key %s with value %s, which was never written to it", how, printable(key).c_str(), printable(val, 30).c_str()));
        return false;
    }
    out = Shown{k, op, seq};
    (void)db;
    return true;
}

void writer(World& x, int w, uint64_t seed, int nOps) {
    Rng r(seed);
    std::vector<int> mine;
    for (size_t i = 0; i < x.keys.size(); ++i) if (x.keys[i].writer == w) mine.push_back(i);
    std::vector<WOp>& v = x.ops[w];
    unsigned pace = r(4);
    for (int i = 0; i < nOps; ++i) {
        WOp& o = v[i];
        unsigned what = r(argn("batch", 1) ? 100 : 62);
        Status s;
        int db = x.nDb > 1 ? r(2) : 0;
        auto hist = [&](int d, int k, bool del) {
            o.eff.push_back(Effect{d, k, del});
            x.keys[k].hist[d].push_back({i, del});
        };
        if (what < 50) {
            int k = r.pick(mine);
            std::string val = valueOf(w, i, k, r);
            hist(db, k, false);
            o.kind = 's';
            o.inv = tick();
            if (r.chance(70)) s = x.db[db]->set(KV(SB(x.keys[k].text), SB(val)));
            else {
                Record rec;
                rec.kv.key = SB(x.keys[k].text); rec.kv.value = SB(val); rec.seqNum = -1;
                s = x.db[db]->setRecordByKey(rec);
            }
            o.ret = tick();
        } else if (what < 62) {
            int k = r.pick(mine);
            hist(db, k, true);
            o.kind = 'd';
            o.inv = tick();
            s = x.db[db]->del(SB(x.keys[k].text));
            o.ret = tick();
        } else {
            bool global = x.nDb > 1 && r.chance(60) && argn("glob", 1);
            o.kind = global ? 'g' : 'b';
            std::list<std::string> hold;
            std::list<Record> batch[2];
            for (int d = 0; d < 2; ++d) {
                if (!global && d != db) continue;
                std::vector<int> pick = mine;
                size_t n = r.chance(30) ? pick.size() : 1 + r(std::min<size_t>(pick.size(), 6));
                for (size_t j = 0; j < n; ++j) std::swap(pick[j], pick[j + r(pick.size() - j)]);
                pick.resize(n);
                for (int k : pick) {
                    Record rec;
                    bool del = r.chance(10);
                    rec.kv.key = SB(x.keys[k].text);
                    if (del) rec.type = Record::DELETION;
                    else { hold.push_back(valueOf(w, i, k, r)); rec.kv.value = SB(hold.back()); }
                    rec.seqNum = -1;
                    batch[d].push_back(rec);
                    hist(d, k, del);
                }
            }
            o.inv = tick();
            if (global) {
                jungle::GlobalBatch g;
                if (r.chance(50)) { g.addBatch(x.db[0], batch[0]); g.addBatch(x.db[1], batch[1]); }
                else { g.addBatch(x.db[1], batch[1]); g.addBatch(x.db[0], batch[0]); }
                s = g.execute();
            } else s = x.db[db]->setRecordBatch(batch[db]);
            o.ret = tick();
        }
        if (!s.ok()) { o.failed = true; viol("conc-write", fmt("write %c of writer %d failed: %s", o.kind, w, stname(s).c_str())); break; }
        x.progress++;
        if (pace == 0 && r.chance(10)) usleep(r(300));
        if (pace == 1 && r.chance(30)) std::this_thread::yield();
    }
    x.writersLeft--;
}

void scan(World& x, DB* h, Read& rd, Rng& r, const char* how, bool single) {
    // the interval so far is that of init(); the steps may take longer
    Iterator it;
    std::string lo, hi;
    rd.lo = 0; rd.hi = x.keys.size();
    if (r.chance(25) && x.keys.size() > 2) {
        rd.lo = r(x.keys.size());
        rd.hi = rd.lo + 1 + r(x.keys.size() - rd.lo);
    }
    SizedBuf a, b;
    if (rd.lo > 0) a = SB(x.keys[rd.lo].text);
    if (rd.hi < (int)x.keys.size()) b = SB(x.keys[rd.hi - 1].text);
    if (single) rd.inv = tick();
    Status s = it.init(h, a, b);
    if (single) rd.ret = tick();
    rd.all = true;
    if (!s.ok()) { viol("conc-itr", fmt("%s: Iterator::init = %s", how, stname(s).c_str())); return; }
    bool back = r.chance(30);
    if (back) s = it.gotoEnd();
    int prev = back ? 1 << 30 : -1;
    if (s.ok()) do {
        Record rec;
        Record::Holder hr(rec);
        s = it.get(rec);
        if (!s.ok()) { if (rd.shown.size()) viol("conc-itr", fmt("%s: get after %zu steps = %s", how, rd.shown.size(), stname(s).c_str())); break; }
        Shown sh;
        if (!rec.isIns()) { viol("conc-tomb", fmt("%s: iterator delivered a tombstone", how)); break; }
        if (!take(x, rd.db, how, str(rec.kv.key), str(rec.kv.value), rec.seqNum, sh)) break;
        if (back ? sh.key >= prev : sh.key <= prev) { viol("conc-order", fmt("%s: key %s out of order", how, printable(x.keys[sh.key].text).c_str())); break; }
        if (sh.key < rd.lo || sh.key >= rd.hi) { viol("conc-range", fmt("%s: key %s is outside the range", how, printable(x.keys[sh.key].text).c_str())); break; }
        prev = sh.key;
        rd.shown.push_back(sh);
        if (r.chance(3)) usleep(r(200));
        s = back ? it.prev() : it.next();
    } while (s.ok());
    it.close();
}

void point(World& x, DB* h, int db, int k, Rng& r, Shown& out, const char* how) {
    out = Shown{k, -1, 0};
    Status s;
    if (r.chance(50)) {
        SizedBuf v;
        SizedBuf::Holder hv(v);
        s = h->get(SB(x.keys[k].text), v);
        if (s.ok()) take(x, db, how, x.keys[k].text, str(v), 0, out);
    } else {
        Record rec;
        Record::Holder hr(rec);
        s = h->getRecordByKey(SB(x.keys[k].text), rec);
        if (s.ok()) take(x, db, how, str(rec.kv.key), str(rec.kv.value), rec.seqNum, out);
    }
    if (!s.ok() && s != Status::KEY_NOT_FOUND) viol("conc-get", fmt("%s of %s = %s", how, printable(x.keys[k].text).c_str(), stname(s).c_str()));
}

void snapshot(World& x, int db, uint64_t chk, Rng& r, std::vector<Read>& out) {
    DB* sn = nullptr;
    Read rd;
    rd.db = db; rd.kind = chk ? 'c' : 'n'; rd.chk = chk;
    rd.inv = tick();
    Status s = x.db[db]->openSnapshot(&sn, chk);
    rd.ret = tick();
    if (!s.ok()) {
        if (!chk) viol("conc-snap", fmt("openSnapshot = %s", stname(s).c_str()));
        return;
    }
    count(chk ? "checkpoint_snapshots" : "snapshots");
    int rounds = 1 + r(3);
    for (int i = 0; i < rounds; ++i) {
        Read c = rd;
        if (r.chance(60)) scan(x, sn, c, r, chk ? "scan of checkpoint" : "scan of snapshot", false);
        else {
            c.all = false;
            for (size_t k = 0; k < x.keys.size(); ++k) {
                if (!r.chance(50)) continue;
                Shown sh;
                point(x, sn, db, k, r, sh, chk ? "get on checkpoint" : "get on snapshot");
                if (sh.op >= 0) c.shown.push_back(sh); else c.absent.push_back(k);
            }
        }
        out.push_back(c);
        if (r.chance(30)) usleep(r(3000));
    }
    DB::close(sn);
}

void reader(World& x, int id, uint64_t seed) {
    Rng r(seed);
    std::vector<Read>& v = x.reads[id];
    unsigned scanPct = argn("itr", 1) ? r(3) * 20 : 0, snapPct = argn("snap", 1) ? r(20) : 0;
    uint64_t lastMax[2] = {0, 0};
    auto lim = [&] { return v.size() < 40000; };
    bool last = false;
    while (lim()) {
        if (x.writersLeft.load() == 0) { if (last) break; last = true; }
        int db = x.nDb > 1 ? r(2) : 0;
        unsigned what = r(100);
        x.progress++;
        if (what < scanPct) {
            Read rd;
            rd.db = db; rd.kind = 'i';
            scan(x, x.db[db], rd, r, "iterator", true);
            count("scans");
            v.push_back(std::move(rd));
        } else if (what < scanPct + snapPct) {
            snapshot(x, db, 0, r, v);
        } else if (what < scanPct + snapPct + 3) {
            Read rd;
            rd.db = db; rd.kind = 'm'; rd.all = false;
            rd.inv = tick();
            Status s = x.db[db]->getMaxSeqNum(rd.maxSeq);
            rd.ret = tick();
            if (!s.ok()) continue;
            if (rd.maxSeq < lastMax[db]) viol("conc-maxseq", fmt("getMaxSeqNum went back from %llu to %llu", (unsigned long long)lastMax[db], (unsigned long long)rd.maxSeq));
            lastMax[db] = rd.maxSeq;
            v.push_back(std::move(rd));
        } else if (what < scanPct + snapPct + 6) {
            // records by sequence number
            Iterator it;
            uint64_t from = r.chance(50) ? -1 : r(200), to = r.chance(50) ? -1 : from == (uint64_t)-1 ? r(400) : from + r(200);
            Status s = it.initSN(x.db[db], from, to);
            if (s.ok()) {
                uint64_t prev = 0;
                Read rd;
                rd.db = db; rd.kind = 'q'; rd.all = false;
                rd.inv = 0; rd.ret = UINT64_MAX;   // only its sequence numbers are used
                do {
                    Record rec;
                    Record::Holder hr(rec);
                    if (!it.get(rec).ok()) break;
                    if (rec.seqNum <= prev) viol("conc-seq-order", fmt("sequence iterator delivered %llu after %llu", (unsigned long long)rec.seqNum, (unsigned long long)prev));
                    prev = rec.seqNum;
                    Shown sh;
                    if (rec.isIns() && take(x, db, "sequence iterator", str(rec.kv.key), str(rec.kv.value), rec.seqNum, sh)) rd.shown.push_back(sh);
                } while (it.next().ok());
                it.close();
                count("sequence_scans");
                rd.inv = 0; rd.ret = tick();
                v.push_back(std::move(rd));
            }
        } else {
            Read rd;
            rd.db = db; rd.kind = 'p'; rd.all = false;
            int k = r(x.keys.size());
            Shown sh;
            rd.inv = tick();
            point(x, x.db[db], db, k, r, sh, "get");
            rd.ret = tick();
            if (sh.op >= 0) rd.shown.push_back(sh); else rd.absent.push_back(k);
            v.push_back(std::move(rd));
        }
        if (r.chance(2)) usleep(r(300));
    }
}

void maintainer(World& x, int id, uint64_t seed) {
    Rng r(seed);
    std::vector<Read>& v = x.reads[x.R + id];
    bool last = false;
    for (;;) {
        if (x.writersLeft.load() == 0) { if (last) break; last = true; }
        int dbi = x.nDb > 1 ? r(2) : 0;
        DB* db = x.db[dbi];
        x.progress++;
        Status s;
        std::string what;
        switch (r(argn("chk", 1) ? 12 : 10)) {
        case 0: s = db->sync(r.chance(30)); what = "sync"; break;
        case 1: s = db->syncNoWait(r.chance(30)); what = "syncNoWait"; break;
        case 2: case 3: case 4: {
            jungle::FlushOptions fo;
            fo.purgeOnly = r.chance(5) && x.M == 1;
            fo.syncOnly = r.chance(10);
            fo.callFsync = r.chance(20);
            fo.beyondLastSync = r.chance(20);
            uint64_t upto = -1;
            if (r.chance(20)) { uint64_t mx; if (db->getMaxSeqNum(mx).ok()) upto = 1 + r(mx + 1); }
            // purging what is not in tables loses it by request
            fo.purgeOnly = false;
            if (r.chance(70)) db->sync(false);
            s = db->flushLogs(fo, upto);
            what = "flush";
            break;
        }
        case 5: case 6: s = db->compactL0(jungle::CompactOptions(), r(x.parts)); what = "compactL0"; break;
        case 7: s = db->compactLevel(jungle::CompactOptions(), 1 + r(2)); what = "compactLevel"; break;
        case 8: s = db->compactInplace(jungle::CompactOptions(), r(3)); what = "compactInplace"; break;
        case 9: s = r.chance(50) ? db->splitLevel(jungle::CompactOptions(), 1 + r(2)) : db->mergeLevel(jungle::CompactOptions(), 1 + r(2)); what = "split/merge"; break;
        case 10: {
            uint64_t chk = 0;
            uint64_t t0 = tick();
            s = db->checkpoint(chk);
            uint64_t t1 = tick();
            (void)t0; (void)t1;
            what = "checkpoint";
            if (s.ok() && r.chance(70)) snapshot(x, dbi, chk, r, v);
            break;
        }
        default: {
            std::list<uint64_t> chks;
            if (db->getCheckpoints(chks).ok() && chks.size()) {
                auto e = chks.begin();
                std::advance(e, r(chks.size()));
                snapshot(x, dbi, *e, r, v);
            }
            what = "listed";
        }
        }
        count((s.ok() ? "did_" : "declined_") + what);
        if (r.chance(20)) usleep(r(2000));
    }
}

// ---- the checker --------------------------------------------------------------
struct Checker {
    World& x;
    std::vector<std::vector<uint64_t>> rets, invs;   // per writer
    Checker(World& w) : x(w) {
        rets.resize(x.W); invs.resize(x.W);
        for (int w2 = 0; w2 < x.W; ++w2)
            for (auto& o : x.ops[w2]) { if (!o.inv) break; invs[w2].push_back(o.inv); rets[w2].push_back(o.ret); }
    }
    // number of operations of w that had returned before t / had begun before t
    int done(int w, uint64_t t) const { return std::lower_bound(rets[w].begin(), rets[w].end(), t) - rets[w].begin(); }
    int begun(int w, uint64_t t) const { return std::lower_bound(invs[w].begin(), invs[w].end(), t) - invs[w].begin(); }

    // State of key k in db after the first n operations of its writer: op index, or -1 if absent
    int stateAt(int db, int k, int n) const {
        auto& h = x.keys[k].hist[db];
        auto e = std::lower_bound(h.begin(), h.end(), std::make_pair(n, false), [](const std::pair<int, bool>& a, const std::pair<int, bool>& b) { return a.first < b.first; });
        if (e == h.begin()) return -1;
        --e;
        return e->second ? -1 : e->first;
    }

    void run() {
        std::vector<Read*> all;
        for (auto& v : x.reads) for (auto& r : v) all.push_back(&r);
        seqs(all);
        std::vector<Read*> byRet;
        for (Read* r : all) if (r->kind != 'q' && r->kind != 'm') byRet.push_back(r);
        std::vector<Read*> byInv = byRet;
        std::sort(byInv.begin(), byInv.end(), [](Read* a, Read* b) { return a->inv < b->inv; });
        std::sort(byRet.begin(), byRet.end(), [](Read* a, Read* b) { return a->ret < b->ret; });
        // lower bounds from reads that ended before: per writer, number of operations known to have taken effect
        std::vector<int> known(x.W, 0);
        std::map<Read*, std::vector<int>> minShown;
        size_t j = 0;
        for (Read* r : byInv) {
            for (; j < byRet.size() && byRet[j]->ret < r->inv; ++j) {
                Read* q = byRet[j];
                for (auto& s : q->shown) {
                    int& k = known[x.keys[s.key].writer];
                    k = std::max(k, s.op + 1);
                }
            }
            judge(*r, known);
            if (st().violKeys.size()) return;
        }
        maxSeqs(all);
    }

    std::map<uint64_t, std::pair<int, int>> seqOf[2];       // seq -> (writer, key)
    // what reads told about sequence numbers
    void seqs(std::vector<Read*>& all) {
        for (Read* r : all)
            for (auto& s : r->shown) {
                if (!s.seq) continue;
                int w = x.keys[s.key].writer;
                auto e = seqOf[r->db].insert({s.seq, {w, s.key}});
                auto& learned = recSeq[r->db][{s.key, s.op}];
                if (!learned) learned = s.seq;
                if (learned != s.seq || e.first->second.second != s.key)
                    viol("conc-seq", fmt("db %d: key %s of operation %d.%d has sequence numbers %llu and %llu", r->db, printable(x.keys[s.key].text).c_str(), w, s.op,
                                         (unsigned long long)learned, (unsigned long long)s.seq));
            }
        for (int d = 0; d < x.nDb; ++d) {
            // min and max number per operation; must follow real time
            std::map<std::pair<int, int>, std::pair<uint64_t, uint64_t>> span;
            for (auto& e : recSeq[d]) {
                auto id = std::make_pair(x.keys[e.first.first].writer, e.first.second);
                auto f = span.insert({id, {e.second, e.second}});
                f.first->second.first = std::min(f.first->second.first, e.second);
                f.first->second.second = std::max(f.first->second.second, e.second);
            }
            count("sequence_numbers_learned", recSeq[d].size());
            std::vector<std::pair<uint64_t, std::pair<int, int>>> byMin;
            for (auto& s : span) { byMin.push_back({s.second.first, s.first}); opSeq[d][s.first] = s.second; }
            std::sort(byMin.begin(), byMin.end());
            uint64_t latestInv = 0;
            std::pair<int, int> latest;
            for (size_t i = 0; i < byMin.size(); ++i) {
                auto id = byMin[i].second;
                WOp& o = x.ops[id.first][id.second];
                if (o.ret < latestInv)
                    viol("conc-seq-time", fmt("db %d: operation %d.%d returned before %d.%d began, but has the larger sequence number", d, id.first, id.second, latest.first, latest.second));
                if (o.inv > latestInv) { latestInv = o.inv; latest = id; }
                if (i && span[byMin[i - 1].second].second > byMin[i].first)
                    viol("conc-seq-batch", fmt("db %d: sequence numbers of operations %d.%d and %d.%d are interleaved", d, id.first, id.second, byMin[i - 1].second.first, byMin[i - 1].second.second));
            }
        }
    }
    std::map<std::pair<int, int>, uint64_t> recSeq[2];                              // (key, op) -> seq
    std::map<std::pair<int, int>, std::pair<uint64_t, uint64_t>> opSeq[2];           // (writer, op) -> [min, max]

    void maxSeqs(std::vector<Read*>& all) {
        for (Read* r : all) {
            if (r->kind != 'm') continue;
            count("max_seq_reads");
            uint64_t lo = 0, hi = 0;
            for (int w = 0; w < x.W; ++w) {
                int a = done(w, r->inv), b = begun(w, r->ret);
                for (int i = 0; i < b; ++i)
                    for (auto& e : x.ops[w][i].eff) if (e.db == r->db) { ++hi; if (i < a) ++lo; }
            }
            if (r->maxSeq < lo || r->maxSeq > hi)
                viol("conc-maxseq", fmt("db %d: getMaxSeqNum = %llu, but %llu records were written before it began and %llu before it ended", r->db, (unsigned long long)r->maxSeq,
                                        (unsigned long long)lo, (unsigned long long)hi));
        }
    }

    void judge(Read& r, const std::vector<int>& known) {
        count("reads_checked");
        std::vector<int> shown(x.keys.size(), -2);   // -2: not asked
        if (r.all) for (int k = r.lo; k < r.hi; ++k) shown[k] = -1;
        for (int k : r.absent) shown[k] = -1;
        for (auto& s : r.shown) {
            if (shown[s.key] >= 0 && shown[s.key] != s.op) { viol("conc-twice", fmt("read %c showed key %s twice", r.kind, printable(x.keys[s.key].text).c_str())); return; }
            shown[s.key] = s.op;
        }
        std::vector<int> lo(x.W), hi(x.W);
        bool any = false;
        uint64_t h = r.kind;
        uint64_t top = 0;
        for (auto& s : r.shown) top = std::max(top, s.seq);
        for (int w = 0; w < x.W; ++w) {
            std::vector<int> ks;
            for (size_t k = 0; k < shown.size(); ++k) if (shown[k] != -2 && x.keys[k].writer == w) ks.push_back(k);
            int a = r.kind == 'c' ? 0 : std::max(done(w, r.inv), known[w]), b = begun(w, r.ret);
            if (a > b) { viol("conc-future", fmt("writer %d: an earlier read showed an operation that had not begun", w)); return; }
            lo[w] = -1;
            if (ks.empty()) { lo[w] = a; hi[w] = b; continue; }
            any = true;
            for (int n = a; n <= b; ++n) {
                bool ok = true;
                for (int k : ks) if (stateAt(r.db, k, n) != shown[k]) { ok = false; break; }
                if (ok) { if (lo[w] < 0) lo[w] = n; hi[w] = n; }
            }
            if (b > a) h = hash64(&lo[w], sizeof(int), h * 31 + w + (b - a));
            if (lo[w] < 0) {
                explain(r, w, a, b, ks, shown);
                return;
            }
        }
        if (!any) return;
        seen(h);
        bool multi = r.all || r.shown.size() + r.absent.size() > 1;
        if (!multi) return;
        // between writers: what is certainly included, against what is certainly not
        for (int w = 0; w < x.W; ++w) {
            if (lo[w] > 0) {
                const WOp& o = x.ops[w][lo[w] - 1];
                if (o.failed) continue;
                for (int v = 0; v < x.W; ++v)
                    if (v != w && done(v, o.inv) > hi[v]) {
                        viol(fmt("conc-cut-%c", r.kind), fmt("read %c of db %d shows operation %d.%d but not %d.%d, which had returned before that began", r.kind, r.db, w, lo[w] - 1, v, hi[v]));
                        return;
                    }
            }
        }
        // by sequence number
        uint64_t inc = r.chk ? r.chk : top;      // everything up to here is included
        for (int w = 0; w < x.W; ++w) {
            for (auto e = opSeq[r.db].lower_bound({w, hi[w]}); e != opSeq[r.db].end() && e->first.first == w; ++e) {
                if (e->second.second <= inc) {
                    viol(fmt("conc-cut-seq-%c", r.kind), fmt("read %c of db %d (%s) shows sequence number %llu but not operation %d.%d with %llu", r.kind, r.db, r.chk ? "checkpoint" : "latest",
                                                            (unsigned long long)inc, w, e->first.second, (unsigned long long)e->second.second));
                    return;
                }
                break;
            }
            if (r.chk && lo[w] > 0) {
                auto e = opSeq[r.db].upper_bound({w, lo[w] - 1});
                if (e != opSeq[r.db].begin()) {
                    --e;
                    if (e->first.first == w && e->first.second < lo[w] && e->second.first > r.chk) {
                        viol(fmt("conc-chk-beyond-%c", r.kind), fmt("checkpoint %llu of db %d shows operation %d.%d or later, which has sequence number %llu", (unsigned long long)r.chk, r.db, w,
                                                     e->first.second, (unsigned long long)e->second.first));
                        return;
                    }
                }
            }
        }
        count("cuts_checked");
    }

    void explain(Read& r, int w, int a, int b, std::vector<int>& ks, std::vector<int>& shown) {
        // the key that fits nowhere, or the pair that does not fit together
        std::string t;
        bool torn = true;
        std::string key = "conc-stale";
        for (int k : ks) {
            bool ok = false;
            int early = -1, late = -1;
            for (int n = a; n <= b; ++n) if (stateAt(r.db, k, n) == shown[k]) { ok = true; if (early < 0) early = n; late = n; }
            if (!ok) {
                torn = false;
                auto& h = x.keys[k].hist[r.db];
                bool found = shown[k] == -1;
                for (auto& e : h) if (e.first == shown[k] && !e.second) found = true;
                t = fmt("key %s shows operation %d, must be state %d..%d of its writer (%d at the start, %d at the end)", printable(x.keys[k].text).c_str(), shown[k], a, b, stateAt(r.db, k, a), stateAt(r.db, k, b));
                key = !found ? "conc-garbled" : shown[k] == -1 ? "conc-missing" : shown[k] >= b ? "conc-future" : "conc-stale";
                if (late >= 0 || b > 0) t += fmt(", operation %d at %s", stateAt(r.db, k, b), stateAt(r.db, k, b) >= 0 ? wall(x.ops[w][stateAt(r.db, k, b)].ret).c_str() : "-");
                t += fmt(", read at %s .. %s", wall(r.inv).c_str(), wall(r.ret).c_str());
                break;
            }
            if (t.size() < 300) t += fmt("key %s at %d fits after %d..%d operations; ", printable(x.keys[k].text).c_str(), shown[k], early, late);
        }
        if (torn) key = "conc-torn";
        viol(key + "-" + r.kind, fmt("read %c of db %d, writer %d: %s", r.kind, r.db, w, t.c_str()));
    }
};

void finalCheck(World& x, const char* when) {
    for (int d = 0; d < x.nDb; ++d) {
        Iterator it;
        std::map<int, int> shown;
        Status s = it.init(x.db[d]);
        if (s.ok()) do {
            Record rec;
            Record::Holder hr(rec);
            if (!it.get(rec).ok()) break;
            Shown sh;
            if (take(x, d, when, str(rec.kv.key), str(rec.kv.value), rec.seqNum, sh)) shown[sh.key] = sh.op;
        } while (it.next().ok());
        it.close();
        for (size_t k = 0; k < x.keys.size(); ++k) {
            auto& h = x.keys[k].hist[d];
            int want = h.empty() || h.back().second ? -1 : h.back().first;
            int got = shown.count(k) ? shown[k] : -1;
            Rng r(k);
            Shown sh;
            point(x, x.db[d], d, k, r, sh, when);
            count("final_keys");
            if (got != want || sh.op != want) {
                viol("conc-final", fmt("%s: db %d key %s: scan shows operation %d, get %d, expected %d", when, d, printable(x.keys[k].text).c_str(), got, sh.op, want));
                return;
            }
        }
    }
}

void oneRun(uint64_t seed) {
    Rng r(seed);
    World x;
    x.nDb = argn("dbs", r.chance(40) ? 2 : 1);
    x.W = 1 + r(3);
    x.R = 1 + r(3);
    x.M = r.chance(15) || !argn("maint", 2) ? 0 : 1 + r(argn("maint", 2));
    bool workers = argn("workers", r.chance(50));
    int nOps = argn("ops", 60 + r(200));
    initGlobal(r, workers, true);
    CfgOpts co;
    DBConfig cfg[2];
    std::string ctx;
    Rng cr(r.next());
    uint64_t cs = cr.next();
    for (int d = 0; d < x.nDb; ++d) {
        Rng c2(cs + (r.chance(50) ? d : 0));
        cfg[d] = randomConfig(c2, x.opt[d], co);
        if (d && x.opt[1].cmp != x.opt[0].cmp) { cfg[1] = cfg[0]; x.opt[1] = x.opt[0]; }
    }
    x.ctx = fmt("run %llu dbs=%d W=%d R=%d M=%d workers=%d ops=%d %s", (unsigned long long)seed, x.nDb, x.W, x.R, x.M, workers, nOps, x.opt[0].text.c_str());
    { std::lock_guard<std::mutex> l(st().lock); st().context = x.ctx; }
    if (argn("trace", 0)) printf("# %s\n", x.ctx.c_str());
    Gen g(r, 2 + r(40));
    std::vector<std::string> ks = g.keys;
    std::sort(ks.begin(), ks.end(), Less{x.opt[0].cmp});
    if ((int)ks.size() < x.W) x.W = ks.size();
    for (size_t i = 0; i < ks.size(); ++i) {
        KeyDef kd;
        kd.text = ks[i];
        kd.writer = i < (size_t)x.W ? i : r(x.W);
        x.byText[ks[i]] = i;
        x.keys.push_back(kd);
    }
    x.ops.resize(x.W);
    for (auto& v : x.ops) v.resize(nOps);
    x.reads.resize(x.R + x.M);
    std::string root = st().scratch + "/db";
    rmtree(root);
    mkdirs(root);
    for (int d = 0; d < x.nDb; ++d) {
        x.path[d] = root + fmt("/d%d", d);
        Status s = DB::open(&x.db[d], x.path[d], cfg[d]);
        if (!s.ok()) { viol("conc-open", fmt("DB::open = %s", stname(s).c_str())); jungle::shutdown(); return; }
    }
    if (argn("dbgcb", 1)) {
        jungle::DebugParams dp;
        unsigned p = r(30);
        auto pause = [p, seed](const jungle::DebugParams::GenericCbParams&) {
            static thread_local Rng* q = new Rng(seed ^ (uintptr_t)&q);
            if (q->chance(p)) usleep((*q)(400));
        };
        dp.addNewLogFileCb = dp.newLogBatchCb = dp.getLogFileInfoBySeqCb = dp.logFlushCb = dp.syncCb = pause;
        (void)dp;
    }
    x.parts = std::min(cfg[0].numL0Partitions, cfg[x.nDb - 1].numL0Partitions);
    x.writersLeft = x.W;
    {
        Noise n(r);
        uint64_t ss = r.next();
        std::atomic<bool> stop(false);
        std::thread dog([&] {
            uint64_t lastP = 0; double t = now();
            while (!stop.load()) {
                usleep(100000);
                if (x.progress.load() != lastP) { lastP = x.progress.load(); t = now(); }
                if (now() - t > 120) {
                    viol("conc-hang", "no client operation finished for 120 s");
                    _exit(finish());
                }
            }
        });
        parallel(x.W + x.R + x.M, [&](size_t i) {
            if ((int)i < x.W) writer(x, i, ss + i, nOps);
            else if ((int)i < x.W + x.R) reader(x, i - x.W, ss + i);
            else maintainer(x, i - x.W - x.R, ss + i);
        });
        stop = true;
        dog.join();
    }
    Checker(x).run();
    for (int w = 0; w < x.W; ++w) count("writes", x.ops[w].size());
    for (auto& v : x.ops) for (auto& o : v) if (o.kind == 'b') count("batches"); else if (o.kind == 'g') count("global_batches");
    finalCheck(x, "at the end");
    for (int round = 0; round < 2 && st().violKeys.empty(); ++round) {
        for (int d = 0; d < x.nDb; ++d) {
            if (round && r.chance(50)) { x.db[d]->sync(false); x.db[d]->flushLogs(jungle::FlushOptions()); }
            Status s = DB::close(x.db[d]);
            x.db[d] = nullptr;
            if (!s.ok()) viol("conc-close", fmt("DB::close = %s", stname(s).c_str()));
        }
        for (int d = 0; d < x.nDb; ++d) {
            Status s = DB::open(&x.db[d], x.path[d], cfg[d]);
            if (!s.ok()) { viol("conc-open", fmt("reopen = %s", stname(s).c_str())); x.nDb = d; break; }
        }
        if (st().violKeys.empty()) finalCheck(x, "after reopen");
    }
    for (int d = 0; d < x.nDb; ++d) if (x.db[d]) DB::close(x.db[d]);
    jungle::shutdown();
    if (st().violKeys.empty() || !argn("keep", 0)) rmtree(root);
    count("runs");
}
}  // namespace

int main(int argc, char** argv) {
    init(argc, argv);
    uint64_t runs = argn("runs", 20), only = argn("only", 0);
    Rng r(st().seed);
    for (uint64_t i = 0; i < runs; ++i) {
        uint64_t s = r.next() >> 20;
        if (only) s = only;
        oneRun(s);
        if (st().violKeys.size() || only) { printf("# stopped at run seed %llu\n", (unsigned long long)s); break; }
    }
    return finish();
}
