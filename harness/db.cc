// Database, one user thread: random operations against a multi-version model.
// focus= get | iter | seq | snap | near | comp  chooses what is exercised and watched most.
#include "dbx.h"
using namespace dbx;

namespace {
std::string g_focus;
int trace; bool every;

struct ItrMon {
    Iterator it;
    bool bySeq = false;
    std::string what;
    // by key
    std::vector<MRec> exp;
    int pos = 0;
    bool known = true;
    // by seq
    std::map<uint64_t, MRec> may;
    std::set<uint64_t> must;
    uint64_t cur = 0;
    uint64_t seqMin = 0, seqMax = 0;
    std::string base;
    std::deque<std::string> hist;
    // The last steps are part of the description
    void did(const std::string& x) {
        if (base.empty()) base = what;
        hist.push_back(x);
        if (hist.size() > 12) hist.pop_front();
        what = base + " (";
        for (auto& h : hist) what += h + " ";
        what.back() = ')';
    }
};

struct World {
    Rng& r;
    Opt opt;
    DBConfig cfg;
    Model m;
    Gen gen;
    Monitors mon;
    std::string path;
    DB* db = nullptr;
    struct Snap { DB* db; uint64_t asof; uint64_t flushed; };
    std::vector<Snap> snaps;
    std::set<uint64_t> kept;    // checkpoints that must still be listed
    std::vector<std::unique_ptr<ItrMon>> its;
    std::deque<std::string> last;

    World(Rng& rr, Opt o, DBConfig c, size_t nkeys, const std::string& p)
        : r(rr), opt(o), cfg(c), m(o.cmp), gen(rr, nkeys), path(p) {
        mon.m = &m;
        mon.opt = o;
        mon.r = &rr;
    }
    void note(const std::string& s) {
        last.push_back(s);
        if (last.size() > 14) last.pop_front();
        std::string c = opt.text + "; ops:";
        for (auto& x : last) c += " " + x + ";";
        st().context = c;
        if (trace) { printf("# %s\n", s.c_str()); fflush(stdout); }
    }
    View view() { return View{db, m.maxSeq, "live"}; }

    bool open() {
        Status s = DB::open(&db, path, cfg);
        if (!s.ok()) { viol("open-failed", "open = " + stname(s)); return false; }
        if (trace > 1) db->setLogLevel(trace);
        return true;
    }
    void closeIts() { for (auto& i : its) i->it.close(); its.clear(); }
    void closeSnaps() { for (auto& s : snaps) DB::close(s.db); snaps.clear(); }
    bool reopen() {
        note("reopen");
        closeIts();
        closeSnaps();
        Status s = DB::close(db);
        db = nullptr;
        if (!s.ok()) viol("close-failed", "close = " + stname(s));
        if (r.chance(30)) { jungle::shutdown(); initGlobal(r, false); }
        if (r.chance(50)) {
            static const uint32_t ents[] = {1, 2, 5, 11, 30, 100, 16384};
            cfg.maxEntriesInLogFile = ents[r(7)];
            cfg.useBloomFilterForGet = r.chance(70);
            cfg.fastIndexScan = r.chance(30);
            cfg.maxL0TableSize = 2000 << r(6);
            cfg.maxL1TableSize = 3000 << r(6);
        }
        count("reopens");
        if (!open()) return false;
        checkListed("reopening");
        uint64_t sn = 0;
        s = db->getMaxSeqNum(sn);
        if (m.maxSeq && (!s.ok() || sn != m.maxSeq))
            viol("seq-lost", fmt("after reopen the last sequence number is %s %llu, expected %llu", stname(s).c_str(), (unsigned long long)sn, (unsigned long long)m.maxSeq));
        return true;
    }

    void expectOk(const Status& s, const char* what) {
        if (!s.ok()) viol(fmt("%s-refused", what), fmt("%s = %s", what, stname(s).c_str()));
    }
    uint64_t nextSeq() { return m.maxSeq + 1; }
    void confirmSeq(uint64_t want) {
        uint64_t sn = 0;
        Status s = db->getMaxSeqNum(sn);
        if (!s.ok() || sn != want) viol("seq-number", fmt("last sequence number is %s %llu after a write, expected %llu", stname(s).c_str(), (unsigned long long)sn, (unsigned long long)want));
    }

    void write() {
        count("writes");
        MRec x;
        x.key = gen.key();
        x.del = r.chance(25);
        x.seq = nextSeq();
        int kind = r(8);
        if (kind == 7) {   // batch
            std::list<Record> b;
            std::deque<MRec> recs;
            size_t n = 1 + r(r.chance(80) ? 6 : 60);
            bool custom = r.chance(30);
            uint64_t sq = m.maxSeq;
            for (size_t i = 0; i < n; ++i) {
                MRec y;
                y.key = gen.key();
                y.del = r.chance(25);
                y.val = y.del ? "" : gen.value();
                y.meta = gen.meta();
                sq += custom ? 1 + r(5) : 1;
                y.seq = sq;
                recs.push_back(y);
            }
            for (auto& y : recs) {
                Record rec;
                rec.kv.key = SB(y.key);
                if (!y.del) rec.kv.value = SB(y.val);
                if (!y.meta.empty()) rec.meta = SB(y.meta);
                rec.type = y.del ? Record::DELETION : Record::INSERTION;
                if (custom) rec.seqNum = y.seq;
                b.push_back(rec);
            }
            note(fmt("batch(%zu%s)", n, custom ? ",sn" : ""));
            Status s = db->setRecordBatch(b);
            expectOk(s, "batch");
            if (s.ok()) for (auto& y : recs) m.put(y);
            confirmSeq(m.maxSeq);
            count("batches");
            return;
        }
        Status s;
        bool custom = false;
        if (x.del) {
            if (kind < 4) { note("del"); s = db->del(SB(x.key)); }
            else if (kind == 4) { custom = true; x.seq += r(3); note(fmt("delSN(%llu)", (unsigned long long)x.seq)); s = db->delSN(x.seq, SB(x.key)); }
            else {
                x.meta = gen.meta();
                Record rec;
                rec.kv.key = SB(x.key);
                if (!x.meta.empty()) rec.meta = SB(x.meta);
                if (kind == 5) { custom = true; x.seq += r(3); rec.seqNum = x.seq; }
                note("delRecord");
                s = db->delRecord(rec);
            }
        } else {
            x.val = gen.value();
            KV kv(SB(x.key), SB(x.val));
            if (kind < 4) { note("set"); s = db->set(kv); }
            else if (kind == 4) { custom = true; x.seq += r(3); note(fmt("setSN(%llu)", (unsigned long long)x.seq)); s = db->setSN(x.seq, kv); }
            else {
                x.meta = gen.meta();
                Record rec;
                rec.kv = kv;
                if (!x.meta.empty()) rec.meta = SB(x.meta);
                if (kind == 5) { custom = true; x.seq += r(3); rec.seqNum = x.seq; note("setRecord"); s = db->setRecord(rec); }
                else { note("setRecordByKey"); s = db->setRecordByKey(rec); }
            }
        }
        expectOk(s, "write");
        if (s.ok()) {
            m.put(x);
            confirmSeq(x.seq);
            if (g_focus == "get" || r.chance(20)) mon.point(view(), x.key);
        }
    }

    // Maintenance may only decline for having nothing to do
    void done(const Status& s, const char* what) {
        std::string n = stname(s);
        if (s.ok() || (strcmp(what, "compact_l0") && (n == "INVALID_LEVEL" || n == "TABLE_NOT_FOUND"))) return;
        if (!strcmp(what, "split") && n == "COMPACTION_CANCELLED") return;   // too few records for two tables
        viol(std::string(what) + "-failed", std::string(what) + " = " + n);
    }
    void maintain() {
        Status s;
        jungle::CompactOptions co;
        co.ignoreThreshold = r.chance(70);
        co.preserveTombstone = r.chance(15);
        int k = r(100);
        if (k < 20) {
            bool f = r.chance(30);
            note(fmt("sync(%d)", f));
            s = r.chance(80) ? db->sync(f) : db->syncNoWait(f);
            expectOk(s, "sync");
            count("syncs");
            uint64_t sn = 0;
            s = db->getLastSyncedSeqNum(sn);
            if (m.maxSeq && (!s.ok() || sn != m.maxSeq)) {
                uint64_t fl = 0;
                Status fs = db->getLastFlushedSeqNum(fl);
                if (!(fs.ok() && fl >= m.maxSeq))
                    viol("sync-seq", fmt("after sync the last synced number is %s %llu, expected %llu", stname(s).c_str(), (unsigned long long)sn, (unsigned long long)m.maxSeq));
            }
        } else if (k < 45) {
            jungle::FlushOptions fo;
            fo.beyondLastSync = r.chance(50);
            if (r.chance(20)) fo.numFilesLimit = 1 + r(4);
            uint64_t upto = r.chance(25) && m.maxSeq ? 1 + r(m.maxSeq) : (uint64_t)-1;
            checkListed("writes and syncs");
            note(fmt("flush(%d,%u,%lld)", fo.beyondLastSync, fo.numFilesLimit, (long long)upto));
            s = db->flushLogs(fo, upto);
            if (s.ok()) count("flushes");
            else count("flush_other_" + stname(s));
            if (!s.ok() && s != Status::ALREADY_FLUSHED && s != Status::LOG_NOT_SYNCED) viol("flush-failed", "flushLogs = " + stname(s));
            checkListed("a flush");
            uint64_t fl = 0;
            Status fs = db->getLastFlushedSeqNum(fl);
            if (upto == (uint64_t)-1 && !fo.numFilesLimit && m.maxSeq) {
                uint64_t want = 0;
                if (fo.beyondLastSync) want = m.maxSeq;
                else if (!db->getLastSyncedSeqNum(want).ok()) want = 0;
                if (want && (!fs.ok() || fl < want))
                    viol("flush-incomplete", fmt("flush without limit = %s, but flushed up to %s %llu, expected %llu", stname(s).c_str(), stname(fs).c_str(), (unsigned long long)fl, (unsigned long long)want));
                else count("complete_flushes");
            }
            if (fs.ok()) {
                count("flushed_seq_read");
                if (fl > m.maxSeq) viol("flush-seq", fmt("flushed up to %llu, but only %llu was written", (unsigned long long)fl, (unsigned long long)m.maxSeq));
            }
        } else if (k < 63) {
            uint32_t h = r(cfg.numL0Partitions);
            note(fmt("compactL0(%u)", h));
            s = db->compactL0(co, h);
            kept.clear();
            count(s.ok() ? "compact_l0" : "compact_l0_" + stname(s));
            done(s, "compact_l0");
        } else if (k < 73) {
            size_t lv = 1 + r(3);
            note(fmt("compactLevel(%zu)", lv));
            s = db->compactLevel(co, lv);
            count(s.ok() ? "compact_level" : "compact_level_" + stname(s));
            done(s, "compact_level");
        } else if (k < 83) {
            size_t lv = 1 + r(3);
            note(fmt("compactInplace(%zu)", lv));
            s = db->compactInplace(co, lv);
            count(s.ok() ? "compact_inplace" : "compact_inplace_" + stname(s));
            done(s, "compact_inplace");
        } else if (k < 92) {
            size_t lv = 1 + r(2);
            note(fmt("split(%zu)", lv));
            s = db->splitLevel(co, lv);
            count(s.ok() ? "split" : "split_" + stname(s));
            done(s, "split");
        } else {
            size_t lv = 1 + r(2);
            note(fmt("merge(%zu)", lv));
            s = db->mergeLevel(co, lv);
            count(s.ok() ? "merge" : "merge_" + stname(s));
            done(s, "merge");
        }
    }

    // ---- iterators ----
    std::string lowKey() { return gen.probe(); }

    std::unique_ptr<ItrMon> newKeyItr(const View& v) {
        std::unique_ptr<ItrMon> p(new ItrMon());
        p->what = fmt("%s key iterator", v.what);
        std::string a, b;
        bool ha = r.chance(40), hb = r.chance(40);
        if (ha) a = gen.probe();
        if (hb) b = gen.probe();
        Less lt{opt.cmp};
        if (ha && hb && lt(b, a)) std::swap(a, b);
        Status s = p->it.init(v.db, ha ? SB(a) : SizedBuf(), hb ? SB(b) : SizedBuf());
        if (!s.ok()) { viol("itr-init", fmt("%s: init = %s", v.what, stname(s).c_str())); return nullptr; }
        for (auto* x : m.live(v.asof)) {
            if (ha && lt(x->key, a)) continue;
            if (hb && lt(b, x->key)) continue;
            p->exp.push_back(*x);
        }
        p->what += fmt(" [%s,%s] of %zu", ha ? printable(a).c_str() : "", hb ? printable(b).c_str() : "", p->exp.size());
        count("key_iterators");
        mon.atCursor(p->it, p->exp.empty() ? nullptr : &p->exp[0], p->what.c_str(), "first");
        if (p->exp.empty()) p->known = false;
        return p;
    }
    // One random step; false when it went wrong
    bool stepKey(ItrMon& i) {
        if (i.exp.empty()) {
            Status s = r.chance(50) ? i.it.next() : i.it.prev();
            if (s.ok()) {
                Record rec;
                Record::Holder h(rec);
                if (i.it.get(rec).ok()) { viol("itr-extra", i.what + ": an empty range shows " + printable(str(rec.kv.key))); return false; }
            }
            return true;
        }
        Less lt{opt.cmp};
        int k = i.known ? r(10) : 6 + r(4);
        Status s;
        count("iterator_steps");
        if (k < 6) {
            bool fwd = k < 3;
            i.did(fwd ? "next" : "prev");
            int np = i.pos + (fwd ? 1 : -1);
            s = fwd ? i.it.next() : i.it.prev();
            if (np < 0 || np >= (int)i.exp.size()) {
                if (s.ok()) { viol("itr-past-end", fmt("%s: %s from the %s entry succeeded", i.what.c_str(), fwd ? "next" : "prev", fwd ? "last" : "first")); return false; }
                i.known = false;
                return true;
            }
            if (!s.ok()) {
                viol("itr-stops", fmt("%s: %s at %d of %zu = %s, expected %s", i.what.c_str(), fwd ? "next" : "prev", i.pos, i.exp.size(), stname(s).c_str(), printable(i.exp[np].key).c_str()));
                return false;
            }
            i.pos = np;
            return mon.atCursor(i.it, &i.exp[np], i.what.c_str(), fmt("%s to %d", fwd ? "next" : "prev", np));
        }
        if (k == 6 || k == 7) {
            bool end = k == 7;
            i.did(end ? "end" : "begin");
            s = end ? i.it.gotoEnd() : i.it.gotoBegin();
            if (!s.ok()) { viol("itr-goto", fmt("%s: goto%s = %s", i.what.c_str(), end ? "End" : "Begin", stname(s).c_str())); return false; }
            i.pos = end ? i.exp.size() - 1 : 0;
            i.known = true;
            return mon.atCursor(i.it, &i.exp[i.pos], i.what.c_str(), end ? "gotoEnd" : "gotoBegin");
        }
        bool greater = k == 8;
        std::string key = r.chance(40) ? r.pick(i.exp).key : gen.probe();
        int want = -1;
        if (greater) { for (size_t x = 0; x < i.exp.size(); ++x) if (!lt(i.exp[x].key, key)) { want = x; break; } }
        else for (size_t x = i.exp.size(); x--;) if (!lt(key, i.exp[x].key)) { want = x; break; }
        i.did((greater ? ">=" : "<=") + printable(key, 12));
        s = i.it.seek(SB(key), greater ? Iterator::GREATER : Iterator::SMALLER);
        count("seeks");
        if (want < 0) { i.known = false; return true; }   // nothing in that direction: position not specified
        i.known = true;
        i.pos = want;
        if (!s.ok()) { viol("itr-seek", fmt("%s: seek = %s", i.what.c_str(), stname(s).c_str())); return false; }
        return mon.atCursor(i.it, &i.exp[want], i.what.c_str(), fmt("seek %s %s", greater ? ">=" : "<=", printable(key).c_str()));
    }
    void fullScan(const View& v) {
        Iterator it;
        Status s = it.init(v.db);
        if (!s.ok()) { viol("itr-init", fmt("%s: init = %s", v.what, stname(s).c_str())); return; }
        auto exp = m.live(v.asof);
        count("full_scans");
        bool back = r.chance(40);
        if (back) it.gotoEnd();
        if (exp.empty()) { mon.atCursor(it, nullptr, v.what, "full scan"); it.close(); return; }
        for (size_t i = 0; i < exp.size(); ++i) {
            const MRec* w = exp[back ? exp.size() - 1 - i : i];
            if (!mon.atCursor(it, w, v.what, fmt("full %s scan at %zu of %zu", back ? "backward" : "forward", i, exp.size()))) break;
            s = back ? it.prev() : it.next();
            if (s.ok() != (i + 1 < exp.size())) {
                viol(s.ok() ? "itr-past-end" : "itr-stops", fmt("%s: full %s scan: step %zu of %zu = %s", v.what, back ? "backward" : "forward", i + 1, exp.size(), stname(s).c_str()));
                break;
            }
        }
        it.close();
    }

    std::unique_ptr<ItrMon> newSeqItr(const View& v, uint64_t flushed) {
        std::unique_ptr<ItrMon> p(new ItrMon());
        p->bySeq = true;
        uint64_t lo = (uint64_t)-1, hi = (uint64_t)-1;
        if (r.chance(40)) lo = r(m.maxSeq + 3);
        if (r.chance(40)) hi = (lo == (uint64_t)-1 ? 0 : lo) + r(m.maxSeq + 3);
        p->what = fmt("%s seq iterator [%lld,%lld]", v.what, (long long)lo, (long long)hi);
        Status s = p->it.initSN(v.db, lo, hi);
        if (!opt.seqIdx) {
            if (s != Status::SEQINDEX_UNAVAILABLE) viol("seq-unavailable", "initSN without the index = " + stname(s));
            return nullptr;
        }
        if (!s.ok()) { viol("seq-init", fmt("%s: initSN = %s", v.what, stname(s).c_str())); return nullptr; }
        uint64_t l = lo == (uint64_t)-1 ? 0 : lo;
        for (auto e = m.m.begin(); e != m.m.end(); ++e) {
            const MRec* top = m.at(e, v.asof);
            for (auto& x : e->second) {
                if (x.seq > v.asof || x.seq < l || x.seq > hi) continue;
                p->may[x.seq] = x;
                if ((&x == top && !x.del) || x.seq > flushed) p->must.insert(x.seq);
            }
        }
        count("seq_iterators");
        countMax("seq_must", p->must.size());
        p->known = false;
        // cursor at the start
        arrive(*p, 0, true, "first");
        return p;
    }
    // The cursor moved to the nearest entry above (below) `from` (exclusive)
    bool arrive(ItrMon& i, uint64_t from, bool fwd, const std::string& how) {
        Record rec;
        Record::Holder h(rec);
        Status s = i.it.get(rec);
        auto nextMust = fwd ? i.must.upper_bound(from) : i.must.lower_bound(from);
        bool has = fwd ? nextMust != i.must.end() : nextMust != i.must.begin();
        uint64_t mustSeq = 0;
        if (has) mustSeq = fwd ? *nextMust : *--nextMust;
        count("seq_gets");
        if (!s.ok()) {
            i.known = false;
            if (has) { viol("seq-missing", fmt("%s: %s: get = %s, expected at least %llu", i.what.c_str(), how.c_str(), stname(s).c_str(), (unsigned long long)mustSeq)); return false; }
            return true;
        }
        uint64_t q = rec.seqNum;
        auto e = i.may.find(q);
        if (e == i.may.end()) { viol("seq-ghost", fmt("%s: %s: shows %llu, which is no record in its range", i.what.c_str(), how.c_str(), (unsigned long long)q)); return false; }
        if (!mon.same(rec, e->second)) { viol("seq-wrong", fmt("%s: %s: record %llu differs: key %s value %s, expected %s %s", i.what.c_str(), how.c_str(), (unsigned long long)q, printable(str(rec.kv.key)).c_str(), printable(str(rec.kv.value), 24).c_str(), printable(e->second.key).c_str(), show(&e->second).c_str())); return false; }
        if (fwd ? q <= from : q >= from) { viol("seq-order", fmt("%s: %s: at %llu after %llu", i.what.c_str(), how.c_str(), (unsigned long long)q, (unsigned long long)from)); return false; }
        if (has && (fwd ? q > mustSeq : q < mustSeq)) { viol("seq-skipped", fmt("%s: %s: at %llu, skipped %llu", i.what.c_str(), how.c_str(), (unsigned long long)q, (unsigned long long)mustSeq)); return false; }
        i.cur = q;
        i.known = true;
        return true;
    }
    bool stepSeq(ItrMon& i) {
        if (i.must.empty()) return true;
        count("seq_steps");
        int k = i.known ? r(10) : 6 + r(4);
        Status s;
        if (k < 6) {
            bool fwd = k < 3;
            uint64_t from = i.cur;
            i.did(fwd ? "next" : "prev");
            s = fwd ? i.it.next() : i.it.prev();
            auto nm = fwd ? i.must.upper_bound(from) : i.must.lower_bound(from);
            bool has = fwd ? nm != i.must.end() : nm != i.must.begin();
            if (!s.ok()) {
                i.known = false;
                if (has) { viol("seq-stops", fmt("%s: %s from %llu = %s, but there is more", i.what.c_str(), fwd ? "next" : "prev", (unsigned long long)from, stname(s).c_str())); return false; }
                return true;
            }
            return arrive(i, from, fwd, fwd ? "next" : "prev");
        }
        if (k == 6) {
            i.did("begin");
            s = i.it.gotoBegin();
            if (!s.ok()) { viol("seq-goto", i.what + ": gotoBegin = " + stname(s)); return false; }
            return arrive(i, 0, true, "first");
        }
        if (k == 7) {
            i.did("end");
            s = i.it.gotoEnd();
            if (!s.ok()) { viol("seq-goto", i.what + ": gotoEnd = " + stname(s)); return false; }
            return arrive(i, UINT64_MAX, false, "gotoEnd");
        }
        bool greater = k == 8;
        uint64_t q = r(m.maxSeq + 2);
        bool has = greater ? i.must.lower_bound(q) != i.must.end() : !i.must.empty() && *i.must.begin() <= q;
        i.did(fmt("%s%llu", greater ? ">=" : "<=", (unsigned long long)q));
        s = i.it.seekSN(q, greater ? Iterator::GREATER : Iterator::SMALLER);
        count("seq_seeks");
        if (!has) { i.known = false; return true; }
        if (!s.ok()) { viol("seq-seek", i.what + ": seekSN = " + stname(s)); return false; }
        return arrive(i, greater ? (q ? q - 1 : 0) : q + 1, greater, fmt("seekSN %s %llu", greater ? ">=" : "<=", (unsigned long long)q));
    }

    // ---- nearest, prefix ----
    void nearest(const View& v) {
        static const SearchOptions::Options os[] = {SearchOptions::GREATER_OR_EQUAL, SearchOptions::GREATER, SearchOptions::SMALLER_OR_EQUAL, SearchOptions::SMALLER};
        int o = r(4);
        std::string k = gen.probe();
        Record rec;
        Record::Holder h(rec);
        Status s = v.db->getNearestRecordByKey(SB(k), rec, os[o]);
        count("nearest");
        Less lt{opt.cmp};
        bool gr = o < 2, eq = o == 0 || o == 2;
        auto rel = [&](const std::string& x) {
            if (!lt(x, k) && !lt(k, x)) return eq;
            return gr ? lt(k, x) : lt(x, k);
        };
        // the nearest live one
        const MRec* want = nullptr;
        for (auto* x : m.live(v.asof)) if (rel(x->key)) { if (gr) { want = x; break; } want = x; }
        std::string desc = fmt("%s: nearest %s%s %s", v.what, gr ? ">" : "<", eq ? "=" : "", printable(k).c_str());
        if (!s.ok()) {
            if (want) viol("near-missing", fmt("%s = %s, expected %s %s", desc.c_str(), stname(s).c_str(), printable(want->key).c_str(), show(want).c_str()));
            else if (s != Status::KEY_NOT_FOUND) viol("near-status", desc + " = " + stname(s));
            return;
        }
        std::string got = str(rec.kv.key);
        const MRec* x = m.at(got, v.asof);
        if (!x || !mon.same(rec, *x)) {
            viol("near-stale", fmt("%s = %s seq %llu type %d value %s, but that key is %s", desc.c_str(), printable(got).c_str(), (unsigned long long)rec.seqNum, rec.type, printable(str(rec.kv.value), 24).c_str(), show(x).c_str()));
            return;
        }
        if (!rel(got)) { viol("near-side", fmt("%s = %s", desc.c_str(), printable(got).c_str())); return; }
        if (want && (gr ? lt(want->key, got) : lt(got, want->key)))
            viol("near-far", fmt("%s = %s, but %s is nearer", desc.c_str(), printable(got).c_str(), printable(want->key).c_str()));
        if (x->del) count("nearest_tombstones");
        else count("nearest_live");
    }
    void prefix(const View& v) {
        if (opt.cmp != BYTES) return;
        std::string k = gen.probe();
        size_t minLen = 1;
        if (cfg.customLenForHash) minLen = 1;
        k = k.substr(0, std::min(k.size(), minLen + r(6)));
        std::vector<Record> got;
        size_t stopAt = r.chance(30) ? 1 + r(4) : SIZE_MAX;
        Status s = v.db->getRecordsByPrefix(SB(k), [&](const jungle::SearchCbParams& p) {
            Record c;
            p.rec.copyTo(c);
            got.push_back(c);
            return got.size() >= stopAt ? jungle::STOP : jungle::NEXT;
        });
        count("prefix_searches");
        std::set<std::string> seenKeys;
        std::string desc = fmt("%s: prefix %s", v.what, printable(k).c_str());
        for (auto& rec : got) {
            std::string key = str(rec.kv.key);
            if (key.compare(0, k.size(), k)) { viol("prefix-other", desc + " delivered " + printable(key)); continue; }
            const MRec* x = m.bySeqNum(rec.seqNum);
            if (!x || x->seq > v.asof || !mon.same(rec, *x)) {
                viol("prefix-ghost", fmt("%s delivered %s seq %llu, no record of the state it must show", desc.c_str(), printable(key).c_str(), (unsigned long long)rec.seqNum));
                continue;
            }
            if (seenKeys.insert(key).second && x != m.at(key, v.asof))
                viol("prefix-stale", fmt("%s delivered %s seq %llu first, but its latest is %s", desc.c_str(), printable(key).c_str(), (unsigned long long)rec.seqNum, show(m.at(key, v.asof)).c_str()));
        }
        bool stopped = got.size() >= stopAt;
        if (got.size() > stopAt) viol("prefix-stop", desc + " went on after it was told to stop");
        bool any = false;
        if (!stopped)
            for (auto* x : m.live(v.asof))
                if (!x->key.compare(0, k.size(), k)) {
                    any = true;
                    if (!seenKeys.count(x->key)) viol("prefix-missing", fmt("%s (= %s) did not deliver %s %s", desc.c_str(), stname(s).c_str(), printable(x->key).c_str(), show(x).c_str()));
                }
        if (!s.ok() && (any || stopped || !got.empty())) viol("prefix-status", fmt("%s = %s after %zu records", desc.c_str(), stname(s).c_str(), got.size()));
        if (s.ok() && got.empty()) viol("prefix-status", desc + " = OK without a record");
        count("prefix_records", got.size());
        for (auto& rec : got) rec.free();
    }

    // ---- snapshots ----
    void openSnap() {
        if (snaps.size() >= 3) return;
        DB* s = nullptr;
        uint64_t chk = 0;
        if (r.chance(40)) {
            std::list<uint64_t> l;
            if (db->getCheckpoints(l).ok() && !l.empty()) {
                std::vector<uint64_t> v(l.begin(), l.end());
                chk = r.pick(v);
                if (l.size() > cfg.maxKeepingCheckpoints) viol("chk-many", fmt("%zu checkpoints listed, limit %u", l.size(), cfg.maxKeepingCheckpoints));
            }
        }
        note(fmt("openSnapshot(%llu)", (unsigned long long)chk));
        Status st = db->openSnapshot(&s, chk);
        if (!st.ok()) {
            if (chk) viol("snap-chk-open", fmt("listed checkpoint %llu does not open: %s", (unsigned long long)chk, stname(st).c_str()));
            else viol("snap-open", "openSnapshot = " + stname(st));
            return;
        }
        uint64_t fl = m.maxSeq;
        if (!db->getLastFlushedSeqNum(fl).ok()) fl = 0;
        count(chk ? "checkpoint_snapshots" : "snapshots");
        snaps.push_back(Snap{s, chk ? chk : m.maxSeq, chk ? m.maxSeq : fl});
    }
    void checkpoint() {
        uint64_t sn = 0;
        note("checkpoint");
        uint64_t fl = 0;
        bool allFlushed = db->getLastFlushedSeqNum(fl).ok() && fl >= m.maxSeq;
        Status s = db->checkpoint(sn, r.chance(30));
        if (!m.maxSeq) return;
        expectOk(s, "checkpoint");
        if (s.ok() && sn != m.maxSeq) viol("chk-seq", fmt("checkpoint = %llu, expected %llu", (unsigned long long)sn, (unsigned long long)m.maxSeq));
        count("checkpoints");
        checkListed("checkpoint()");
        std::list<uint64_t> l;
        s = db->getCheckpoints(l);
        if (!s.ok() || std::find(l.begin(), l.end(), sn) != l.end()) return;
        if (!allFlushed) viol("chk-unlisted", fmt("checkpoint %llu is not listed", (unsigned long long)sn));
        else if (g_focus == "snap") {
            // Known: goes on, the rest of the run is worth watching
            softViol("chk-unlisted-flushed", fmt("checkpoint %llu is not listed; everything had been flushed to tables before", (unsigned long long)sn));
        }
    }

    // What was listed once stays listed until newer ones take its place or L0
    // tables are compacted (documented: only log files and L0 hold checkpoints).
    void checkListed(const char* when) {
        std::list<uint64_t> l;
        if (g_focus != "snap" || !db->getCheckpoints(l).ok()) return;
        size_t n = 0;
        for (auto i = kept.rbegin(); i != kept.rend() && n + 2 < cfg.maxKeepingCheckpoints; ++i, ++n) {
            if (std::find(l.begin(), l.end(), *i) == l.end())
                viol("chk-lost", fmt("checkpoint %llu was listed before, but is not any more after %s (%zu newer ones, limit %u)", (unsigned long long)*i, when, n, cfg.maxKeepingCheckpoints));
            else count("checkpoints_still_listed");
        }
        for (uint64_t x : l) {
            kept.insert(x);
            if (x > m.maxSeq) viol("chk-unknown", fmt("checkpoint %llu is listed, but the last sequence number is %llu", (unsigned long long)x, (unsigned long long)m.maxSeq));
        }
    }

    View anyView() {
        if (!snaps.empty() && r.chance(g_focus == "snap" ? 75 : 30)) { auto& s = snaps[r(snaps.size())]; return View{s.db, s.asof, "snapshot"}; }
        return view();
    }
    void look() {
        View v = anyView();
        if (g_focus == "get") { for (int i = 0; i < 4; ++i) mon.point(v, gen.probe()); return; }
        if (g_focus == "iter") {
            if (its.size() < 3 && r.chance(50)) { auto p = newKeyItr(v); if (p) its.push_back(std::move(p)); }
            for (auto& i : its) for (int k = 0; k < 6; ++k) if (!stepKey(*i)) break;
            return;
        }
        if (g_focus == "seq") {
            uint64_t fl = v.asof;
            if (v.db == db) { if (!db->getLastFlushedSeqNum(fl).ok()) fl = 0; }
            else for (auto& s : snaps) if (s.db == v.db) fl = s.flushed;
            if (its.size() < 3 && r.chance(50)) { auto p = newSeqItr(v, fl); if (p) its.push_back(std::move(p)); }
            for (auto& i : its) for (int k = 0; k < 6; ++k) if (!stepSeq(*i)) break;
            return;
        }
        if (g_focus == "near") { for (int i = 0; i < 4; ++i) nearest(v); prefix(v); return; }
        if (g_focus == "snap") {
            for (int i = 0; i < 3; ++i) mon.point(v, gen.key());
            if (r.chance(40)) fullScan(v);
            return;
        }
        if (r.chance(50)) mon.point(v, gen.key());
    }
    void lookAll(const View& v) {
        if (g_focus == "get" || g_focus == "snap" || g_focus == "comp") for (auto& k : gen.keys) mon.point(v, k);
        if (g_focus == "iter" || g_focus == "snap" || g_focus == "comp") fullScan(v);
        if (g_focus == "near") for (int i = 0; i < 20; ++i) { nearest(v); prefix(v); }
        if (g_focus == "seq" && opt.seqIdx) {
            uint64_t fl = v.asof;
            if (v.db == db) { if (!db->getLastFlushedSeqNum(fl).ok()) fl = 0; }
            else for (auto& s : snaps) if (s.db == v.db) fl = s.flushed;
            auto p = newSeqItr(v, fl);
            if (p) { for (int i = 0; i < 200 && stepSeq(*p); ++i) {} p->it.close(); }
        }
    }
    void dropSome() {
        if (!its.empty() && r.chance(30)) { size_t i = r(its.size()); its[i]->it.close(); its.erase(its.begin() + i); }
        if (!snaps.empty() && r.chance(15)) {
            size_t i = r(snaps.size());
            // iterators over it must not outlive it
            closeIts();
            DB::close(snaps[i].db);
            snaps.erase(snaps.begin() + i);
        }
    }
};

void run(uint64_t seed, size_t ops) {
    Rng r(seed);
    Opt o;
    DBConfig c = randomConfig(r, o);
    initGlobal(r, false);
    jungle::DebugParams dp;
    dp.forceMerge = r.chance(50);
    if (r.chance(20)) dp.disruptSplit = true;
    DB::setDebugParams(dp);
    size_t nkeys = r.chance(60) ? 3 + r(40) : 100 + r(400);
    std::string path = st().scratch + fmt("/db%llu", (unsigned long long)seed);
    World w(r, o, c, nkeys, path);
    st().context = o.text;
    if (w.open()) {
        int wr = 50 + r(45), mt = 3 + r(15);
        size_t viol0 = st().violKeys.size();
        for (size_t i = 0; i < ops && st().violKeys.size() == viol0; ++i) {
            int k = r(100);
            if (k < wr) w.write();
            else if (k < wr + mt) w.maintain();
            else if (k < wr + mt + 1) w.checkpoint();
            else if (k < wr + mt + 2) w.openSnap();
            else { w.look(); w.dropSome(); }
            if (every) for (auto& k : w.gen.keys) w.mon.point(w.view(), k);
            if (r((size_t)400) == 0 && !w.reopen()) break;
            if (r((size_t)150) == 0) { w.lookAll(w.view()); seen(w.m.hash(w.m.maxSeq) ^ seed); count("full_looks"); }
        }
        if (w.db && st().violKeys.size() == viol0) {
            for (auto& s : w.snaps) { w.lookAll(View{s.db, s.asof, "snapshot"}); count("full_looks"); }
            w.lookAll(w.view());
            if (st().violKeys.size() == viol0 && w.reopen()) w.lookAll(w.view());
        }
        w.closeIts();
        w.closeSnaps();
        if (w.db) DB::close(w.db);
        seen(w.m.hash(w.m.maxSeq) ^ seed);
    }
    jungle::shutdown();
    count("runs");
    if (trace < 2) rmtree(path);
}
}  // namespace

int main(int argc, char** argv) {
    init(argc, argv);
    g_focus = arg("focus", "get");
    trace = argn("trace", 0);
    every = argn("every", 0);
    size_t runs = argn("runs", 20), ops = argn("ops", 600);
    uint64_t only = argn("only", 0);
    Rng r(st().seed);
    for (size_t i = 0; i < runs; ++i) {
        uint64_t s = r.next() >> 20;
        if (only && s != only) continue;
        if (trace) printf("# run %llu\n", (unsigned long long)s);
        run(s, ops);
        if (!st().violKeys.empty()) { printf("# stopped at run seed %llu\n", (unsigned long long)s); break; }
    }
    return finish();
}
