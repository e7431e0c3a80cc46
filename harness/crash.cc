// Database, crashes: random operations, a crash at a random file event (of the process, or of the
// machine with unsynced data lost in several ways), recovery from the image in a fresh directory,
// comparison with the model, on to the next crash. The crash may hit recovery itself.
#include "dbx.h"
using namespace dbx;

namespace {
int trace;
bool beyond, only_power, tables;
void drop(const std::string& p) { if (trace < 2) rmtree(p); }

struct World {
    Rng& r;
    Opt opt;
    DBConfig cfg;
    Model m;
    Gen gen;
    Monitors mon;
    std::string base, path;
    DB* db = nullptr;
    std::set<uint64_t> unitEnd;        // sequence numbers at which a write or a whole batch ends
    std::deque<std::string> last;
    bool workers = false;

    // Read by the hook
    std::atomic<uint64_t> issued{0}, ackProc{0}, ackPower{0}, tried{0};
    int mode = 0;                      // 0 crashes of the process only, 1 every sync is an fsync, 2 anything
    std::atomic<int64_t> fuse{0};      // events until the crash
    std::atomic<bool> crashed{false};
    struct Img { std::string path, what; uint64_t low, high; bool relaxed; };
    std::vector<Img> imgs;
    std::string at;
    uint64_t nimg = 0;
    Rng hookRng;

    World(Rng& rr, Opt o, DBConfig c, size_t nkeys, const std::string& b)
        : r(rr), opt(o), cfg(c), m(o.cmp), gen(rr, nkeys), base(b), hookRng(rr.next()) {
        mon.m = &m;
        mon.opt = o;
        mon.r = &rr;
        path = base + "/0";
    }
    void note(const std::string& s) {
        last.push_back(s);
        if (last.size() > 30) last.pop_front();
        std::string c = opt.text + "; ops:";
        for (auto& x : last) c += " " + x + ";";
        st().context = c;
        if (trace) { printf("# %s\n", s.c_str()); fflush(stdout); }
    }
    void hook(const fsx::Event& e) {
        if (trace >= 7) printf("#   %d %s off %llu len %llu\n", (int)e.kind, e.path.substr(path.size()).c_str(), (unsigned long long)e.off, (unsigned long long)e.len);
        if (crashed || fuse <= 0) return;
        if (--fuse > 0) return;
        crash(e);
    }
    void crash(const fsx::Event& e) {
        crashed = true;
        static const char* kn[] = {"open", "write", "read", "fsync", "truncate", "unlink", "rename", "close"};
        at = fmt("before %s of %s at %llu", kn[e.kind], e.path.substr(path.size()).c_str(), (unsigned long long)e.off);
        count(fmt("crash_before_%s", kn[e.kind]));
        std::string f = e.path.substr(path.size());
        bool mani = f.find("_manifest") != std::string::npos;
        count(fmt("crash_at_%s_%s", f.compare(0, 4, "/log") == 0 ? "log" : f.compare(0, 6, "/table") == 0 ? "table" : "other", mani ? "manifest" : "file"));
        size_t n = 1 + hookRng(3);
        bool proc = mode == 0 || (hookRng.chance(mode == 1 ? 25 : 45) && !only_power);
        if (proc) n = 1;
        for (size_t i = 0; i < n; ++i) {
            Img im;
            im.path = base + fmt("/%llu", (unsigned long long)++nimg);
            uint64_t dropped = 0;
            im.what = fsx::image(im.path, proc ? fsx::PROCESS : fsx::POWER, hookRng, &dropped);
            im.low = proc ? ackProc.load() : ackPower.load();
            im.high = issued;
            // Tables may hold part of what no log file holds for certain
            im.relaxed = (workers ? ackProc.load() : tried.load()) > im.low;
            if (dropped) count("images_with_lost_data");
            imgs.push_back(im);
        }
        count(proc ? "process_crashes" : "power_losses");
    }
    void arm(uint64_t events) {
        fsx::start(path);
        crashed = false;
        imgs.clear();
        fuse = events;
        fsx::onEvent([this](const fsx::Event& e) { hook(e); });
    }
    void ack(uint64_t s, bool power) {
        if (crashed) return;
        ackProc = std::max(ackProc.load(), s);
        if (power) ackPower = std::max(ackPower.load(), s);
    }

    void write() {
        size_t n = r.chance(85) ? 1 : 2 + r(r.chance(80) ? 8 : 60);
        bool custom = r.chance(25);
        uint64_t sq = m.maxSeq;
        std::vector<MRec> recs;
        std::list<Record> b;
        for (size_t i = 0; i < n; ++i) {
            MRec y;
            y.key = gen.key();
            y.del = r.chance(25);
            y.val = y.del ? "" : gen.value();
            y.meta = gen.meta();
            sq += custom ? 1 + r(4) : 1;
            y.seq = sq;
            recs.push_back(y);
        }
        for (auto& y : recs) {
            Record rec;
            rec.kv.key = SB(y.key);
            if (!y.del) rec.kv.value = SB(y.val);
            if (!y.meta.empty()) rec.meta = SB(y.meta);
            rec.type = y.del ? Record::DELETION : Record::INSERTION;
            if (custom) rec.seqNum = y.seq;
            b.push_back(rec);
        }
        note(fmt("%s..%llu", n == 1 ? "set" : "batch", (unsigned long long)sq));
        if (!crashed) issued = sq;
        Status s = n == 1 ? db->setRecord(b.front()) : db->setRecordBatch(b);
        if (!s.ok()) { viol("write-refused", "write = " + stname(s)); return; }
        for (auto& y : recs) m.put(y);
        unitEnd.insert(sq);
        count(n == 1 ? "writes" : "batches");
        uint64_t got = 0;
        s = db->getMaxSeqNum(got);
        if (!s.ok() || got != sq) viol("seq-number", fmt("last sequence number is %s %llu after a write, expected %llu", stname(s).c_str(), (unsigned long long)got, (unsigned long long)sq));
    }
    void maintain() {
        jungle::CompactOptions co;
        co.ignoreThreshold = r.chance(70);
        int k = r(100);
        if (!tables && k >= 35 && k < 93) k = r(35);
        Status s;
        if (k < 35) {
            bool f = mode == 1 || r.chance(50);
            note(fmt("sync(%d)", f));
            s = r.chance(85) ? db->sync(f) : db->syncNoWait(f);
            if (s.ok()) { ack(m.maxSeq, f); count(f ? "fsyncs" : "syncs"); }
            else if (!workers && !crashed) viol("sync-failed", "sync = " + stname(s));
        } else if (k < 58) {
            jungle::FlushOptions fo;
            fo.beyondLastSync = beyond && r.chance(50);
            if (r.chance(20)) fo.numFilesLimit = 1 + r(3);
            uint64_t upto = r.chance(30) && m.maxSeq ? 1 + r(m.maxSeq) : (uint64_t)-1;
            note(fmt("flush(%d,%u,%lld)", fo.beyondLastSync, fo.numFilesLimit, (long long)upto));
            tried = std::max(tried.load(), fo.beyondLastSync ? m.maxSeq : ackProc.load());
            s = db->flushLogs(fo, upto);
            if (s.ok()) count("flushes");
        } else if (k < 72) {
            uint32_t h = r(cfg.numL0Partitions);
            note(fmt("compactL0(%u)", h));
            if (db->compactL0(co, h).ok()) count("compactions");
        } else if (k < 79) {
            size_t lv = 1 + r(3);
            note(fmt("compactLevel(%zu)", lv));
            if (db->compactLevel(co, lv).ok()) count("compactions");
        } else if (k < 84) {
            size_t lv = 1 + r(3);
            note(fmt("compactInplace(%zu)", lv));
            if (db->compactInplace(co, lv).ok()) count("compactions");
        } else if (k < 89) {
            size_t lv = 1 + r(2);
            note(fmt("split(%zu)", lv));
            if (db->splitLevel(co, lv).ok()) count("splits");
        } else if (k < 93) {
            size_t lv = 1 + r(2);
            note(fmt("merge(%zu)", lv));
            if (db->mergeLevel(co, lv).ok()) count("merges");
        } else if (k < 97) {
            uint64_t sn = 0;
            bool f = mode == 1 || r.chance(50);
            note(fmt("checkpoint(%d)", f));
            s = db->checkpoint(sn, f);
            if (s.ok() && m.maxSeq) { ack(sn, f); count("checkpoints"); }
        } else {
            note("reopen");
            s = DB::close(db);
            db = nullptr;
            if (s.ok()) ack(m.maxSeq, true);
            if (r.chance(50)) vary();
            s = DB::open(&db, path, cfg);
            if (!s.ok()) { db = nullptr; if (!crashed) viol("open-failed", "open = " + stname(s)); }
            count("reopens");
        }
    }
    void vary() {
        static const uint32_t ents[] = {1, 2, 5, 11, 30, 100, 16384};
        cfg.maxEntriesInLogFile = ents[r(7)];
        cfg.maxL0TableSize = 2000 << r(6);
        cfg.maxL1TableSize = 3000 << r(6);
    }

    bool fine() { return st().violKeys.empty(); }
    // Tables were being filled with records no log file holds for certain: no loss of what was promised,
    // and nothing that never was, but the rest key by key.
    void relaxed(DB* d, const Img& im, const std::string& w) {
        count("relaxed_recoveries");
        for (auto& k : gen.keys) {
            Record rec;
            Record::Holder h(rec);
            Status s = d->getRecordByKey(SB(k), rec, false);
            const MRec* lo = m.at(k, im.low);
            bool ok = !s.ok() && (!lo || lo->del);
            auto e = m.m.find(k);
            if (e != m.m.end())
                for (auto& x : e->second)
                    if (x.seq <= im.high && (!lo || x.seq >= lo->seq)) {
                        if (s.ok() ? !x.del && mon.same(rec, x) : x.del) ok = true;
                    }
            if (!ok) {
                viol("crash-relaxed", fmt("%s: %s = %s seq %llu value %s, but durable is %s", w.c_str(), printable(k).c_str(), stname(s).c_str(), (unsigned long long)rec.seqNum, printable(str(rec.kv.value), 24).c_str(), show(lo).c_str()));
                break;
            }
            count("gets");
        }
    }
    // What recovery may leave, given the model. Returns the recovered sequence number.
    uint64_t verify(DB* d, const Img& im) {
        uint64_t s = 0;
        Status x = d->getMaxSeqNum(s);
        if (!x.ok()) s = 0;
        std::string w = fmt("after %s crash %s", im.what.c_str(), at.c_str());
        count("recoveries");
        if (im.relaxed) { relaxed(d, im, w); return s; }
        if (s < im.low) {
            viol("crash-lost", fmt("%s: recovered up to %s %llu, but %llu had been made durable", w.c_str(), stname(x).c_str(), (unsigned long long)s, (unsigned long long)im.low));
            return s;
        }
        if (s > im.high) {
            viol("crash-ghost", fmt("%s: recovered up to %llu, but only %llu had been written", w.c_str(), (unsigned long long)s, (unsigned long long)im.high));
            return s;
        }
        if (s && !m.bySeq.count(s)) {
            viol("crash-seq", fmt("%s: recovered up to %llu, which is no record", w.c_str(), (unsigned long long)s));
            return s;
        }
        if (s && !unitEnd.count(s)) {
            count("torn_batches");
            if (argn("torn", 0)) softViol(cfg.directIoOpt.enabled ? "crash-torn-batch-dio" : "crash-torn-batch", fmt("%s: recovered up to %llu, in the middle of a batch", w.c_str(), (unsigned long long)s));
        }
        if (s > im.low) count("recovered_more_than_promised");
        if (s < im.high) count("recovered_less_than_written");
        std::string name = w + fmt(" (durable %llu, recovered %llu, written %llu)", (unsigned long long)im.low, (unsigned long long)s, (unsigned long long)im.high);
        View v{d, s, name.c_str()};
        for (auto& k : gen.keys) mon.point(v, k);
        if (!fine()) return s;
        Iterator it;
        x = it.init(d);
        if (!x.ok()) { viol("itr-init", name + ": init = " + stname(x)); return s; }
        auto live = m.live(s);
        size_t i = 0;
        if (!live.empty()) do {
            if (!mon.atCursor(it, live[i], name.c_str(), fmt("scan at %zu of %zu", i, live.size()))) break;
            ++i;
            x = it.next();
            if (x.ok() != (i < live.size())) viol("itr-stops", fmt("%s: scan ended %s at %zu of %zu", name.c_str(), stname(x).c_str(), i, live.size()));
        } while (i < live.size() && x.ok());
        else mon.atCursor(it, nullptr, name.c_str(), "scan of an empty state");
        it.close();
        std::list<uint64_t> chks;
        if (d->getCheckpoints(chks).ok())
            for (uint64_t c : chks) {
                if (c > s) { viol("crash-chk-ghost", fmt("%s: checkpoint %llu is listed", name.c_str(), (unsigned long long)c)); break; }
                if (!argn("chk", 0) || !r.chance(30)) continue;
                DB* sn = nullptr;
                x = d->openSnapshot(&sn, c);
                if (!x.ok()) { viol("crash-chk-open", fmt("%s: listed checkpoint %llu does not open: %s", name.c_str(), (unsigned long long)c, stname(x).c_str())); break; }
                std::string cn = name + fmt(" checkpoint %llu", (unsigned long long)c);
                for (int j = 0; j < 20; ++j) mon.point(View{sn, c, cn.c_str()}, gen.key());
                DB::close(sn);
                count("checkpoints_recovered");
            }
        return s;
    }
    // Recovers all images; goes on with the last.
    bool recover() {
        std::string old = path;
        fsx::stop();
        if (db) DB::close(db);
        db = nullptr;
        drop(old);
        std::vector<Img> todo = imgs;
        std::string when = at;
        for (size_t i = 0; i < todo.size() && fine(); ++i) {
            Img im = todo[i];
            at = when;
            note(fmt("CRASH[%s; %s; durable %llu written %llu]", im.what.c_str(), at.c_str(), (unsigned long long)im.low, (unsigned long long)im.high));
            bool final = i + 1 == todo.size();
            path = im.path;
            for (int again = 0;; ++again) {
                // The crash may come during recovery, too
                bool second = final && again < 2 && r.chance(25);
                if (final) arm(second ? 1 + r(12) : 0);
                DB* d = nullptr;
                note("recover");
                Status s = DB::open(&d, path, cfg);
                if (second && crashed) {
                    count("crashes_in_recovery");
                    fsx::stop();
                    if (s.ok()) DB::close(d);
                    drop(path);
                    Img nx = imgs[0];
                    nx.low = im.low;
                    nx.high = im.high;
                    nx.relaxed = im.relaxed;
                    nx.what = im.what + ", again during recovery " + nx.what + " " + at;
                    for (size_t j = 1; j < imgs.size(); ++j) drop(imgs[j].path);
                    im = nx;
                    path = im.path;
                    note("CRASH in recovery " + at);
                    continue;
                }
                fuse = 0;
                if (!s.ok()) { viol("crash-open", fmt("after %s crash %s: open = %s", im.what.c_str(), at.c_str(), stname(s).c_str())); return false; }
                uint64_t got = verify(d, im);
                seen(hash64(at, m.hash(got)));
                if (!fine() || (final && im.relaxed)) { DB::close(d); return false; }
                if (!final) { DB::close(d); drop(path); break; }
                db = d;
                m.truncate(got);
                while (!unitEnd.empty() && *unitEnd.rbegin() > got) unitEnd.erase(std::prev(unitEnd.end()));
                unitEnd.insert(got);
                issued = got;
                // What was recovered after a machine crash is on disk. After a process crash it may still be in the page
                // cache: durable against the next process crash, and against a machine crash once synced again.
                ackProc = tried = got;
                if (im.what.compare(0, 5, "power") == 0) ackPower = got;
                break;
            }
        }
        return db != nullptr && fine();
    }
};

void run(uint64_t seed, size_t crashes) {
    Rng r(seed);
    Opt o;
    DBConfig c = randomConfig(r, o);
    if (argn("dio", 0) && !c.directIoOpt.enabled) {
        c.directIoOpt.enabled = true;
        if (c.maxLogFileSize < 20000) c.maxLogFileSize += 20000;
        c.directIoOpt.bufferSize = r.chance(70) ? 4096 : 16384;
        c.directIoOpt.alignSize = r.chance(60) ? 4096 : 512;
        o.text += fmt(" dio=%zu/%zu", c.directIoOpt.bufferSize, c.directIoOpt.alignSize);
    }
    bool workers = r.chance(20);
    if (argn("workers", 1) == 0) workers = false;
    if (argn("workers", 1) == 2) workers = true;
    initGlobal(r, workers, true);
    jungle::DebugParams dp;
    dp.forceMerge = r.chance(50);
    DB::setDebugParams(dp);
    std::string base = st().scratch + fmt("/c%llu", (unsigned long long)seed);
    mkdirs(base + "/0");
    World w(r, o, c, r.chance(70) ? 3 + r(25) : 60 + r(100), base);
    w.workers = workers;
    w.mode = hx::argn("mode", r(3));
    if (workers) w.opt.text += " workers";
    st().context = w.opt.text;
    size_t per = 5 + r(60);
    int wr = 40 + r(50);
    fsx::maxSleepUs(1000);
    // A crash while the database is first created is a case of its own
    w.arm(argn("create", 0) ? 1 + r(30) : 0);
    w.note("open");
    Status s = DB::open(&w.db, w.path, w.cfg);
    if (!s.ok()) { w.db = nullptr; if (!w.crashed) viol("open-failed", "open = " + stname(s)); }
    for (size_t n = 0; n < crashes && w.fine(); ++n) {
        if (!w.fuse) w.fuse = 1 + r(r.chance(50) ? 30 : 200);
        size_t guard = 0;
        while (w.db && !w.crashed && w.fine() && guard++ < per * 20) {
            if (r.chance(wr)) w.write();
            else w.maintain();
        }
        if (!w.fine()) break;
        if (!w.crashed) {   // nothing reached the disk for long: crash here
            fsx::locked([&] { if (!w.crashed) w.crash(fsx::Event{fsx::OPEN, w.path + "/idle", 0, 0, 0}); });
        }
        if (!w.recover()) break;
        count("crash_cycles");
        if (r.chance(20)) w.vary();
    }
    fsx::stop();
    if (w.db) DB::close(w.db);
    jungle::shutdown();
    count("runs");
    drop(base);
}
}  // namespace

int main(int argc, char** argv) {
    init(argc, argv);
    trace = argn("trace", 0);
    beyond = argn("beyond", 0);
    tables = argn("tables", 1);
    only_power = argn("power", 0);
    size_t runs = argn("runs", 20), crashes = argn("crashes", 15);
    uint64_t only = argn("only", 0);
    Rng r(st().seed);
    for (size_t i = 0; i < runs; ++i) {
        uint64_t s = r.next() >> 20;
        if (only && s != only) continue;
        if (trace) printf("# run %llu\n", (unsigned long long)s);
        run(s, crashes);
        if (!st().violKeys.empty()) { printf("# stopped at run seed %llu\n", (unsigned long long)s); break; }
    }
    return finish();
}
