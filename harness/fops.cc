// SRCS: fileops_posix.cc fileops_directio.cc internal_helper.cc murmurhash3.cc
// File layer: POSIX and direct I/O operations against byte-array models, with short and failing
// calls injected, durability after sync, descriptor leaks; backup and restore of metadata files.
#include "common.h"
#include "fsx.h"
#include <libjungle/jungle.h>
#include "fileops_directio.h"
#include "fileops_posix.h"
#include "internal_helper.h"
#include <fcntl.h>
using namespace hx;
using namespace jungle;

static std::string slurp(const std::string& p) {
    std::string o;
    FILE* f = fopen(p.c_str(), "rb");
    if (!f) return o;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof(b), f)) > 0) o.append(b, n);
    fclose(f);
    return o;
}
static std::string bytes(Rng& r, size_t n) {
    std::string s(n, 0);
    size_t i = 0;
    while (i < n) { uint64_t v = r.next(); for (int k = 0; k < 8 && i < n; ++k, ++i) s[i] = (char)(v >> (8 * k)); }
    return s;
}
// Faults: transient ones are a bounded number of short or failing calls in a row, persistent ones
// fail every call of the kind.
struct Faults {
    int left = 0;
    bool persistent = false;
    fsx::Kind kind = fsx::WRITE;
    uint64_t fired = 0;
    void install(Rng* r) {
        fsx::onFault([this, r](const fsx::Event& e) -> int {
            if (e.kind != kind || (!persistent && left <= 0)) return 0;
            --left;
            ++fired;
            if (persistent) return EIO;
            unsigned w = (*r)(3);
            if (w == 0) return EINTR;
            if (w == 1) return EIO;
            return e.len > 1 ? -(int)(1 + (*r)(e.len - 1)) : EAGAIN;
        });
    }
};
static std::string imageOf(const std::string& root, const std::string& file, Rng& r) {
    std::string img = st().scratch + "/img";
    rmtree(img);
    fsx::image(img, fsx::POWER, r);
    return slurp(img + file.substr(root.size()));
}

static void posixRun(uint64_t seed) {
    Rng r(seed);
    std::string root = st().scratch + "/p";
    rmtree(root);
    mkdirs(root);
    st().context = fmt("posix seed=%llu", (unsigned long long)seed);
    fsx::start(root);
    Faults fl;
    fl.install(&r);
    FileOpsPosix impl;
    FileOps& ops = impl;
    std::string fn = root + "/f";
    std::string m;              // content
    bool exists = false;
    FileHandle* h = nullptr;
    std::string synced;
    bool syncedValid = false;
    std::string hist;
    uint64_t nops = r.range(20, 80);
    for (uint64_t i = 0; i < nops; ++i) {
        if (!h) {
            CHECK_KEY(ops.exist(fn) == exists, "posix:exist", "exist() = %d", !exists);
            if (!exists && r.chance(30)) {
                FileHandle* ro = nullptr;
                Status s = ops.open(&ro, fn, FileOps::READ_ONLY);
                CHECK_KEY(!s.ok(), "posix:open-ro", "opening a file that does not exist read-only succeeded");
                if (s) { ops.close(ro); delete ro; }
            }
            Status s = ops.open(&h, fn);
            CHECK_KEY(s.ok() && h && h->isOpened() && h->ops() == &ops, "posix:open", "open failed");
            if (!s) break;
            exists = true;
        }
        unsigned op = r(12);
        hist += (char)('a' + op);
        bool transient = r.chance(15), persistent = !transient && r.chance(3);
        fl.left = transient ? (int)r.range(1, 5) : 0;
        fl.persistent = persistent;
        fl.kind = op <= 5 ? fsx::WRITE : fsx::READ;
        uint64_t firedBefore = fl.fired;
        auto result = [&](Status s, const char* what) {   // true when the operation must have taken effect
            bool hurt = fl.fired > firedBefore;
            if (!hurt) CHECK_KEY(s.ok(), "posix:status", "%s failed with %d and nothing went wrong", what, (int)s);
            if (hurt && !persistent) CHECK_KEY(s.ok(), "posix:transient", "%s failed with %d although only a few calls were short or interrupted", what, (int)s);
            if (hurt && persistent) CHECK_KEY(!s.ok(), "posix:error-hidden", "%s reported success although every write or read failed", what);
            if (hurt) count(persistent ? "persistent_faults" : "transient_faults");
            return s.ok();
        };
        if (op <= 2) {
            std::string d = bytes(r, r.chance(10) ? 0 : r.chance(90) ? r.range(1, 300) : r.range(1, 20000));
            uint64_t at = m.size();
            Status s = ops.append(h, d.data(), d.size());
            if (result(s, "append")) m += d;
            else { m = slurp(fn); CHECK_KEY(m.size() <= at + d.size(), "posix:append-place", "a failed append changed more than its range"); }
        } else if (op <= 5) {
            std::string d = bytes(r, r.chance(10) ? 0 : r.range(1, 400));
            uint64_t off = r(m.size() + 50);
            Status s = ops.pwrite(h, d.data(), d.size(), off);
            if (result(s, "pwrite")) {
                if (d.size()) { if (m.size() < off + d.size()) m.resize(off + d.size()); memcpy(&m[off], d.data(), d.size()); }
            } else m = slurp(fn);
        } else if (op <= 8) {
            uint64_t off = r(m.size() + 1), n = r(m.size() - off + 1);
            std::string b(n, '?');
            Status s = ops.pread(h, n ? &b[0] : nullptr, n, off);
            if (result(s, "pread")) CHECK_KEY(b == m.substr(off, n), "posix:pread", "pread of %llu at %llu returned other bytes", (unsigned long long)n, (unsigned long long)off);
            fl.left = 0;
            if (!persistent && r.chance(6)) {
                std::string b2(10, '?');
                s = ops.pread(h, &b2[0], 10, m.size() - std::min<size_t>(m.size(), r(10)) + r(3));
                CHECK_KEY(s.ok() == false || m.size() >= 10, "posix:pread-eof", "a read past the end of the file succeeded");
            }
        } else if (op == 9) {
            uint64_t n = r.chance(80) ? r(m.size() + 1) : m.size() + r(100);
            fl.left = 0; fl.persistent = false;
            CHECK_KEY(ops.ftruncate(h, n).ok(), "posix:ftruncate", "ftruncate failed");
            m.resize(n);
        } else if (op == 10) {
            fl.kind = fsx::FSYNC;
            fl.left = 0;
            Status s = ops.fsync(h);
            CHECK_KEY(s.ok() == !persistent, persistent ? "posix:error-hidden" : "posix:fsync", "fsync returned %d, failing=%d", (int)s, persistent);
            if (s) {
                synced = m;
                for (int k = 0; k < 2; ++k) CHECK_KEY(imageOf(root, fn, r) == synced, "posix:not-durable", "after a successful fsync a power loss loses data");
                count("sync_points");
            }
        } else {
            fl.left = 0; fl.persistent = false;
            CHECK_KEY(ops.flush(h).ok() && ops.close(h).ok() && !h->isOpened(), "posix:close", "close failed");
            char c;
            CHECK_KEY(!ops.pread(h, &c, 1, 0).ok() && !ops.pwrite(h, &c, 1, 0).ok() && !ops.append(h, &c, 1).ok() && !ops.fsync(h).ok() &&
                      !ops.ftruncate(h, 0).ok() && !ops.close(h).ok() && !ops.flush(h).ok() && ops.eof(h) < 0, "posix:closed", "an operation on a closed file reported success");
            delete h;
            h = nullptr;
            if (r.chance(30)) {
                FileHandle* ro = nullptr;
                Status s = ops.open(&ro, fn, FileOps::READ_ONLY);
                CHECK_KEY(s.ok(), "posix:open-ro", "read-only open failed");
                if (s) {
                    fsx::maxSleepUs(1);
                    CHECK_KEY(!ops.pwrite(ro, "x", 1, 0).ok(), "posix:ro-write", "a write through a read-only handle succeeded");
                    std::string b(m.size(), '?');
                    CHECK_KEY(ops.pread(ro, m.empty() ? nullptr : &b[0], b.size(), 0).ok() && b == m, "posix:pread", "read-only read differs");
                    delete ro;    // without close: the handle must not leak its descriptor
                }
            }
            if (r.chance(30)) {
                CHECK_KEY(ops.remove(fn).ok() && !ops.exist(fn), "posix:remove", "remove failed");
                CHECK_KEY(!ops.remove(fn).ok(), "posix:remove", "removing a file that does not exist succeeded");
                exists = false;
                m.clear();
            }
            CHECK_KEY(fsx::openFds() == 0, "posix:fd-leak", "%zu descriptors open after closing everything", fsx::openFds());
        }
        fl.left = 0; fl.persistent = false;
        if (h) CHECK_KEY((size_t)ops.eof(h) == m.size(), "posix:eof", "eof %lld, expected %zu", (long long)ops.eof(h), m.size());
        CHECK_KEY(!exists || slurp(fn) == m, "posix:content", "the file differs from the operations applied to it");
        count("posix_ops");
    }
    if (h) { if (r.chance(50)) ops.close(h); delete h; }
    CHECK_KEY(fsx::openFds() == 0, "posix:fd-leak", "%zu descriptors open after deleting the handle", fsx::openFds());
    std::string dn = root + "/d";
    CHECK_KEY(ops.mkdir(dn).ok() && ops.exist(dn) && !ops.mkdir(dn).ok(), "posix:mkdir", "mkdir");
    CHECK_KEY(!ops.pread(nullptr, &dn[0], 1, 0).ok() && !ops.append(nullptr, &dn[0], 1).ok(), "posix:null", "null handle accepted");
    fsx::stop();
    seen(hash64(hist));
    count("posix_runs");
}

// The logical stream is everything appended, plus padding kept by a reopen. After flush or close
// the file starts with the stream; what follows is padding, recognisable and aligned.
static void dioRun(uint64_t seed) {
    Rng r(seed);
    std::string root = st().scratch + "/d";
    rmtree(root);
    mkdirs(root);
    fsx::start(root);
    Faults fl;
    fl.install(&r);
    size_t align = r.pick(std::vector<size_t>{512, 512, 4096});
    size_t bufsz = align * r.pick(std::vector<size_t>{1, 2, 4, 32});
    st().context = fmt("direct seed=%llu align=%zu buffer=%zu", (unsigned long long)seed, align, bufsz);
    FileOpsDirectIO impl(nullptr, bufsz, align);
    FileOps& ops = impl;
    std::string fn = root + "/f", m, hist;
    size_t flushed = 0;       // m[0, flushed) must be on the file
    bool pend = false;
    FileHandle* h = nullptr;
    auto tail = [&](const char* what) {
        std::string f = slurp(fn);
        if (f.size() < flushed || f.compare(0, flushed, m, 0, flushed)) {
            viol("dio:content", fmt("%s: the file (%zu bytes) does not start with the %zu bytes appended so far", what, f.size(), flushed));
            return f;
        }
        if (flushed != m.size()) return f;
        size_t extra = f.size() - flushed;
        CHECK_KEY(extra < 2 * align, "dio:padding", "%s: %zu bytes of padding after %zu", what, extra, flushed);
        bool truncatedShort = extra == 0;
        if (flushed % align && !truncatedShort) {
            CHECK_KEY(f.size() % align == 0 && extra >= 8, "dio:padding", "%s: the file of %zu bytes is not padded to %zu", what, f.size(), align);
            std::string pad(extra, 0);
            pad[0] = (char)0xfe;
            CHECK_KEY(f.substr(flushed) == pad, "dio:padding-mark", "%s: the padding after %zu bytes is not marked as padding", what, flushed);
        }
        if (flushed % align == 0 && extra)   // leftover of earlier padding: a reader must still be able to tell
            CHECK_KEY(extra >= 8 && (unsigned char)f[flushed] == 0xfe, "dio:stale-tail", "%s: %zu unmarked bytes after the %zu appended", what, extra, flushed);
        return f;
    };
    uint64_t nops = r.range(15, 60);
    for (uint64_t i = 0; i < nops; ++i) {
        if (!h) {
            Status s = ops.open(&h, fn);
            CHECK_KEY(s.ok() && h, "dio:open", "open failed with %d (file of %zu bytes)", (int)s, slurp(fn).size());
            if (!s) break;
            m = slurp(fn);
            flushed = m.size();
        }
        unsigned op = r(11);
        hist += (char)('a' + op);
        bool transient = r.chance(15);
        fl.persistent = false;
        fl.left = transient ? (int)r.range(1, 5) : 0;
        fl.kind = r.chance(50) ? fsx::WRITE : fsx::READ;
        if (op <= 3) {
            size_t room = bufsz - m.size() % bufsz;
            size_t n = r.chance(10) ? 0 : r.chance(40) ? r.range(1, 60) : r.chance(30) ? room + r(19) - 9 : r.chance(30) ? r.range(1, bufsz * 3) : align - m.size() % align + r(9) - 4;
            if (n > bufsz * 4) n = 1;
            std::string d = bytes(r, n);
            Status s = ops.append(h, d.data(), d.size());
            CHECK_KEY(s.ok(), "dio:append", "append of %zu failed with %d", n, (int)s);
            m += d;
        } else if (op <= 5) {
            Status s = ops.flush(h);
            CHECK_KEY(s.ok(), "dio:flush", "flush failed with %d", (int)s);
            flushed = m.size();
            tail("after flush");
            count("flushes");
        } else if (op <= 7) {
            size_t sz = ops.eof(h);
            CHECK_KEY(sz == slurp(fn).size(), "dio:eof", "eof %zu", sz);
            size_t avail = flushed;
            uint64_t off = r(avail + 1), n = r(avail - off + 1);
            if (r.chance(30) && avail > 3) { off = avail - std::min<size_t>(avail, r(2 * align) + 1); n = avail - off; }
            if (r.chance(40)) {   // one byte around block borders
                off -= off % align; if (n > avail - off) n = avail - off;
                if (r.chance(50)) n -= n % align;
            }
            std::unique_ptr<char[]> b(new char[n ? n : 1]);
            Status s = ops.pread(h, b.get(), n, off);
            CHECK_KEY(s.ok(), "dio:pread-status", "pread of %llu at %llu of %zu failed with %d", (unsigned long long)n, (unsigned long long)off, sz, (int)s);
            if (s) CHECK_KEY(!memcmp(b.get(), m.data() + off, n), "dio:pread", "pread of %llu at %llu returned other bytes", (unsigned long long)n, (unsigned long long)off);
            std::unique_ptr<char[]> b2(new char[64]);
            CHECK_KEY(!ops.pread(h, b2.get(), 64, sz - std::min<size_t>(sz, 63)).ok() || sz >= 64 || false, "dio:pread-eof", "a read past the end succeeded");
            CHECK_KEY(!ops.pread(h, b2.get(), 1, sz).ok() && !ops.pread(h, b2.get(), 1, -1).ok(), "dio:pread-eof", "a read outside the file succeeded");
            count("preads");
        } else if (op == 8) {
            CHECK_KEY(ops.flush(h).ok(), "dio:flush", "flush failed");
            flushed = m.size();
            size_t sz = slurp(fn).size();
            size_t n = r.chance(70) ? r(m.size() + 1) : r.chance(50) ? m.size() - m.size() % align : sz + r(100);
            Status s = ops.ftruncate(h, n);
            CHECK_KEY(s.ok(), "dio:ftruncate", "ftruncate(%zu) of %zu failed with %d", n, sz, (int)s);
            if (n < sz) {
                m.resize(n);
                flushed = n;
                CHECK_KEY(slurp(fn) == m, "dio:ftruncate", "ftruncate(%zu) left other content", n);
            }
            count("truncations");
        } else if (op == 9) {
            CHECK_KEY(ops.flush(h).ok() && ops.fsync(h).ok(), "dio:fsync", "flush and fsync failed");
            flushed = m.size();
            for (int k = 0; k < 2; ++k) {
                std::string img = imageOf(root, fn, r);
                CHECK_KEY(img.size() >= m.size() && !img.compare(0, m.size(), m), "dio:not-durable", "after flush and fsync a power loss loses data (%zu of %zu bytes)", img.size(), m.size());
                CHECK_KEY(img == slurp(fn), "dio:not-durable", "after flush and fsync a power loss restores older content (%zu bytes, the file has %zu)", img.size(), slurp(fn).size());
            }
            count("sync_points");
        } else {
            fl.left = 0;
            Status s = ops.close(h);
            CHECK_KEY(s.ok() && !h->isOpened(), "dio:close", "close failed");
            flushed = m.size();
            tail("after close");
            char c;
            CHECK_KEY(!ops.pread(h, &c, 1, 0).ok() && !ops.append(h, &c, 1).ok() && !ops.fsync(h).ok() && !ops.flush(h).ok() && !ops.ftruncate(h, 0).ok() &&
                      ops.eof(h) < 0 && !ops.close(h).ok(), "dio:closed", "an operation on a closed file reported success");
            delete h;
            h = nullptr;
            CHECK_KEY(fsx::openFds() == 0, "dio:fd-leak", "%zu descriptors open after closing", fsx::openFds());
        }
        CHECK_KEY(!slurp(fn).compare(0, flushed, m, 0, flushed), "dio:content", "the flushed bytes are no longer in the file");
        count("direct_ops");
    }
    fl.left = 0;
    if (h) {
        if (r.chance(40)) {   // a write error must be reported, and must not lose what was there
            size_t before = flushed;
            std::string keep = m.substr(0, before);
            fl.kind = fsx::WRITE;
            fl.persistent = true;
            uint64_t f0 = fl.fired;
            std::string d = bytes(r, bufsz * 2 + 5);
            Status s = ops.append(h, d.data(), d.size());
            CHECK_KEY(fl.fired == f0 || !s.ok(), "dio:error-hidden", "append reported success although writing failed");
            count("persistent_faults");
            Status s2 = ops.append(h, "more", 4);
            Status s3 = ops.flush(h);
            CHECK_KEY(!s2.ok() || !s3.ok(), "dio:error-hidden", "flush reported success although writing failed");
            fl.persistent = false;
            CHECK_KEY(!slurp(fn).compare(0, before, keep), "dio:content", "an append that failed damaged earlier data");
            CHECK_KEY(ops.flush(h).ok(), "dio:recover", "flush still fails after the fault is gone");
        }
        if (r.chance(40)) {   // a failing open leaks nothing
            size_t n0 = fsx::openFds();
            fl.kind = fsx::READ;
            fl.persistent = true;
            FileHandle* h2 = nullptr;
            uint64_t f0 = fl.fired;
            Status s = ops.open(&h2, fn);
            if (fl.fired > f0) {
                CHECK_KEY(!s.ok(), "dio:error-hidden", "open reported success although reading the tail failed");
                count("persistent_faults");
            }
            fl.persistent = false;
            if (s) { ops.close(h2); delete h2; }
            CHECK_KEY(fsx::openFds() == n0, "dio:fd-leak", "a failed open leaked a descriptor");
        }
        if (r.chance(50)) ops.close(h);
        delete h;
    }
    CHECK_KEY(fsx::openFds() == 0, "dio:fd-leak", "%zu descriptors open at the end", fsx::openFds());
    fsx::stop();
    seen(hash64(hist));
    count("direct_runs");
}
// Several instances with different buffer sizes in one thread; readers in parallel with an appender.
static void dioShared(uint64_t seed) {
    Rng r(seed);
    std::string root = st().scratch + "/ds";
    rmtree(root);
    mkdirs(root);
    fsx::start(root);
    st().context = fmt("direct shared seed=%llu", (unsigned long long)seed);
    std::vector<std::pair<size_t, size_t>> cfg;   // align, buffer
    for (int i = 0; i < 3; ++i) { size_t a = r.chance(50) ? 512 : 4096; cfg.push_back({a, a * r.pick(std::vector<size_t>{1, 3, 8, 40})}); }
    std::vector<std::unique_ptr<FileOpsDirectIO>> impl;
    std::vector<FileHandle*> hs;
    std::vector<std::string> ms;
    for (size_t i = 0; i < cfg.size(); ++i) {
        impl.emplace_back(new FileOpsDirectIO(nullptr, cfg[i].second, cfg[i].first));
        FileHandle* h = nullptr;
        FileOps& o = *impl[i];
        CHECK_KEY(o.open(&h, fmt("%s/f%zu", root.c_str(), i)).ok(), "dio:open", "open failed");
        hs.push_back(h);
        ms.push_back(bytes(r, r.range(1, 100000)));
        CHECK_KEY(o.append(h, ms[i].data(), ms[i].size()).ok() && o.flush(h).ok(), "dio:append", "append failed");
    }
    std::atomic<bool> stop(false);
    std::atomic<uint64_t> grown(0);
    parallel(4, [&](size_t t) {
        Rng q(seed * 31 + t);
        if (t == 0) {
            FileOps& o = *impl[0];
            for (int k = 0; k < 60; ++k) {
                std::string d = bytes(q, q.range(1, 700));
                if (!o.append(hs[0], d.data(), d.size()).ok() || !o.flush(hs[0]).ok()) viol("dio:append", "append failed beside readers");
                grown += d.size();
            }
            stop = true;
            return;
        }
        for (int k = 0; k < 4000 && (!stop || k < 60); ++k) {
            size_t i = q(cfg.size());
            uint64_t off = q(ms[i].size()), n = q.chance(30) ? ms[i].size() - off : 1 + q(std::min<size_t>(ms[i].size() - off, 6000));
            std::unique_ptr<char[]> b(new char[n]);
            Status s = impl[i]->pread(hs[i], b.get(), n, off);
            CHECK_KEY(s.ok(), "dio:shared-status", "pread of %llu at %llu failed with %d beside other readers and an appender", (unsigned long long)n, (unsigned long long)off, (int)s);
            if (s) CHECK_KEY(!memcmp(b.get(), ms[i].data() + off, n), "dio:shared-pread", "pread returned other bytes beside other readers and an appender");
            count("shared_preads");
        }
    });
    for (auto h : hs) { h->ops()->close(h); delete h; }
    CHECK_KEY(fsx::openFds() == 0, "dio:fd-leak", "descriptors open at the end");
    fsx::stop();
    count("shared_runs");
}
// Offsets beyond 2 and 4 GiB, in a sparse file.
static void hugeFiles() {
    st().context = "huge files";
    std::string fn = st().scratch + "/huge";
    for (uint64_t base : {uint64_t(0x7ffffe00), uint64_t(0x80000000), uint64_t(0x100000000), uint64_t(0x1c0000200)}) {
        ::unlink(fn.c_str());
        int fd = ::open(fn.c_str(), O_CREAT | O_RDWR, 0644);
        if (fd < 0 || ::ftruncate(fd, base)) { if (fd >= 0) ::close(fd); continue; }
        ::close(fd);
        fsx::start(st().scratch + "/nothing-here");
        for (int kind = 0; kind < 2; ++kind) {
            FileOpsPosix p;
            FileOpsDirectIO d(nullptr, 4096, 512);
            FileOps& ops = kind ? (FileOps&)d : (FileOps&)p;
            FileHandle* h = nullptr;
            Status s = ops.open(&h, fn);
            if (!s && kind) { count("huge_direct_unsupported"); continue; }   // no O_DIRECT on this disk
            CHECK_KEY(s.ok(), "huge:open", "kind %d base %llx", kind, (unsigned long long)base);
            if (!s) continue;
            uint64_t end = ops.eof(h);
            CHECK_KEY(end >= base, "huge:eof", "%s: eof of a file of %llx bytes is %llx", kind ? "direct" : "posix", (unsigned long long)base, (unsigned long long)end);
            std::string data = "beyond four gigabytes";
            s = ops.append(h, data.data(), data.size());
            Status s2 = ops.flush(h);
            CHECK_KEY(s.ok() && s2.ok(), "huge:append", "%s at %llx", kind ? "direct" : "posix", (unsigned long long)base);
            std::string b(data.size(), '?');
            s = ops.pread(h, &b[0], b.size(), end);
            CHECK_KEY(s.ok() && b == data, "huge:pread", "%s: data appended at %llx did not come back (%d)", kind ? "direct" : "posix", (unsigned long long)end, (int)s);
            if (!kind) {
                s = ops.pwrite(h, "XY", 2, end + 3);
                s2 = ops.pread(h, &b[0], b.size(), end);
                CHECK_KEY(s.ok() && s2.ok() && b.substr(3, 2) == "XY", "huge:pwrite", "posix at %llx", (unsigned long long)end);
            }
            s = ops.ftruncate(h, end);
            CHECK_KEY(s.ok() && (uint64_t)ops.eof(h) == end, "huge:ftruncate", "%s at %llx", kind ? "direct" : "posix", (unsigned long long)end);
            ops.close(h);
            delete h;
            count("huge_checks");
        }
        fsx::stop();
    }
    ::unlink(fn.c_str());
}
static void backupRun(uint64_t seed) {
    Rng r(seed);
    std::string root = st().scratch + "/b";
    rmtree(root);
    mkdirs(root);
    fsx::start(root);
    Faults fl;
    fl.install(&r);
    st().context = fmt("backup seed=%llu", (unsigned long long)seed);
    FileOpsPosix impl;
    FileOps& ops = impl;
    std::string fn = root + "/mani", cur, prev, hist;
    FileHandle* bh = nullptr;
    bool prevValid = false;
    for (int i = 0; i < 12; ++i) {
        size_t n = r.range(1, 400);
        std::string next = bytes(r, n);
        size_t keep = prevValid ? r(std::min(prev.size(), next.size()) + 1) : 0;
        next.replace(0, keep, prev, 0, keep);
        // the main file
        FileHandle* h = nullptr;
        ops.open(&h, fn);
        ops.pwrite(h, next.data(), next.size(), 0);
        ops.ftruncate(h, next.size());
        ops.close(h);
        delete h;
        bool sync = r.chance(50);
        unsigned how = r(3);
        hist += (char)('0' + how);
        bool fault = r.chance(15);
        if (fault) {
            std::vector<fsx::Kind> ks{fsx::WRITE, fsx::FSYNC, fsx::TRUNC, fsx::READ, fsx::OPEN};
            fl.kind = r.pick(ks);
            fl.persistent = true;
        }
        bool vanished = !fault && prevValid && how == 2 && r.chance(20);
        if (vanished) ops.remove(fn + ".bak");
        uint64_t f0 = fl.fired;
        Status s;
        SizedBuf ctx(next);
        if (how == 0) s = BackupRestore::backup(&ops, fn, sync);
        else if (how == 1) s = BackupRestore::backup(&ops, fn, ctx, next.size(), keep, sync);
        else s = BackupRestore::backup(&ops, &bh, fn, ctx, next.size(), keep, sync);
        bool hurt = fl.fired > f0;
        fl.persistent = false;
        std::string bak = slurp(fn + ".bak");
        if (!hurt) CHECK_KEY(s.ok(), "backup:status", "backup (%u) failed with %d and nothing went wrong", how, (int)s);
        if (s) CHECK_KEY(bak == next, hurt ? "backup:error-hidden" : vanished ? "backup:vanished" : "backup:content", "backup (%u) reported success but the backup is not the content given (%zu and %zu bytes, %zu kept, fault %d)",
                         how, bak.size(), next.size(), keep, fl.kind);
        if (s && sync) {
            std::string img = imageOf(root, fn + ".bak", r);
            CHECK_KEY(img == next, hurt ? "backup:error-hidden" : "backup:not-durable", "a synced backup (%u) is lost by a power failure", how);
            count("sync_points");
        }
        if (hurt) count("backup_faults");
        prevValid = !!s;
        prev = next;
        if (s && r.chance(40)) {
            // damage the main file, then restore
            FileHandle* h2 = nullptr;
            ops.open(&h2, fn);
            if (r.chance(50)) ops.ftruncate(h2, r(next.size() + 300));
            else ops.pwrite(h2, "garbage", 7, r(next.size() + 100));
            ops.close(h2);
            delete h2;
            bool f2 = r.chance(20);
            if (f2) { std::vector<fsx::Kind> ks{fsx::WRITE, fsx::FSYNC, fsx::TRUNC, fsx::READ, fsx::OPEN}; fl.kind = r.pick(ks); fl.persistent = true; }
            f0 = fl.fired;
            Status s2 = BackupRestore::restore(&ops, fn);
            hurt = fl.fired > f0;
            fl.persistent = false;
            if (!hurt) CHECK_KEY(s2.ok(), "restore:status", "restore failed with %d", (int)s2);
            if (s2) {
                CHECK_KEY(slurp(fn) == next, hurt ? "restore:error-hidden" : "restore:content", "restore reported success but the file is not the backup (fault %d)", fl.kind);
                CHECK_KEY(imageOf(root, fn, r) == next, hurt ? "restore:error-hidden" : "restore:not-durable", "a restored file is lost by a power failure");
            }
            CHECK_KEY(slurp(fn + ".bak") == next, "restore:backup-changed", "restore changed the backup");
            count("restores");
        }
        count("backups");
        CHECK_KEY(fsx::openFds() <= (bh ? 1u : 0u), "backup:fd-leak", "%zu descriptors open after a backup", fsx::openFds());
    }
    Status s = BackupRestore::restore(&ops, root + "/none");
    CHECK_KEY(!s.ok() && !ops.exist(root + "/none"), "restore:none", "restoring without a backup succeeded or left a file");
    if (bh) { ops.close(bh); delete bh; }
    fsx::stop();
    seen(hash64(hist, seed));
    count("backup_runs");
}
int main(int argc, char** argv) {
    init(argc, argv);
    fsx::maxSleepUs(20);
    uint64_t n = argn("runs", 150);
    std::string part = arg("part", "pdsbh");
    for (uint64_t i = 0; i < n; ++i) {
        uint64_t s = st().seed * 1000003 + i;
        if (part.find('p') != std::string::npos) posixRun(s);
        if (part.find('d') != std::string::npos) { dioRun(s); if (i % 8 == 0) dioShared(s); }
        if (part.find('b') != std::string::npos) backupRun(s);
    }
    if (part.find('h') != std::string::npos) hugeFiles();
    sample(fmt("%llu random programs per part (%s), faults on open/read/write/truncate/sync, power-loss image after every successful sync", (unsigned long long)n, part.c_str()));
    return finish();
}
