#include "fsx.h"
#include <cerrno>
#include <cstdarg>
#include <dirent.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>

extern "C" {
int __real_open(const char*, int, ...);
int __real_close(int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
int __real_fsync(int);
int __real_fdatasync(int);
int __real_ftruncate(int, off_t);
int __real_rename(const char*, const char*);
int __real_remove(const char*);
int __real_unlink(const char*);
int __real_nanosleep(const struct timespec*, struct timespec*);
}

namespace fsx {
namespace {
struct Pend { bool trunc; uint64_t off; std::string data; };
struct Inode {
    std::string now, durable;
    std::vector<Pend> pending;
};
typedef std::shared_ptr<Inode> In;
struct DirOp { int kind; std::string a, b; In ino; };   // 0 create, 1 unlink, 2 rename

std::recursive_mutex& mx() { static std::recursive_mutex* m = new std::recursive_mutex(); return *m; }
std::atomic<bool> on(false);
std::atomic<uint64_t> sleepCap(0);
struct S {
    std::string root;
    std::map<std::string, In> now, durable;
    std::vector<DirOp> dirPending;
    std::map<int, std::pair<std::string, In>> fds;
    std::set<int> direct;
    std::map<std::string, uint64_t> fsyncs;
    uint64_t n = 0;
    std::function<void(const Event&)> ev;
    std::function<int(const Event&)> fault;
};
S& s() { static S* x = new S(); return *x; }
bool tracked(const char* p) { return p && !strncmp(p, s().root.c_str(), s().root.size()); }

void applyDir(std::map<std::string, In>& m, const DirOp& d) {
    if (d.kind == 0) m[d.a] = d.ino;
    else if (d.kind == 1) m.erase(d.a);
    else { auto e = m.find(d.a); if (e != m.end()) { In i = e->second; m.erase(e); m[d.b] = i; } }
}
void applyPend(std::string& c, const Pend& p) {
    if (p.trunc) { c.resize(p.off, '\0'); return; }
    if (c.size() < p.off + p.data.size()) c.resize(p.off + p.data.size(), '\0');
    memcpy(&c[p.off], p.data.data(), p.data.size());
}
int event(Kind k, const std::string& path, uint64_t off, uint64_t len) {
    S& x = s();
    Event e{k, path, off, len, x.n};
    if (k != READ && k != CLOSE) {
        x.n++;
        if (x.ev) x.ev(e);
    }
    return x.fault ? x.fault(e) : 0;
}
void writeFile(const std::string& p, const std::string& c) {
    size_t sl = p.rfind('/');
    hx::mkdirs(p.substr(0, sl));
    int fd = __real_open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd < 0) { perror(p.c_str()); abort(); }
    size_t d = 0;
    while (d < c.size()) {
        ssize_t r = __real_write(fd, c.data() + d, c.size() - d);
        if (r <= 0) { perror("image write"); abort(); }
        d += r;
    }
    __real_close(fd);
}
}  // namespace

namespace {
// What was still unsynced when an image of a process crash was taken: the page cache outlives the process.
std::map<std::string, S>& saved() { static auto* m = new std::map<std::string, S>(); return *m; }
void preload(const std::string& dir) {
    DIR* d = opendir(dir.c_str());
    if (!d) return;
    while (struct dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = dir + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) { preload(p); continue; }
        int fd = __real_open(p.c_str(), O_RDONLY);
        if (fd < 0) continue;
        In i(new Inode());
        i->now.resize(st.st_size);
        size_t got = 0;
        while (got < i->now.size()) {
            ssize_t r = __real_pread(fd, &i->now[got], i->now.size() - got, got);
            if (r <= 0) break;
            got += r;
        }
        __real_close(fd);
        i->durable = i->now;
        s().now[p] = s().durable[p] = i;
    }
    closedir(d);
}
}  // namespace

void start(const std::string& root) {
    std::lock_guard<std::recursive_mutex> l(mx());
    s() = S();
    s().root = root;
    auto e = saved().find(root);
    if (e == saved().end()) preload(root);
    else { s().now = e->second.now; s().durable = e->second.durable; s().dirPending = e->second.dirPending; }
    saved().clear();
    on = true;
}
void stop() {
    std::lock_guard<std::recursive_mutex> l(mx());
    on = false;
    s() = S();
}
void onEvent(std::function<void(const Event&)> f) { std::lock_guard<std::recursive_mutex> l(mx()); s().ev = f; }
void onFault(std::function<int(const Event&)> f) { std::lock_guard<std::recursive_mutex> l(mx()); s().fault = f; }
void locked(const std::function<void()>& f) { std::lock_guard<std::recursive_mutex> l(mx()); f(); }
void maxSleepUs(uint64_t us) { sleepCap = us; }
uint64_t events() { std::lock_guard<std::recursive_mutex> l(mx()); return s().n; }
size_t openFds() { std::lock_guard<std::recursive_mutex> l(mx()); return s().fds.size(); }
uint64_t fsyncs(const std::string& p) {
    std::lock_guard<std::recursive_mutex> l(mx());
    auto e = s().fsyncs.find(p);
    return e == s().fsyncs.end() ? 0 : e->second;
}
uint64_t unsyncedBytes() {
    std::lock_guard<std::recursive_mutex> l(mx());
    uint64_t r = 0;
    for (auto& e : s().now) for (auto& p : e.second->pending) r += p.data.size();
    return r;
}

std::string image(const std::string& dst, Crash c, hx::Rng& rng, uint64_t* dropped) {
    std::lock_guard<std::recursive_mutex> l(mx());
    S& x = s();
    std::string desc;
    uint64_t drop = 0;
    hx::mkdirs(dst);
    if (c == PROCESS) {
        for (auto& e : x.now) writeFile(dst + e.first.substr(x.root.size()), e.second->now);
        if (dropped) *dropped = 0;
        S& k = saved()[dst];
        std::map<Inode*, In> cp;
        auto clone = [&](const In& i) {
            if (!i) return i;
            In& c = cp[i.get()];
            if (!c) c = In(new Inode(*i));
            return c;
        };
        auto moved = [&](const std::string& p) { return p.empty() ? p : dst + p.substr(x.root.size()); };
        for (auto& e : x.now) k.now[moved(e.first)] = clone(e.second);
        for (auto& e : x.durable) k.durable[moved(e.first)] = clone(e.second);
        for (auto& d : x.dirPending) k.dirPending.push_back(DirOp{d.kind, moved(d.a), moved(d.b), clone(d.ino)});
        return "process";
    }
    // Directory operations persist in order; data within a file in any of three styles.
    std::map<std::string, In> dir = x.durable;
    size_t nd = rng(3) == 0 ? 0 : (rng(2) ? x.dirPending.size() : rng(x.dirPending.size() + 1));
    for (size_t i = 0; i < nd && i < x.dirPending.size(); ++i) applyDir(dir, x.dirPending[i]);
    drop += x.dirPending.size() - nd;
    unsigned all = rng(5);
    for (auto& e : dir) {
        unsigned style = all < 4 ? all : (unsigned)rng(4);   // 4: each file in a style of its own
        Inode& f = *e.second;
        std::string img = f.durable;
        size_t np = f.pending.size();
        if (np) {
            if (style == 0) {                 // nothing unsynced survives
                drop += np;
            } else if (style == 1) {          // a prefix, the last write torn
                size_t k = rng(np + 1);
                for (size_t i = 0; i < k; ++i) applyPend(img, f.pending[i]);
                if (k < np && !f.pending[k].trunc && rng(2)) {
                    Pend p = f.pending[k];
                    p.data.resize(rng(p.data.size() + 1));
                    applyPend(img, p);
                }
                drop += np - k;
            } else if (style == 2) {          // each write on its own
                for (auto& p : f.pending) { if (rng(2) || p.trunc) applyPend(img, p); else drop++; }
            } else {                          // everything
                for (auto& p : f.pending) applyPend(img, p);
            }
        }
        writeFile(dst + e.first.substr(x.root.size()), img);
    }
    if (dropped) *dropped = drop;
    return hx::fmt("power style=%u dirops=%zu/%zu dropped=%llu", all, nd, x.dirPending.size(), (unsigned long long)drop);
}
}  // namespace fsx

using namespace fsx;
typedef std::lock_guard<std::recursive_mutex> LK;

extern "C" {
int __wrap_open(const char* p, int flags, ...) {
    mode_t mode = 0;
    if (flags & O_CREAT) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
    if (!on.load(std::memory_order_relaxed)) return __real_open(p, flags, mode);
    LK l(mx());
    if (!tracked(p)) return __real_open(p, flags, mode);
    bool existed = s().now.count(p);
    if (!existed && !(flags & O_CREAT)) return __real_open(p, flags, mode);
    int e = event(OPEN, p, 0, existed ? 0 : 1);
    if (e > 0) { errno = e; return -1; }
    // O_DIRECT is not passed on, so that runs do not depend on the disk; its alignment rules are checked here.
    int fd = __real_open(p, flags & ~O_DIRECT, mode);
    if (fd < 0) return fd;
    if (flags & O_DIRECT) s().direct.insert(fd);
    if (!existed) {
        In i(new Inode());
        s().now[p] = i;
        s().dirPending.push_back(DirOp{0, p, "", i});
    }
    In i = s().now[p];
    if ((flags & O_TRUNC) && i->now.size()) { i->now.clear(); i->pending.push_back(Pend{true, 0, ""}); }
    s().fds[fd] = {p, i};
    return fd;
}
int __wrap_close(int fd) {
    if (on.load(std::memory_order_relaxed)) { LK l(mx()); s().fds.erase(fd); s().direct.erase(fd); }
    return __real_close(fd);
}
static void aligned(int fd, const void* b, size_t n, off_t off, const char* what) {
    if (!s().direct.count(fd)) return;
    hx::count("direct_accesses");
    if ((uintptr_t)b % 512 || n % 512 || off % 512)
        hx::viol("dio:misaligned", hx::fmt("direct %s of %zu bytes at offset %lld from address ...%03x breaks the 512-byte alignment", what, n, (long long)off,
                                           (unsigned)((uintptr_t)b & 0xfff)));
}
static ssize_t doWrite(int fd, const void* b, size_t n, off_t off, bool pos) {
    LK l(mx());
    auto f = s().fds.find(fd);
    if (f == s().fds.end()) return pos ? __real_pwrite(fd, b, n, off) : __real_write(fd, b, n);
    if (!pos) off = lseek(fd, 0, SEEK_CUR);
    aligned(fd, b, n, off, "write");
    int e = event(WRITE, f->second.first, off, n);
    if (e > 0) { errno = e; return -1; }
    if (e < 0 && (size_t)-e < n) n = -e;
    ssize_t r = pos ? __real_pwrite(fd, b, n, off) : __real_write(fd, b, n);
    if (r > 0) {
        Pend p{false, (uint64_t)off, std::string((const char*)b, r)};
        In i = s().fds[fd].second;
        applyPend(i->now, p);
        i->pending.push_back(std::move(p));
    }
    return r;
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
    return on.load(std::memory_order_relaxed) ? doWrite(fd, b, n, 0, false) : __real_write(fd, b, n);
}
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) {
    return on.load(std::memory_order_relaxed) ? doWrite(fd, b, n, o, true) : __real_pwrite(fd, b, n, o);
}
ssize_t __wrap_read(int fd, void* b, size_t n) { return __real_read(fd, b, n); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) {
    if (on.load(std::memory_order_relaxed)) {
        LK l(mx());
        auto f = s().fds.find(fd);
        if (f != s().fds.end()) aligned(fd, b, n, o, "read");
        if (f != s().fds.end() && s().fault) {
            int e = event(READ, f->second.first, o, n);
            if (e > 0) { errno = e; return -1; }
            if (e < 0 && (size_t)-e < n) n = -e;
        }
    }
    return __real_pread(fd, b, n, o);
}
static int doSync(int fd, int (*real)(int)) {
    LK l(mx());
    auto f = s().fds.find(fd);
    if (f == s().fds.end()) return real(fd);
    int e = event(FSYNC, f->second.first, 0, 0);
    if (e > 0) { errno = e; return -1; }
    // The image is kept in memory: no need to make the real disk spin.
    Inode& i = *s().fds[fd].second;
    s().fsyncs[s().fds[fd].first]++;
    i.durable = i.now;
    i.pending.clear();
    for (auto& d : s().dirPending) applyDir(s().durable, d);
    s().dirPending.clear();
    return 0;
}
int __wrap_fsync(int fd) { return on.load(std::memory_order_relaxed) ? doSync(fd, __real_fsync) : __real_fsync(fd); }
int __wrap_fdatasync(int fd) {
    return on.load(std::memory_order_relaxed) ? doSync(fd, __real_fdatasync) : __real_fdatasync(fd);
}
int __wrap_ftruncate(int fd, off_t len) {
    if (!on.load(std::memory_order_relaxed)) return __real_ftruncate(fd, len);
    LK l(mx());
    auto f = s().fds.find(fd);
    if (f == s().fds.end()) return __real_ftruncate(fd, len);
    int e = event(TRUNC, f->second.first, len, 0);
    if (e > 0) { errno = e; return -1; }
    int r = __real_ftruncate(fd, len);
    if (!r) {
        Pend p{true, (uint64_t)len, ""};
        In i = s().fds[fd].second;
        applyPend(i->now, p);
        i->pending.push_back(p);
    }
    return r;
}
static int doUnlink(const char* p, int (*real)(const char*)) {
    LK l(mx());
    if (!tracked(p) || !s().now.count(p)) return real(p);
    int e = event(UNLINK, p, 0, 0);
    if (e > 0) { errno = e; return -1; }
    int r = real(p);
    if (!r) { DirOp d{1, p, "", nullptr}; applyDir(s().now, d); s().dirPending.push_back(d); }
    return r;
}
int __wrap_remove(const char* p) {
    return on.load(std::memory_order_relaxed) ? doUnlink(p, __real_remove) : __real_remove(p);
}
int __wrap_unlink(const char* p) {
    return on.load(std::memory_order_relaxed) ? doUnlink(p, __real_unlink) : __real_unlink(p);
}
int __wrap_rename(const char* a, const char* b) {
    if (!on.load(std::memory_order_relaxed)) return __real_rename(a, b);
    LK l(mx());
    if (!tracked(a)) return __real_rename(a, b);
    int e = event(RENAME, a, 0, 0);
    if (e > 0) { errno = e; return -1; }
    int r = __real_rename(a, b);
    if (!r) { DirOp d{2, a, b, nullptr}; applyDir(s().now, d); s().dirPending.push_back(d); }
    return r;
}
int __wrap_nanosleep(const struct timespec* t, struct timespec* rem) {
    uint64_t cap = sleepCap.load();
    if (cap && (uint64_t)t->tv_sec * 1000000 + t->tv_nsec / 1000 > cap) {
        struct timespec s2 = {0, (long)(cap * 1000)};
        return __real_nanosleep(&s2, rem);
    }
    return __real_nanosleep(t, rem);
}
}
