// SRCS: logger.cc
// Logger: every accepted message reaches the log files exactly once and whole, through buffer
// wrap-around, concurrent writers and flushers, file rotation and compression, and restarts;
// refused levels leave nothing behind; callbacks see what was logged.
#include "common.h"
#include <dirent.h>
#include <logger.h>
#include <zlib.h>
using namespace hx;

static const char* LV[] = {"====", "FATL", "ERRO", "WARN", "INFO", "DEBG", "TRAC"};
static std::string readAll(const std::string& p) {
    std::string r;
    FILE* f = fopen(p.c_str(), "rb");
    if (!f) return r;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof(b), f))) r.append(b, n);
    fclose(f);
    return r;
}
// A .tar.gz with one member, in memory.
static std::string untar(const std::string& p, bool& ok) {
    std::string raw;
    gzFile g = gzopen(p.c_str(), "rb");
    if (!g) { ok = false; return ""; }
    char b[65536];
    int n;
    while ((n = gzread(g, b, sizeof(b))) > 0) raw.append(b, n);
    gzclose(g);
    size_t pos = 0;
    std::string out;
    ok = false;
    while (pos + 512 <= raw.size()) {
        if (!raw[pos]) break;
        size_t len = strtoull(raw.substr(pos + 124, 12).c_str(), nullptr, 8);
        char type = raw[pos + 156];
        if (type == '0' || type == 0) { out += raw.substr(pos + 512, len); ok = true; }
        pos += 512 + (len + 511) / 512 * 512;
    }
    return out;
}
struct Files { std::map<size_t, std::string> content; size_t gz = 0, plain = 0; };
static Files collect(const std::string& dir, const std::string& base) {
    Files f;
    DIR* d = opendir(dir.c_str());
    while (dirent* e = d ? readdir(d) : nullptr) {
        std::string n = e->d_name;
        if (n.compare(0, base.size(), base)) continue;
        std::string rest = n.substr(base.size());
        bool gz = rest.size() >= 7 && rest.substr(rest.size() - 7) == ".tar.gz";
        if (gz) rest = rest.substr(0, rest.size() - 7);
        size_t num = rest.empty() ? 0 : strtoull(rest.c_str() + 1, nullptr, 10);
        bool ok = true;
        std::string c = gz ? untar(dir + "/" + n, ok) : readAll(dir + "/" + n);
        if (!ok) viol("log:archive", fmt("%s is not a readable archive", n.c_str()));
        (gz ? f.gz : f.plain)++;
        if (f.content.count(num)) viol("log:archive", fmt("file %zu exists twice", num));
        f.content[num] = c;
    }
    if (d) closedir(d);
    return f;
}

struct Msg { int level; size_t line; std::string text; bool expect; };
static const char* FILES[] = {"plain.cc", "dir/some.cc", "/abs/olute/path.cc"};

static bool one(uint64_t seed, size_t thMul, int tries = 0) {
    Rng r(seed);
    st().context = fmt("logger seed=%llu", (unsigned long long)seed);
    std::string dir = st().scratch + fmt("/l%llu", (unsigned long long)seed);
    mkdirs(dir);
    std::string path = dir + (r.chance(20) ? "//app.log" : "/app.log");
    static const size_t ringSizes[] = {1, 2, 3, 5, 8, 32, 256};
    size_t ring = ringSizes[r(7)];
    bool rot = r.chance(50);
    uint64_t limit = rot ? 300 + r(r.chance(50) ? 4000 : 60000) : (r.chance(50) ? 0 : 64 * 1024 * 1024);
    size_t keep = r.chance(30) && rot ? 1 + r(4) : 0;   // 0: every file is kept
    std::map<std::string, Msg> all;      // id -> message
    std::mutex allLock;
    size_t sessions = 1 + r(3), total = 0, uid = 0;
    std::vector<std::string> inOrder;    // ids of a single-threaded run
    bool single = r.chance(25);
    Noise noise(r);
    bool cbLocal = r.chance(20), cbGlobal = r.chance(20), cbBlock = r.chance(30);
    std::atomic<uint64_t> cbSeen(0), cbBad(0), cbExpected(0);
    for (size_t ss = 0; ss < sessions; ++ss) {
        SimpleLogger lg(path, ring, limit, keep);
        if (lg.start()) { viol("log:start", "start failed"); return true; }
        lg.setDispLevel(-1);
        int lv = (int)r(7);
        lg.setLogLevel(lv);
        CHECK_KEY(lg.getLogLevel() == lv, "log:level", "level not set");
        SimpleLogger::CbType cb = [&](int level, const char* sf, const char* fn, size_t line, uint64_t us, uint32_t tid, size_t len, const char* m, const SimpleLogger::CtxMap& ctx) {
            std::string text(m, len);
            if (fn && (!strcmp(fn, "start") || !strcmp(fn, "stop") || !strcmp(fn, "y"))) return true;
            cbSeen++;
            if (strlen(m) != len && text.find('\0') != std::string::npos) cbBad++;
            size_t a = text.find('<');
            if (a == std::string::npos || !fn || strcmp(fn, "func")) cbBad++;
            return !(cbBlock && line % 3 == 0);
        };
        SimpleLogger::PreCbType pre = [](int, const char*, const char*, size_t line, const SimpleLogger::CtxMap&) { return line % 5 != 0; };
        if (cbGlobal) lg.setGlobalCallback(pre, cb);
        size_t nt = single ? 1 : 1 + r(8), per = (20 + r(150)) * thMul;
        std::atomic<bool> stop(false);
        std::thread fl;
        if (r.chance(50) && !single) fl = std::thread([&] { while (!stop) { lg.flushAll(); std::this_thread::yield(); } });
        uint64_t base = r.next();
        auto work = [&](size_t t) {
            Rng tr(base + t);
            std::vector<Msg> mine;
            std::unique_ptr<SimpleLoggerLocalCtx> ctx;
            if (cbLocal) ctx.reset(new SimpleLoggerLocalCtx(&lg, {{"k", {"v"}}}, pre, cb));
            for (size_t i = 0; i < per; ++i) {
                Msg m;
                m.level = (int)tr(7);
                m.line = tr(100000);
                size_t n = tr.chance(80) ? tr(60) : tr(3400);
                std::string body;
                for (size_t j = 0; j < n; ++j) body += (char)('a' + tr(26));
                m.text = fmt("<%zu.%zu.%zu:", ss, t, i) + body + ">";
                m.expect = m.level <= lv;
                bool called = (cbLocal || cbGlobal) && m.line % 5 != 0;
                if (called) cbExpected++;
                if (called && cbBlock && m.line % 3 == 0) m.expect = false;
                lg.put(m.level, FILES[i % 3], "func", m.line, "%s", m.text.c_str());
                mine.push_back(m);
                if (single && tr.chance(4)) lg.flushAll();
                if (tr.chance(2)) std::this_thread::sleep_for(std::chrono::microseconds(tr(200)));
            }
            std::lock_guard<std::mutex> l(allLock);
            for (size_t i = 0; i < mine.size(); ++i) {
                std::string id = mine[i].text.substr(0, mine[i].text.find(':') + 1);
                if (single && mine[i].expect) inOrder.push_back(id);
                all[id] = mine[i];
            }
        };
        if (nt == 1) { if (single) work(0); else parallel(1, work); }
        else parallel(nt, work);
        total += nt * per;
        stop = true;
        if (fl.joinable()) fl.join();
        if (r.chance(50)) {
            // With nobody else at work, a flush writes everything out (the periodic flusher may be
            // in the middle of one: it counts too, as soon as it is through).
            std::set<std::string> want;
            for (auto& e : all) if (e.second.expect && !e.first.compare(0, fmt("<%zu.", ss).size(), fmt("<%zu.", ss))) want.insert(e.second.text);
            bool ok = false;
            for (int tries = 0; tries < 200 && !ok && !rot; ++tries) {
                lg.flushAll();
                std::string c = readAll(dir + "/app.log");
                ok = true;
                for (auto& w : want) if (c.find(w) == std::string::npos) { ok = false; break; }
                if (!ok) usleep(5000);
            }
            if (!rot) CHECK_KEY(ok, "log:flush", "flush left messages out of the file");
            count("flush_checks");
        }
        if (lg.stop()) viol("log:start", "stop failed");
        if (r.chance(30)) lg.put(0, "x", "y", 1, "after stop");   // must be harmless
    }
    CHECK_KEY(cbSeen == cbExpected && !cbBad, "log:callback", "callbacks ran %llu times, expected %llu, %llu with wrong arguments", (unsigned long long)cbSeen, (unsigned long long)cbExpected, (unsigned long long)cbBad);

    Files fs = collect(dir, "app.log");
    if (keep) CHECK_KEY(fs.gz <= keep, "log:retention", "%zu compressed files kept, limit %zu", fs.gz, keep);
    CHECK_KEY(fs.plain >= 1, "log:files", "no current log file");
    std::map<std::string, size_t> got;
    std::vector<std::string> order;
    size_t nsys = 0, lastNum = 0;
    bool firstFile = true, dropped = false;
    size_t lines = 0;
    for (auto& e : fs.content) {
        if (!firstFile && e.first != lastNum + 1) viol("log:files", fmt("file numbers jump from %zu to %zu", lastNum, e.first));
        if (firstFile && e.first > 0) dropped = true;
        firstFile = false;
        lastNum = e.first;
        const std::string& c = e.second;
        size_t p = 0;
        while (p < c.size()) {
            size_t q = c.find('\n', p);
            if (q == std::string::npos) { viol("log:line", fmt("file %zu ends in the middle of a line: %s", e.first, printable(c.substr(p)).c_str())); break; }
            std::string ln = c.substr(p, q - p);
            p = q + 1;
            lines++;
            // time [tid] [LEVEL] text \t[file:line, func()]
            size_t a = ln.find("] ["), b = a == std::string::npos ? a : ln.find("] ", a + 3);
            unsigned Y, M, D, h, m, s, ms, us;
            if (b == std::string::npos || sscanf(ln.c_str(), "%4u-%2u-%2uT%2u:%2u:%2u.%3u_%3u", &Y, &M, &D, &h, &m, &s, &ms, &us) != 8) { viol("log:line", "malformed line " + printable(ln, 120)); continue; }
            std::string lv = ln.substr(a + 3, b - a - 3), rest = ln.substr(b + 2);
            if (rest.compare(0, 1, "<")) {
                if (lv == "====" && (!rest.compare(0, 12, "Start logger") || !rest.compare(0, 11, "Stop logger"))) { nsys++; continue; }
                viol("log:line", "unknown line " + printable(ln, 120));
                continue;
            }
            std::string id = rest.substr(0, rest.find(':') + 1);
            auto it = all.find(id);
            if (it == all.end()) { viol("log:line", "unknown message " + printable(rest)); continue; }
            const Msg& mm = it->second;
            size_t i = strtoull(id.c_str() + id.rfind('.') + 1, nullptr, 10);
            const char* sf = strrchr(FILES[i % 3], '/');
            std::string want = mm.text + fmt("\t[%s:%zu, func()]", sf ? sf + 1 : FILES[i % 3], mm.line);
            if (rest != want) viol("log:content", "message changed: " + printable(rest, 80) + " expected " + printable(want, 80));
            if (lv != LV[mm.level]) viol("log:content", fmt("level %s instead of %s", lv.c_str(), LV[mm.level]));
            got[id]++;
            order.push_back(id);
        }
    }
    size_t missing = 0, lost = 0;
    for (auto& e : all) {
        size_t n = got.count(e.first) ? got[e.first] : 0;
        if (n > 1) viol("log:dup", fmt("message %s is there %zu times", e.first.c_str(), n));
        if (n && !e.second.expect) viol("log:unexpected", fmt("message %s should not have been logged", e.first.c_str()));
        if (!n && e.second.expect) { lost++; if (missing++ == 0 && !(keep && dropped)) viol("log:lost", fmt("message %s of %zu never reached the log", e.first.c_str(), total)); }
    }
    if (!(keep && dropped)) CHECK_KEY(nsys == sessions * 2 , "log:sys", "%zu start/stop lines of %zu sessions", nsys, sessions);
    bool good = true;
    if (single && !keep && !lost) {
        // The periodic flusher may pass by just then, and write out what is behind it later: only
        // disorder that comes back every time is one.
        good = order == inOrder;
        if (!good && tries == 4) viol("log:order", "one thread's messages are out of order");
        count("ordered_runs");
    }
    count("messages", total);
    count("lines", lines);
    count("files", fs.content.size());
    count("archives", fs.gz);
    count("runs");
    count("callbacks", cbSeen);
    if (keep && dropped) count("retention_runs");
    seen(hash64(fmt("%zu/%zu/%d/%d/%zu/%zu", ring, sessions, rot, cbLocal * 2 + cbGlobal, keep, fs.content.size())));
    std::string od;
    for (auto& o : order) od += o;
    seen(hash64(od));
    sample(fmt("ring %zu, %zu sessions, %zu messages, %zu lines in %zu files (%zu archives)", ring, sessions, total, lines, fs.content.size(), fs.gz));
    rmtree(dir);
    return good;
}

static void misc(uint64_t seed) {
    Rng r(seed);
    st().context = "logger misc";
    auto rep = [](std::string s, const std::string& a, const std::string& b) {
        size_t p = 0;
        while ((p = s.find(a, p)) != std::string::npos) { s.replace(p, a.size(), b); p += b.size(); }
        return s;
    };
    for (int i = 0; i < 300; ++i) {
        std::string s;
        size_t n = r(30);
        for (size_t j = 0; j < n; ++j) s += (char)('/' + r(3));
        std::string a = r.chance(50) ? "//" : "/0", b = r.chance(50) ? "/" : "x//y";
        CHECK_KEY(SimpleLogger::replaceString(s, a, b) == rep(s, a, b), "log:replace", "replaceString(%s)", s.c_str());
    }
    // Long messages are cut: memory stays intact, the callback gets a length it may read.
    std::string dir = st().scratch + "/misc";
    mkdirs(dir);
    for (size_t n : {3900ul, 3990ul, 4040ul, 4094ul, 4095ul, 4096ul, 4097ul, 5000ul, 20000ul}) {
        SimpleLogger lg(dir + fmt("/m%zu.log", n), 4);
        lg.start();
        lg.setDispLevel(-1);
        std::string big(n, 'q'), seenBy;
        lg.setGlobalCallback([](int, const char*, const char*, size_t, const SimpleLogger::CtxMap&) { return true; },
                             [&](int, const char*, const char*, size_t, uint64_t, uint32_t, size_t len, const char* m, const SimpleLogger::CtxMap&) { seenBy.assign(m, len); return true; });
        for (int i = 0; i < 6; ++i) lg.put(2, __FILE__, __func__, __LINE__, "%s", big.c_str());
        CHECK_KEY(seenBy == big.substr(0, seenBy.size()) && seenBy.size() >= std::min(n, (size_t)4000), "log:callback", "callback got %zu bytes of a %zu-byte message", seenBy.size(), n);
        lg.setGlobalCallback(nullptr, nullptr);
        lg.stop();
        std::string c = readAll(dir + fmt("/m%zu.log", n));
        size_t q = std::count(c.begin(), c.end(), 'q');
        CHECK_KEY(q >= 6 * std::min(n, (size_t)3900), "log:long", "six %zu-byte messages left %zu bytes", n, q);
        count("long_messages", 6);
    }
    // Nested local contexts restore the outer ones.
    {
        SimpleLogger lg(dir + "/ctx.log", 8);
        lg.start();
        lg.setDispLevel(-1);
        std::string trace;
        auto cb = [&](const char* tag) {
            return [&trace, tag](int, const char*, const char*, size_t, uint64_t, uint32_t, size_t, const char*, const SimpleLogger::CtxMap& c) {
                trace += tag;
                auto e = c.find("k");
                trace += e == c.end() ? "-" : e->second.front();
                trace += " ";
                return true;
            };
        };
        auto pre = [](int, const char*, const char*, size_t, const SimpleLogger::CtxMap&) { return true; };
        auto put = [&] { lg.put(2, "f", "g", 1, "<m>"); };
        lg.setGlobalCallback(pre, cb("G"));
        put();
        {
            SimpleLoggerLocalCtx a(&lg, {{"k", {"1"}}}, pre, cb("A"));
            put();
            { SimpleLoggerLocalCtx b(&lg, {{"k", {"2", "3"}}}, pre, cb("B")); put(); }
            put();
            { SimpleLoggerLocalCtx c(&lg, {{"j", {"9"}}}); put(); }
        }
        put();
        CHECK_KEY(trace == "G- A1 B2 A1 A1 G- ", "log:context", "local contexts: %s", trace.c_str());
        lg.setLogLevel(3);
        lg.setGlobalCallback(nullptr, nullptr);
        CHECK_KEY(lg.checkWhetherToLog(3, "", "", 0) && !lg.checkWhetherToLog(4, "", "", 0), "log:level", "checkWhetherToLog");
        lg.setLogLevel(9);
        CHECK_KEY(lg.getLogLevel() == 3, "log:level", "invalid level accepted");
    }
}

int main(int argc, char** argv) {
    setenv("SIMPLELOGGER_HANDLE_SEGV", "OFF", 1);
    init(argc, argv);
    size_t n = argn("runs", 60);
    misc(st().seed);
    for (size_t i = 0; i < n; ++i) for (int t = 0; t < 5 && !one(st().seed * 100003 + i, 1, t); ++t) {}
    SimpleLogger::shutdown();
    return finish();
}
