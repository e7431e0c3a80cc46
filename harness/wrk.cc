// Background workers: an invoked idle worker works, no invocation is lost, one work at a time,
// a stopped or destroyed worker does not start another, settings reach it; level size limits.
#include "common.h"
#include "db_mgr.h"
#include "worker_mgr.h"
#include <cmath>
using namespace hx;
using namespace jungle;

struct TestWorker : public WorkerBase {
    std::atomic<uint64_t> starts{0}, ends{0}, applied{0}, lastSeen{0};
    std::atomic<uint64_t>* alive;
    std::atomic<bool> busy{false}, stopped{false};
    std::atomic<uint64_t> stamp{0};       // last invocation stamp a work has seen at its start
    std::atomic<uint64_t> asked{0};
    std::atomic<uint64_t>* clock;
    unsigned workUs;
    bool again;
    TestWorker(const std::string& n, size_t sleepMs, unsigned us, bool ag, std::atomic<uint64_t>* c, std::atomic<uint64_t>* al)
        : alive(al), clock(c), workUs(us), again(ag) {
        workerName = n;
        curOptions.sleepDurationMs = sleepMs;
        (*alive)++;
    }
    ~TestWorker() {
        if (busy) viol("worker:deleted-busy", "worker deleted while working");
        (*alive)--;
    }
    void start() { handle = std::thread(&WorkerBase::loop, this); }
    void work() override {
        if (busy.exchange(true)) viol("worker:overlap", "two works of one worker at a time");
        starts++;
        stamp = clock->load();
        uint64_t a = lastSeen;
        if (workUs) usleep(workUs);
        if (asked) { asked--; doNotSleepNextTime = true; }
        else if (again && starts % 3 == 1) doNotSleepNextTime = true;
        if (a != lastSeen) viol("worker:config-midwork", "new settings were applied in the middle of a work");
        ends++;
        busy = false;
    }
    void applyNewGlobalConfig(const GlobalConfig& g) override {
        if (busy) viol("worker:config-midwork", "new settings were applied in the middle of a work");
        if (g.fdbCacheSize < lastSeen) viol("worker:config-order", "older settings applied over newer ones");
        lastSeen = g.fdbCacheSize;
        applied++;
    }
};

static void workers(uint64_t seed) {
    Rng r(seed);
    st().context = fmt("workers seed=%llu", (unsigned long long)seed);
    std::atomic<uint64_t> alive(0), clock(0);
    std::vector<TestWorker*> ws;
    size_t n = 1 + r(5);
    std::atomic<uint64_t> totalStarts(0);
    {
        WorkerMgr mgr;
        for (size_t i = 0; i < n; ++i) {
            TestWorker* w = new TestWorker(fmt("%s_%zu", i % 2 ? "odd" : "even", i), 60000, r(800), r.chance(30), &clock, &alive);
            CHECK_KEY(mgr.addWorker(w).ok(), "worker:add", "addWorker failed");
            CHECK_KEY(w->status == WorkerBase::STOP, "worker:add", "added worker is not stopped");
            ws.push_back(w);
            w->start();
            w->run();
        }
        {
            TestWorker dup(fmt("even_0"), 10, 0, false, &clock, &alive);
            CHECK_KEY(mgr.addWorker(&dup) == Status::ALREADY_EXIST, "worker:add", "same name accepted twice");
        }
        for (size_t i = 0; i < n; ++i) CHECK_KEY(mgr.getWorker(ws[i]->name()) == ws[i], "worker:get", "getWorker");
        CHECK_KEY(mgr.getWorker("nobody") == nullptr, "worker:get", "getWorker of an unknown name");
        // A worker that never got a thread must not block the shutdown.
        if (r.chance(30)) mgr.addWorker(new TestWorker("threadless", 10, 0, false, &clock, &alive));

        Noise noise(r);
        uint64_t sd = r.next();
        size_t cfgs = r(6);
        parallel(1 + r(3), [&](size_t t) {
            Rng tr(sd + t);
            for (int i = 0; i < 60; ++i) {
                TestWorker* w = ws[tr(n)];
                uint64_t my = ++clock;
                if (tr.chance(50)) w->invoke();
                else mgr.invokeWorker(w->name());
                if (tr.chance(40)) {
                    // the invocation must lead to a work that starts after it (no time limit is
                    // part of it: the worker sleeps 60 s on its own, so a lost one shows)
                    double t0 = now();
                    while (w->stamp < my && now() - t0 < 20) usleep(50);
                    if (w->stamp < my) viol("worker:lost", "an invocation did not lead to a work");
                    count("invocations_followed");
                } else if (tr.chance(30)) usleep(tr(500));
                count("invocations");
            }
            if (t == 0) for (size_t k = 1; k <= cfgs; ++k) {
                GlobalConfig g;
                g.fdbCacheSize = k;
                mgr.updateGlobalConfig(g);
                if (tr.chance(50)) usleep(tr(1000));
            }
        });
        // every worker is invoked at once
        uint64_t my = ++clock;
        mgr.invokeWorker("_", true);
        double t0 = now();
        for (auto* w : ws) {
            while (w->stamp < my && now() - t0 < 20) usleep(50);
            if (w->stamp < my) viol("worker:lost", "invoking all left a worker out");
            while (w->lastSeen != cfgs && now() - t0 < 20) { w->invoke(); usleep(100); }
            CHECK_KEY(w->lastSeen == cfgs, "worker:config", "worker has settings %llu, latest are %zu", (unsigned long long)w->lastSeen, cfgs);
        }
        // work that asks for another round at once gets it, without an invocation and without sleeping
        {
            TestWorker* w = ws[r(n)];
            usleep(1000);
            uint64_t more = 2 + r(4), at = w->ends;
            w->asked = more;
            w->invoke();
            t0 = now();
            while (w->asked && now() - t0 < 20) usleep(100);
            CHECK_KEY(!w->asked, "worker:no-sleep", "a round that was asked for did not start: %llu of %llu to go, %llu done", (unsigned long long)w->asked.load(), (unsigned long long)more, (unsigned long long)(w->ends - at));
            count("rounds_asked_for", more);
        }
        // a stopped worker finishes what it does and starts nothing else until run again
        TestWorker* w = ws[r(n)];
        w->stop();
        w->doNotSleepNextTime = false;
        double t1 = now();
        while (w->busy && now() - t1 < 20) usleep(50);
        usleep(2000);
        uint64_t s0 = w->starts;
        for (int i = 0; i < 5; ++i) { w->invoke(); usleep(300); }
        CHECK_KEY(w->starts <= s0 && !w->isIdle(), "worker:stop", "a stopped worker started to work");
        w->run();
        uint64_t my2 = ++clock;
        w->invoke();
        t0 = now();
        while (w->stamp < my2 && now() - t0 < 20) { usleep(100); }
        CHECK_KEY(w->stamp >= my2, "worker:run", "a worker that runs again does not work");
        for (auto* x : ws) totalStarts += x->starts;
        if (r.chance(50)) for (auto* x : ws) x->invoke();   // shut down while they work
    }
    CHECK_KEY(alive == 0, "worker:shutdown", "%llu workers left after the shutdown", (unsigned long long)alive.load());
    count("works", totalStarts);
    count("runs");
    seen(hash64(fmt("%zu/%llu", n, (unsigned long long)totalStarts.load())));
    sample(fmt("%zu workers, %llu works", n, (unsigned long long)totalStarts.load()));
}

// Without invocations a worker works by itself, about every sleep period; destroying waits for it.
static void periodic(uint64_t seed) {
    Rng r(seed);
    st().context = "periodic";
    std::atomic<uint64_t> alive(0), clock(0);
    TestWorker w("p", 2, 200, false, &clock, &alive);
    w.status = WorkerBase::STOP;
    w.start();
    w.run();
    double t0 = now();
    while (w.starts < 10 && now() - t0 < 20) usleep(500);
    CHECK_KEY(w.starts >= 10, "worker:periodic", "%llu works in 20 s with a period of 2 ms", (unsigned long long)w.starts);
    WorkerBase::DestroyOptions o;
    w.curOptions.sleepDurationMs = 60000;
    usleep(5000);
    t0 = now();
    w.destroy(o);
    CHECK_KEY(now() - t0 < 20 && w.status == WorkerBase::NO_INSTANCE && !w.handle.joinable(), "worker:destroy", "destroy took %.1f s", now() - t0);
    count("periodic", w.starts);
}

static void levels(uint64_t seed) {
    Rng r(seed);
    st().context = "level sizes";
    for (int i = 0; i < 300; ++i) {
        DBConfig c;
        c.maxL0TableSize = 1 + r(1ull << 32);
        c.maxL1TableSize = 1 + r(1ull << 32);
        c.tableSizeRatio.clear();
        size_t n = r(5);
        for (size_t k = 0; k < n; ++k) c.tableSizeRatio.push_back(1 + r(40) / 4.0);
        double prev = c.maxL1TableSize;
        CHECK_KEY(c.getMaxTableSize(0) == c.maxL0TableSize && c.getMaxTableSize(1) == c.maxL1TableSize, "config:size", "base sizes");
        for (size_t lv = 2; lv < 7; ++lv) {
            double f = lv - 2 < n ? c.tableSizeRatio[lv - 2] : (n ? c.tableSizeRatio.back() : 10);
            if (prev * f > 9e18) break;
            double got = (double)c.getMaxTableSize(lv);
            CHECK_KEY(std::fabs(got - std::floor(prev * f)) <= 2 + got * 1e-12, "config:size", "level %zu limit %.0f, expected %.0f", lv, got, prev * f);
            prev = got;
            count("size_checks");
        }
        size_t want = r(6);
        c.maxParallelWritesPerJob = want;
        c.readOnly = r.chance(30);
        GlobalConfig* g = DBMgr::getWithoutInit()->getGlobalConfig();
        size_t tasks = g->numFlusherThreads + g->numCompactorThreads, e;
        if (want) e = want;
        else if (c.readOnly || !tasks) e = 1;
        else { e = (g->numTableWriters + 2 * tasks - 1) / tasks; if (e == 1 && g->numTableWriters) e = 2; if (!e) e = 1; }
        CHECK_KEY(c.getMaxParallelWriters() == e, "config:writers", "parallel writers %zu, expected %zu", c.getMaxParallelWriters(), e);
    }
}

int main(int argc, char** argv) {
    setenv("SIMPLELOGGER_HANDLE_SEGV", "OFF", 1);
    init(argc, argv);
    GlobalConfig g;
    g.globalLogPath = st().scratch;
    jungle::init(g);
    levels(st().seed);
    for (size_t i = 0; i < argn("runs", 40); ++i) { workers(st().seed * 1000 + i); if (i % 10 == 0) periodic(i); }
    jungle::shutdown();
    return finish();
}
