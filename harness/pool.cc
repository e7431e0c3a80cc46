// SRCS: crc32.cc
// Thread pool (simple_thread_pool.h): every one-time task is executed or cancelled exactly once,
// not before its time, also when the pool shuts down at any moment; recurring tasks never overlap
// themselves; nothing runs after shutdown() returned.
#include "common.h"
#include "simple_thread_pool.h"
using namespace hx;
using namespace simple_thread_pool;
using Clock = std::chrono::system_clock;

struct Task {
    std::atomic<int> ok{0}, canceled{0}, active{0}, overlap{0}, early{0}, late{0}, afterCancel{0};
    std::atomic<bool> addReturned{false};
    std::atomic<int> cancelRet{-1};      // result of the first cancel() that returned true, or the last false
    bool recurring = false;
    uint64_t us = 0;
    Clock::time_point added;
    std::shared_ptr<TaskHandle> h;
    std::atomic<TaskHandle*> h2{nullptr};
};

static std::atomic<uint64_t> timely{0}, tardy{0};

static void run(uint64_t seed) {
    Rng r0(seed);
    ThreadPoolOptions opt;
    opt.numInitialThreads = r0.pick(std::vector<size_t>{0, 1, 1, 2, 4, 8});
    opt.busyWaitingIntervalUs = r0.pick(std::vector<size_t>{0, 100, 2000});
    opt.invokeCanceledTask = r0.chance(60);
    size_t np = r0.range(1, 4), per = r0.range(1, 25);
    bool drain = r0.chance(35);
    bool nested = r0.chance(40);
    st().context = fmt("pool seed=%llu threads=%zu producers=%zu tasks=%zu %s", (unsigned long long)seed, opt.numInitialThreads, np, per, drain ? "drained" : "shut down midway");
    std::atomic<bool> closed{false};
    std::vector<std::vector<std::shared_ptr<Task>>> tasks(np);
    std::vector<std::vector<std::shared_ptr<Task>>> extra(np);   // added by handlers
    std::mutex extraLock;
    ThreadPoolMgr* mgr = new ThreadPoolMgr();
    bool alive = true;
    std::atomic<uint64_t> executed{0};
    std::atomic<int> quickTasks{0};
    {
        Noise noise(r0);
        mgr->init(opt);
        std::function<std::shared_ptr<Task>(Rng&, int)> add = [&](Rng& r, int depth) {
            auto t = std::make_shared<Task>();
            t->recurring = depth == 0 && r.chance(20);
            // few and light enough not to starve the others on one thread
            bool quick = t->recurring && r.chance(40) && quickTasks.fetch_add(1) < 2;
            t->us = t->recurring ? (quick ? r.range(8000, 12000) : r.range(20000, 60000)) : r.chance(60) ? 0 : r.range(1, 8000);
            unsigned work = t->recurring ? (quick ? r.range(1, 3000) : 0) : r.chance(60) ? 0 : r.range(1, 2000);
            bool selfCancel = t->recurring && r.chance(30);
            bool child = nested && depth < 2 && !t->recurring && r.chance(40);
            uint64_t cseed = r.next();
            size_t slot = r(np);
            std::weak_ptr<Task> w = t;
            Task* p = t.get();    // kept alive by `tasks`/`extra` beyond the pool
            TaskHandler fn = [&, p, work, child, cseed, depth, slot, selfCancel](const TaskResult& res) {
                if (closed) p->late++;
                if (p->active.fetch_add(1)) p->overlap++;
                if (res.value() == TaskResult::OK) {
                    if (!p->recurring && Clock::now() - p->added < std::chrono::microseconds(p->us)) p->early++;
                    if (!p->recurring && drain) (Clock::now() - p->added > std::chrono::microseconds(p->us + 500000) ? tardy : timely)++;
                    p->ok++;
                    executed++;
                    if (p->recurring && p->cancelRet == 1) p->afterCancel++;
                    if (selfCancel && p->h2 && p->cancelRet != 1) p->cancelRet = p->h2.load()->cancel();
                    if (work) { auto e = Clock::now() + std::chrono::microseconds(work); while (Clock::now() < e) std::this_thread::yield(); }
                    if (child && !mgr->isStopped()) {
                        Rng q(cseed);
                        auto c = add(q, depth + 1);
                        std::lock_guard<std::mutex> l(extraLock);
                        extra[slot].push_back(c);
                    }
                } else p->canceled++;
                p->active--;
                if (closed) p->late++;
            };
            t->added = Clock::now();
            t->h = mgr->addTask(fn, t->us, t->recurring ? RECURRING : ONE_TIME);
            t->h2 = t->h.get();
            t->addReturned = true;
            return t;
        };
        parallel(np + 1, [&](size_t me) {
            Rng r(seed * 31 + me);
            if (me == np) {     // main: wait a little
                if (!drain) std::this_thread::sleep_for(std::chrono::microseconds(r(4000)));
                return;
            }
            for (size_t i = 0; i < per; ++i) {
                tasks[me].push_back(add(r, 0));
                if (r.chance(25)) {
                    auto& t = tasks[me][r(tasks[me].size())];
                    if (t->cancelRet != 1) t->cancelRet = t->h->cancel();
                }
                if (r.chance(20)) std::this_thread::sleep_for(std::chrono::microseconds(r(600)));
            }
        });
        if (drain) {
            double t0 = now();
            for (;;) {
                size_t open = 0;
                for (auto& v : tasks) for (auto& t : v) {
                    if (t->recurring) {
                        if (t->ok < 2 && t->cancelRet != 1) open++;
                    } else if (!t->h->isDone()) open++;
                }
                { std::lock_guard<std::mutex> l(extraLock);
                  for (auto& v : extra) for (auto& t : v) if (!t->h->isDone()) open++; }
                if (!open) break;
                if (now() - t0 > 60) { viol("pool:stuck", fmt("%zu tasks were not executed within 60 s", open)); break; }
                std::this_thread::sleep_for(std::chrono::microseconds(200));
            }
            for (auto& v : tasks) for (auto& t : v) if (t->recurring && r0.chance(50) && t->cancelRet != 1) t->cancelRet = t->h->cancel();
            // a cancelled recurring task stays quiet, also when it was running just then
            if (r0.chance(50)) std::this_thread::sleep_for(std::chrono::milliseconds(40));
            for (auto& v : tasks) for (auto& t : v) if (t->recurring && t->cancelRet == 1) {
                count("recurring_cancelled");
                if (!t->active && !t->h->isDone()) viol("pool:after-cancel", "a cancelled recurring task is not done");
            }
            count("drained_runs");
        }
        if (r0.chance(50)) mgr->shutdown();
        else { delete mgr; alive = false; }
        closed = true;
        if (alive && r0.chance(30)) mgr->shutdown();   // twice: harmless
        for (auto& v : tasks) for (auto& t : v) if (t->active) viol("pool:running-after-shutdown", "a task was still running after shutdown returned");
        if (r0.chance(20)) std::this_thread::sleep_for(std::chrono::milliseconds(3));
        if (alive) delete mgr;
    }
    uint64_t n = 0, canceledN = 0;
    auto judge = [&](Task& t, const char* who) {
        n++;
        CHECK_KEY(!t.late && !t.active, "pool:running-after-shutdown", "%s ran after shutdown returned", who);
        CHECK_KEY(!t.overlap, "pool:overlap", "%s overlapped itself", who);
        CHECK_KEY(!t.early, "pool:early", "%s delayed by %llu us ran early", who, (unsigned long long)t.us);
        if (t.recurring) {
            CHECK_KEY(t.afterCancel <= 1, "pool:after-cancel", "a recurring task ran %d more times after its cancellation", t.afterCancel.load());
            return;
        }
        int ok = t.ok, ca = t.canceled;
        CHECK_KEY(ok <= 1, "pool:twice", "%s was executed %d times", who, ok);
        CHECK_KEY(t.h->isDone(), "pool:lost", "%s was neither executed nor cancelled (executed %d, cancel callbacks %d)", who, ok, ca);
        if (t.cancelRet == 1) CHECK_KEY(ok == 0, "pool:cancelled-ran", "%s ran although cancel() succeeded", who);
        if (t.cancelRet == 0) CHECK_KEY(ok == 1 || t.canceled == 1 || !opt.invokeCanceledTask, "pool:cancel-lied", "cancel() failed, yet %s never ran", who);
        if (opt.invokeCanceledTask) CHECK_KEY(ok + ca == 1, "pool:exactly-once", "%s: handler called %d times with OK and %d times with CANCELED", who, ok, ca);
        else CHECK_KEY(ca == 0, "pool:exactly-once", "%s: unwanted cancel callback", who);
        if (drain && t.cancelRet != 1) CHECK_KEY(ok == 1, "pool:lost", "%s was cancelled although the pool was drained first", who);
        canceledN += ok == 0;
    };
    std::string sig = fmt("%zu.%d.%d.", opt.numInitialThreads, drain, opt.invokeCanceledTask);
    for (auto& v : tasks) for (auto& t : v) {
        judge(*t, t->us ? "a timed task" : "a task");
        sig += (char)('a' + (t->recurring ? 8 : 0) + (t->us ? 4 : 0) + (t->ok ? 2 : 0) + (t->canceled ? 1 : 0));
    }
    for (auto& v : extra) for (auto& t : v) {
        // added from inside a handler, possibly when the pool was stopping already: at most once then
        CHECK_KEY(t->ok + t->canceled <= 1, "pool:twice", "a nested task was called %d times", t->ok + t->canceled);
        CHECK_KEY(!t->late && !t->active, "pool:running-after-shutdown", "a nested task ran after shutdown returned");
        CHECK_KEY(!drain || t->ok == 1, "pool:lost", "a nested task was not executed");
        n++;
    }
    seen(hash64(sig));
    count("tasks", n);
    count("executed", executed);
    count("cancelled", canceledN);
    count("pool_runs");
    // break the reference cycle handle -> handler -> task
    for (auto& v : tasks) for (auto& t : v) t->h.reset();
    for (auto& v : extra) for (auto& t : v) t->h.reset();
}

int main(int argc, char** argv) {
    init(argc, argv);
    uint64_t n = argn("runs", 150);
    for (uint64_t i = 0; i < n; ++i) run(st().seed * 1000003 + i);
    count("timely", timely);
    count("tardy", tardy);
    // a single late task says nothing on a busy machine; one in 25 being half a second late does
    CHECK_KEY(timely + tardy < 200 || tardy * 25 < timely, "pool:tardy", "%llu of %llu tasks ran over 0.5 s late", (unsigned long long)tardy, (unsigned long long)(timely + tardy));
    return finish();
}
