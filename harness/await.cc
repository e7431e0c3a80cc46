// SRCS: crc32.cc
// Event awaiter (both copies): an invocation before or during a wait always ends it, a wait that
// nobody invoked lasts at least its timeout, and no protocol of waits and invocations hangs.
#include "common.h"
#include "event_awaiter.h"
#include "simple_thread_pool.h"
#include <unistd.h>
using namespace hx;

static std::atomic<uint64_t> progress{0};
static std::atomic<bool> finished{false};

// Ends the process with a report when nothing moved for a long time: a lost wakeup.
static void watchdog() {
    uint64_t last = 0;
    int idle = 0;
    while (!finished) {
        std::this_thread::sleep_for(std::chrono::milliseconds(100));
        uint64_t p = progress;
        idle = p == last ? idle + 1 : 0;
        last = p;
        if (idle > 400) {
            viol("await:lost-wakeup", "a waiter has been asleep for 40 s although it was invoked");
            finish();
            fflush(stdout);
            _exit(1);
        }
    }
}

template <typename EA> static void pingPong(uint64_t seed, const char* which) {
    Rng r(seed);
    st().context = fmt("ping-pong seed=%llu %s", (unsigned long long)seed, which);
    EA a, b;
    size_t rounds = r.range(20, 200);
    Noise noise(r);
    std::atomic<uint64_t> turnA{0}, turnB{0}, early{0};
    auto side = [&](EA& mine, EA& other, std::atomic<uint64_t>& in, std::atomic<uint64_t>& out, uint64_t s, bool first) {
        Rng q(s);
        for (size_t i = 1; i <= rounds; ++i) {
            if (!first || i > 1) {
                for (;;) {
                    mine.wait();
                    mine.reset();
                    if (in.load() >= (first ? i - 1 : i)) break;
                    early++;   // an old notification: legal, wait again
                }
            }
            if (q.chance(20)) std::this_thread::yield();
            if (q.chance(2)) std::this_thread::sleep_for(std::chrono::microseconds(q(300)));
            out++;
            other.invoke();
            progress++;
        }
    };
    std::thread ta([&] { side(a, b, turnB, turnA, seed * 3, true); });
    std::thread tb([&] { side(b, a, turnA, turnB, seed * 5, false); });
    ta.join();
    tb.join();
    CHECK_KEY(early <= rounds, "await:spurious", "%llu wakeups without an invocation in %zu rounds", (unsigned long long)early, rounds);
    count("handovers", rounds * 2);
    seen(hash64(&seed, 8));
}

// One consumer, several producers that publish work before invoking: all work must be consumed.
template <typename EA> static void producers(uint64_t seed, const char* which) {
    Rng r(seed);
    st().context = fmt("producers seed=%llu %s", (unsigned long long)seed, which);
    size_t np = r.range(1, 5), per = r.range(5, 120);
    EA ea;
    std::atomic<uint64_t> queued{0}, done{0}, waits{0};
    Noise noise(r);
    bool timed = r.chance(30);
    std::thread consumer([&] {
        uint64_t total = np * per;
        while (done < total) {
            if (timed) ea.wait_us(20000000);
            else ea.wait();
            ea.reset();
            waits++;
            uint64_t q = queued.load();
            if (q > done) { done = q; progress++; }
        }
    });
    parallel(np, [&](size_t t) {
        Rng q(seed * 31 + t);
        for (size_t i = 0; i < per; ++i) {
            queued++;
            ea.invoke();
            if (q.chance(30)) std::this_thread::yield();
            if (q.chance(5)) std::this_thread::sleep_for(std::chrono::microseconds(q(200)));
        }
    });
    consumer.join();
    count("invocations", np * per);
    count("waits", waits);
    seen(hash64(&seed, 8));
}

// Exactly one waiter and one invoker per object, no reset in between: wait() always returns.
template <typename EA> static void oneShot(uint64_t seed, const char* which) {
    Rng r(seed);
    st().context = fmt("one-shot seed=%llu %s", (unsigned long long)seed, which);
    size_t n = 60;
    std::vector<std::unique_ptr<EA>> v;
    for (size_t i = 0; i < n; ++i) v.emplace_back(new EA());
    std::vector<std::atomic<int>> flag(n);
    for (auto& f : flag) f = 0;
    Noise noise(r);
    std::atomic<uint64_t> early{0};
    std::atomic<size_t> pos{0};
    parallel(2, [&](size_t t) {
        Rng q(seed * 31 + t);
        for (size_t i = 0; i < n; ++i) {
            if (t == 0) {
                // meet just before the interesting object
                pos = i;
                uint64_t spin = q(200);
                for (volatile uint64_t k = 0; k < spin; k = k + 1) {}
                v[i]->wait();
                if (!flag[i]) early++;
                progress++;
            } else {
                while (pos.load() < i) std::this_thread::yield();
                uint64_t spin = q(200);
                for (volatile uint64_t k = 0; k < spin; k = k + 1) {}
                flag[i] = 1;
                v[i]->invoke();
            }
        }
    });
    CHECK_KEY(early <= 2, "await:spurious", "%llu of %zu waits returned without an invocation", (unsigned long long)early, n);
    count("one_shots", n);
    seen(hash64(&seed, 8));
}

template <typename EA> static void timeouts(const char* which) {
    st().context = fmt("timeouts %s", which);
    for (int i = 0; i < 4; ++i) {
        EA ea;
        uint64_t us = 15000 + 5000 * i;
        size_t good = 0;
        for (int k = 0; k < 3; ++k) {   // a condition variable may wake up spuriously now and then
            double t0 = now();
            if (i & 1) ea.wait_ms(us / 1000); else ea.wait_us(us);
            if ((now() - t0) * 1e6 > us * 0.9) good++;
            ea.reset();
        }
        CHECK_KEY(good >= 2, "await:timeout-early", "waits of %llu us that nobody invoked returned early", (unsigned long long)us);
        ea.invoke();
        double t0 = now();
        ea.wait_us(30000000);
        CHECK_KEY(now() - t0 < 20, "await:lost-wakeup", "a wait after an invocation slept its full timeout");
        progress++;
        count("timed_waits", 4);
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    uint64_t n = argn("runs", 300);
    std::thread wd(watchdog);
    for (uint64_t i = 0; i < n; ++i) {
        uint64_t s = st().seed * 1000003 + i;
        if (i & 1) { pingPong<EventAwaiter>(s, "EventAwaiter"); producers<EventAwaiter>(s, "EventAwaiter"); oneShot<EventAwaiter>(s, "EventAwaiter"); }
        else {
            using E = simple_thread_pool::EventAwaiter;
            pingPong<E>(s, "pool's EventAwaiter"); producers<E>(s, "pool's EventAwaiter"); oneShot<E>(s, "pool's EventAwaiter");
        }
    }
    timeouts<EventAwaiter>("EventAwaiter");
    timeouts<simple_thread_pool::EventAwaiter>("pool's EventAwaiter");
    finished = true;
    wd.join();
    return finish();
}
