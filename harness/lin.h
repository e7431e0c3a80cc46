// Linearizability of a history on one object, by Wing-Gong search with memoisation.
// An operation is an interval [inv, ret] and a function over a small integer state.
#pragma once
#include <cstdint>
#include <functional>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <string>

namespace lin {
struct Op {
    uint64_t inv, ret;   // real-time interval; ret = UINT64_MAX when it never returned
    int kind;
    int64_t arg, res;
    int tid;
};
enum Verdict { OK, VIOLATION, UNKNOWN };

// step(state, op, next): whether op can take effect in state with its recorded result.
inline Verdict check(std::vector<Op> ops, int64_t init, const std::function<bool(int64_t, const Op&, int64_t&)>& step,
                     uint64_t budget = 2000000) {
    std::sort(ops.begin(), ops.end(), [](const Op& a, const Op& b) { return a.inv < b.inv; });
    size_t n = ops.size();
    // Configuration: `base` ops are all linearised, plus a set of later ones (small: bounded by concurrency).
    struct Cfg { size_t base; std::vector<uint32_t> extra; int64_t st; };
    auto key = [](const Cfg& c) {
        std::string k((const char*)&c.base, sizeof(c.base));
        k.append((const char*)&c.st, sizeof(c.st));
        for (uint32_t e : c.extra) k.append((const char*)&e, 4);
        return k;
    };
    std::unordered_set<std::string> visited;
    std::vector<Cfg> stack;
    stack.push_back(Cfg{0, {}, init});
    uint64_t spent = 0;
    while (!stack.empty()) {
        Cfg c = stack.back();
        stack.pop_back();
        while (c.base < n) {
            auto e = std::find(c.extra.begin(), c.extra.end(), (uint32_t)c.base);
            if (e == c.extra.end()) break;
            c.extra.erase(e);
            c.base++;
        }
        if (c.base == n) return OK;
        if (!visited.insert(key(c)).second) continue;
        if (++spent > budget) return UNKNOWN;
        // candidates: not yet linearised, invoked before the earliest return of the unlinearised
        uint64_t minRet = UINT64_MAX;
        bool onlyPending = true;
        for (size_t i = c.base; i < n; ++i) {
            if (ops[i].inv > minRet) break;
            if (std::find(c.extra.begin(), c.extra.end(), (uint32_t)i) != c.extra.end()) continue;
            minRet = std::min(minRet, ops[i].ret);
            if (ops[i].ret != UINT64_MAX) onlyPending = false;
        }
        if (onlyPending && minRet == UINT64_MAX) {
            // Whether any op is left that did return?
            bool left = false;
            for (size_t i = c.base; i < n && !left; ++i)
                if (ops[i].ret != UINT64_MAX && std::find(c.extra.begin(), c.extra.end(), (uint32_t)i) == c.extra.end())
                    left = true;
            if (!left) return OK;
        }
        for (size_t i = c.base; i < n; ++i) {
            if (ops[i].inv > minRet) break;
            if (std::find(c.extra.begin(), c.extra.end(), (uint32_t)i) != c.extra.end()) continue;
            int64_t nx;
            if (!step(c.st, ops[i], nx)) continue;
            Cfg d = c;
            d.st = nx;
            d.extra.insert(std::upper_bound(d.extra.begin(), d.extra.end(), (uint32_t)i), (uint32_t)i);
            stack.push_back(std::move(d));
        }
    }
    return VIOLATION;
}
}  // namespace lin
