// Controlled scheduler: functional parallel_reduce over explorer-chosen chunks (computed in any order,
// joined left to right).
#pragma once
#include_next <tbb/parallel_reduce.h>
#include "parallel_for.h"
namespace tbb
{
    template <class I, class Value, class RealBody, class Reduction>
    Value parallel_reduce(const blocked_range<I> &r, const Value &identity, const RealBody &body, const Reduction &reduction)
    {
        std::size_t n = r.end() - r.begin();
        mcsched::calls++;
        if (!mcsched::plan || n == 0) return n ? body(r, identity) : identity;
        std::vector<std::pair<std::size_t, Value>> part;
        for (auto [a, b] : mcsched::plan(n, mcsched::least(r))) part.push_back({a, body(blocked_range<I>(r.begin() + a, r.begin() + b), identity)});
        std::sort(part.begin(), part.end(), [](const auto &x, const auto &y) { return x.first < y.first; });
        Value v = part[0].second;
        for (std::size_t i = 1; i < part.size(); i++) v = reduction(v, part[i].second);
        return v;
    }
}
#include <memory>
#include <algorithm>
namespace tbb
{
    template <class I, class Body>
    void parallel_reduce(const blocked_range<I> &r, Body &body)
    {
        std::size_t n = r.end() - r.begin();
        mcsched::calls++;
        if (!mcsched::plan || n == 0) { if (n) body(r); return; }
        std::vector<std::pair<std::size_t, std::unique_ptr<Body>>> part;
        for (auto [a, b] : mcsched::plan(n, mcsched::least(r)))
            if (a == 0) body(blocked_range<I>(r.begin(), r.begin() + b));
            else
            {
                part.emplace_back(a, new Body(body, split()));
                (*part.back().second)(blocked_range<I>(r.begin() + a, r.begin() + b));
            }
        std::sort(part.begin(), part.end(), [](const auto &x, const auto &y) { return x.first < y.first; });
        for (auto &p : part) body.join(*p.second);
    }
}
