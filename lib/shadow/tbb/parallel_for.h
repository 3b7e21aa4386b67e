// Controlled scheduler under the library's parallel algorithms: same body, chunks and order decided by
// the explorer. Everything else of TBB stays as installed.
#pragma once
#include_next <tbb/parallel_for.h>
#include <tbb/blocked_range.h>
#include <cstddef>
#include <functional>
#include <vector>
#include <utility>
namespace mcsched
{
    using Chunks = std::vector<std::pair<std::size_t, std::size_t>>;
    // given a range of n items and the smallest chunk TBB may cut, the chunks in the order in which they run
    inline std::function<Chunks(std::size_t n, std::size_t least)> plan;
    template <class R> std::size_t least(const R &r) { return (r.grainsize() + 1) / 2; }
    inline std::size_t calls = 0;
}
namespace tbb
{
    template <class I, class Body>
    void parallel_for(const blocked_range<I> &r, const Body &body)
    {
        std::size_t n = r.end() - r.begin();
        mcsched::calls++;
        if (!mcsched::plan || n == 0) { if (n) body(r); return; }
        for (auto [a, b] : mcsched::plan(n, mcsched::least(r))) body(blocked_range<I>(r.begin() + a, r.begin() + b));
    }
}
