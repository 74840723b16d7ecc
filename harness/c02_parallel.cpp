// C02: arrays evaluated on several threads and trees mapped on the worker pool, against serial evaluation.
#include <atomic>
#include <future>
#include <map>
#include <memory>
#include <set>
#include "vp.hpp"
#include "watchdog.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "core_thread_pool.hpp"
#include "core_tree.hpp"
#include "app_parallel.hpp"
using vp::rng_t;
static vp::watchdog_t dog(60);
struct guard_t { guard_t(const char* what) { dog.what = what; dog.ticks++; dog.armed = true; } ~guard_t() { dog.armed = false; dog.ticks++; } };

struct heavy_t { std::string name; std::vector<double> v; bool operator==(const heavy_t& o) const { return name == o.name && v == o.v; } };
template<typename T> static T make(std::size_t n);
template<> double make(std::size_t n) { return std::sin(double(n)) * 1e3; }
template<> int make(std::size_t n) { return int(n * 2654435761u); }
template<> heavy_t make(std::size_t n) { return {std::string(n % 40, char('a' + n % 26)), std::vector<double>(n % 7, double(n))}; }

// a short, random pause now and then, so that threads overlap in many ways
static void pause(std::uint64_t h) { if (h % 16 == 0) { volatile int x = 0; for (int i = 0; i < int(h / 16 % 400); ++i) x += i; if (h % 64 == 0) std::this_thread::yield(); } }

template<std::size_t N, typename T, std::size_t R> static void evaluated(rng_t& rng, nd::shape_t<R> shape)
{
    std::size_t volume = 1; for (auto n : shape) volume *= n;
    std::unique_ptr<std::atomic<int>[]> calls(new std::atomic<int>[volume + 1]); for (std::size_t i = 0; i <= volume; ++i) calls[i] = 0;
    std::atomic<int> stray {0}; std::uint64_t salt = rng.next();
    auto number = [=] (auto index) { std::size_t n = 0; for (std::size_t a = 0; a < R; ++a) n = n * shape[a] + index[a]; return n; };
    auto p = calls.get(); auto* s = &stray;
    auto array = nd::make_array([=] (auto index)
    {
        for (std::size_t a = 0; a < R; ++a) if (index[a] >= shape[a]) { (*s)++; return T(); }
        auto n = number(index); p[n]++; pause(vp::mix(salt ^ n)); return make<T>(n);
    }, shape);
    guard_t watch("evaluate_on");
    auto result = array | mara::evaluate_on<N>();
    bool once = stray == 0; std::size_t wrong = 0;
    for (std::size_t i = 0; i < volume; ++i) if (p[i] != 1) { once = false; wrong = i; }
    VP_CHECK(once, "array/once", "element %zu of %zu was computed %d times (%d outside) on %zu threads", wrong, volume, volume ? int(p[wrong]) : 0, int(stray), N);
    VP_CHECK(result.shape() == shape, "array/shape", "shape changed on %zu threads", N);
    bool same = result.size() == volume; std::size_t seen = 0;
    if (result.shape() == shape) for (auto index : result.indexes()) { same = same && result(index) == make<T>(number(index)); ++seen; }
    VP_CHECK(same && seen == volume, "array/values", "%zu elements on %zu threads differ from the serial evaluation", volume, N);
    vp::observe(volume == 0 ? "array-empty" : shape[0] < N ? "array-few-rows" : shape[0] % N ? "array-uneven" : "array-even");
    vp::signature(vp::fmt("%zu threads, %zu axes, %zu x %zu", N, R, shape[0], shape[R - 1]));
}
template<typename T, std::size_t R> static void on_threads(rng_t& rng, nd::shape_t<R> shape)
{
    if constexpr (std::is_same<T, int>::value && R < 3) if (rng.chance(0.12)) { vp::observe("many-threads"); switch (rng.range(0, 2)) { case 0: return evaluated<24, T>(rng, shape); case 1: return evaluated<33, T>(rng, shape); default: return evaluated<64, T>(rng, shape); } }
    switch (rng.range(0, 8))
    {
        case 0: return evaluated<1, T>(rng, shape);
        case 1: return evaluated<2, T>(rng, shape);
        case 2: return evaluated<3, T>(rng, shape);
        case 3: return evaluated<4, T>(rng, shape);
        case 4: return evaluated<5, T>(rng, shape);
        case 5: return evaluated<7, T>(rng, shape);
        case 6: return evaluated<8, T>(rng, shape);
        case 7: return evaluated<12, T>(rng, shape);
        case 8: return evaluated<16, T>(rng, shape);
    }
}
static std::size_t extent(rng_t& r) { return r.chance(0.06) ? 0 : r.chance(0.03) ? r.range(40, 150) : r.chance(0.5) ? r.range(1, 16) : r.range(1, 40); }
VP_SECTION("arrays on threads", 500, 12000)
{
    int kind = rng.range(0, 2), rank = rng.range(1, 3);
    vp::context(vp::fmt("kind %d rank %d", kind, rank));
    auto go = [&] (auto t)
    {
        using T = decltype(t);
        if (rank == 1) on_threads<T, 1>(rng, nd::make_shape(rng.chance(0.1) ? std::size_t(rng.range(100, 20000)) : extent(rng)));
        else if (rank == 2) on_threads<T, 2>(rng, nd::make_shape(extent(rng), extent(rng)));
        else on_threads<T, 3>(rng, nd::make_shape(extent(rng) % 14, extent(rng) % 10, extent(rng) % 10));
    };
    if (kind == 0) go(double()); else if (kind == 1) go(int()); else go(heavy_t());
}

//-----------------------------------------------------------------------------
template<std::size_t R, typename T> using tree_t = mara::arithmetic_binary_tree_t<T, R>;
template<std::size_t R> static tree_t<R, long> grow(rng_t& rng, int depth, long& next)
{
    auto t = mara::tree_of<R>(0l);
    int cuts = rng.range(0, R == 1 ? 14 : R == 2 ? 10 : 4);
    for (int i = 0; i < cuts; ++i)
    {
        long target = rng.range(0, t.size() - 1), k = 0; std::uint64_t salt = rng.next();
        // split some leaves that are not too deep
        t = t.indexes().pair(t).bifurcate_if(
            [&, salt] (auto iv) { long me = k++; return int(std::get<0>(iv).level) < depth && (me == target || vp::mix(salt + me) % 5 == 0); },
            [] (auto iv) { mara::arithmetic_sequence_t<decltype(iv), (1 << R)> c; for (auto& x : c) x = iv; return c; })
            .map([] (auto iv) { return std::get<1>(iv); });
    }
    return t.map([&] (long) { return next++; });
}
template<typename I> static std::string name_of(const I& k) { std::string s = std::to_string(k.level); for (auto x : k.coordinates) s += "," + std::to_string(x); return s; }
template<std::size_t R> static void mapped(rng_t& rng)
{
    long n = 0; auto t = grow<R>(rng, 4, n);
    int workers = rng.chance(0.06) ? rng.range(10, 40) : rng.range(1, 9); std::uint64_t salt = rng.next();
    vp::context(vp::fmt("rank %zu, %ld leaves, %d workers", R, n, workers));
    std::unique_ptr<std::atomic<int>[]> calls(new std::atomic<int>[n + 1]); for (long i = 0; i <= n; ++i) calls[i] = 0;
    auto p = calls.get();
    auto reset = [&] { for (long i = 0; i <= n; ++i) p[i] = 0; };
    auto once = [&] { for (long i = 0; i < n; ++i) if (p[i] != 1) return i; return -1l; };
    auto f = [p, salt] (long x) { p[x]++; pause(vp::mix(salt ^ x)); return heavy_t {std::to_string(x), std::vector<double>(x % 5, double(x))}; };
    auto serial = t.map(f); reset();
    guard_t watch("map on the pool");
    mara::thread_pool_t pool(workers);
    auto same = [&] (const auto& a, const auto& b)
    {
        std::vector<heavy_t> x, y; a.sink([&] (auto v) { x.push_back(v); }); b.sink([&] (auto v) { y.push_back(v); });
        std::vector<std::string> i, j; a.indexes().sink([&] (auto k) { i.push_back(name_of(k)); }); b.indexes().sink([&] (auto k) { j.push_back(name_of(k)); });
        return x == y && i == j;
    };
    for (int again = 0; again < 2; ++again)
    {
        auto r = t.map(f, pool);
        auto bad = once(); VP_CHECK(bad < 0, "tree/once", "leaf %ld was computed %d times", bad, bad < 0 ? 1 : int(p[bad])); reset();
        bool ok = same(serial, r); VP_CHECK(ok, "tree/values", "mapping on the pool differs from serial mapping");
        // several arguments
        auto g = [p, salt] (long a, long b) { p[a]++; pause(vp::mix(salt + a)); return heavy_t {std::to_string(a + b), {}}; };
        auto pairs = t.pair(t.map([] (long x) { return x * 3; }));
        auto want = pairs.apply(g); reset();
        auto got = pairs.apply(g, pool);
        bad = once(); VP_CHECK(bad < 0, "tree/once", "leaf %ld was computed %d times", bad, bad < 0 ? 1 : int(p[bad])); reset();
        ok = same(want, got); VP_CHECK(ok, "tree/apply", "applying on the pool differs from serial application");
        if (n <= 64 && again == 0)
        {
            auto mode = rng.chance(0.5) ? std::launch::async : std::launch::deferred;
            auto u = t; auto q = u.map(f, mode);
            bad = once(); VP_CHECK(bad < 0, "tree/once", "leaf %ld was computed %d times", bad, bad < 0 ? 1 : int(p[bad])); reset();
            ok = same(serial, q); VP_CHECK(ok, "tree/async", "mapping asynchronously differs from serial mapping"); vp::observe("async");
        }
#ifndef __SANITIZE_THREAD__ // the reference count of an exception is kept in a library the race detector does not see
        if (rng.chance(0.2))
        {
            // a function that fails: the error arrives, and the pool works on
            long victim = rng.range(0, n - 1); bool arrived = false;
            try { t.map([victim] (long x) { if (x == victim) throw std::runtime_error("victim"); return x; }, pool); } catch (const std::runtime_error& e) { arrived = std::string(e.what()) == "victim"; }
            VP_CHECK(arrived, "tree/error", "the error of leaf %ld was lost", victim); vp::observe("error");
        }
#endif
        if (again == 0 && rng.chance(0.4)) { pool.restart(workers = int(rng.range(1, 9))); vp::observe("restarted"); }
    }
    vp::observe(n == 1 ? "tree-single" : n < workers ? "tree-few" : "tree-many");
    vp::signature(vp::S().context);
}
VP_SECTION("trees on the pool", 250, 6000)
{
    switch (index % 3) { case 0: return mapped<1>(rng); case 1: return mapped<2>(rng); default: return mapped<3>(rng); }
}
VP_MAIN()
