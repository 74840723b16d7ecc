// C02: whole runs with different numbers of threads leave identical files, without data races.
#include "app.hpp"
static std::string num(double x) { return vp::fmt("%.6g", x); }
static void compare(const std::string& a, const std::string& b, const std::string& how, const std::vector<std::string>& ignore)
{
    auto fa = app::files(a), fb = app::files(b); vp::check(fa == fb && ! fa.empty(), "runs/files", how + vp::fmt(": %zu and %zu files", fa.size(), fb.size()));
    for (auto& f : fa)
    {
        if (f.size() < 3 || f.substr(f.size() - 3) != ".h5") continue;
        app::file_t x, y; bool ok = app::load(a + "/" + f, x) && app::load(b + "/" + f, y); vp::check(ok, "runs/unreadable", how + ": " + f);
        if (ok) { auto d = app::difference(x, y, ignore); vp::check(d.empty(), "runs/differ", how + ": " + f + ": " + d); vp::observe("file-compared"); }
    }
}
static std::string race(const std::string& err) { auto i = err.find("WARNING: ThreadSanitizer"); return i == std::string::npos ? "" : err.substr(i, 1500); }

static app::args_t disk(vp::rng_t& rng)
{
    return {"binary", "depth=" + std::to_string(rng.range(1, 3)), "block_size=" + std::to_string(2 * rng.range(2, 5)), "domain_radius=" + num(rng.uniform(3, 6)), "tfinal=" + num(rng.uniform(0.01, 0.03)),
        "cpi=" + num(rng.uniform(0.004, 0.01)), "dfi=" + num(rng.uniform(0.004, 0.01)), "tsi=" + num(rng.uniform(0.002, 0.006)), "outdir=out", "conserve_linear_p=" + std::to_string(rng.range(0, 1)), "rk_order=" + std::to_string(rng.range(1, 2)),
        std::string("reconstruct_method=") + (rng.chance(0.5) ? "plm" : "pcm"), "focus_factor=" + num(rng.uniform(1, 3)), "cfl_number=0.25", "eccentricity=" + num(rng.chance(0.5) ? 0 : rng.uniform(0, 0.6)), "mass_ratio=" + num(rng.uniform(0.3, 1.0)), "begin_live_binary=" + num(rng.chance(0.5) ? 0.0 : 1e6)};
}
static app::args_t jet(vp::rng_t& rng)
{
    return {"cloud", "nr=" + std::to_string(rng.range(6, 14)), "num_decades=1.0", "tfinal=" + num(rng.uniform(0.2, 0.5)), "cpi=0.1", "dfi=0.1", "rk_order=" + std::to_string(rng.range(1, 2)), "reconstruct_method=" + std::to_string(rng.range(1, 2)), "cfl_number=" + num(rng.uniform(0.2, 0.4)), "jet_duration=" + num(rng.log_uniform(0.01, 10)), "outdir=out"};
}
static app::args_t with(app::args_t a, std::string x) { a.push_back(x); return a; }

VP_SECTION("thread counts", 1, 4)
{
    int n = vp::S().thorough ? 16 : 6; auto seed = rng.next(); std::atomic<int> unstable {0};
    app::parallel(n, [&] (std::size_t k)
    {
        vp::rng_t r {vp::mix(seed + k)}; auto args = disk(r); auto sig = app::joined(args);
        auto one = app::new_dir("one"); auto a = app::run(with(args, "threaded=1"), one);
        if (! a.ok() && a.err.find("negative density") != std::string::npos) { ++unstable; vp::observe("unstable-configuration"); app::remove_tree(one); return; }
        if (! vp::check(a.ok(), "runs/failed", sig + a.describe())) return;
        for (int t : {2, int(r.range(3, 5)), int(r.range(6, 16))})
        {
            auto many = app::new_dir("many"); auto b = app::run(with(args, "threaded=" + std::to_string(t)), many);
            if (vp::check(b.ok(), "runs/failed", sig + vp::fmt("threaded=%d ", t) + b.describe())) { compare(one + "/out", many + "/out", sig + vp::fmt("(1 and %d threads)", t), {"/run_config/threaded"}); vp::observe("disk"); }
            app::remove_tree(many);
        }
        app::remove_tree(one); vp::signature(sig);
    }, 4);
    vp::check(unstable * 3 <= n, "runs/unstable", vp::fmt("%d of %d disk configurations broke down", int(unstable), n));
    app::parallel(n, [&] (std::size_t k)
    {
        vp::rng_t r {vp::mix(seed + 1000 + k)}; auto args = jet(r); auto sig = app::joined(args);
        auto one = app::new_dir("one"); auto a = app::run(args, one, "CLOUD1"); if (! vp::check(a.ok(), "runs/failed", sig + a.describe())) return;
        for (const char* v : {"CLOUD3", "PLAIN"})
        {
            auto many = app::new_dir("many"); auto b = app::run(args, many, v);
            if (vp::check(b.ok(), "runs/failed", sig + v + b.describe())) { compare(one + "/out", many + "/out", sig + "(1 thread and " + v + ")", {}); vp::observe("jet"); }
            app::remove_tree(many);
        }
        app::remove_tree(one); vp::signature(sig);
    }, 4);
    // the same under the race detector
    app::parallel(vp::S().thorough ? 10 : 4, [&] (std::size_t k)
    {
        vp::rng_t r {vp::mix(seed + 2000 + k)}; auto args = k % 4 == 3 ? jet(r) : with(disk(r), "threaded=" + std::to_string(r.range(2, 6))); auto sig = app::joined(args);
        auto dir = app::new_dir("tsan"); auto a = app::run(args, dir, "TSAN", 300);
        if (a.err.find("unexpected memory mapping") != std::string::npos || a.err.find("ThreadSanitizer: failed to") != std::string::npos) { vp::observe("tsan-unavailable"); return; }
        auto w = race(a.err); vp::check(w.empty(), "runs/race", sig + w);
        if (a.err.find("negative density") == std::string::npos) vp::check(a.ok() || ! w.empty(), "runs/failed", sig + a.describe());
        vp::observe("tsan-run"); app::remove_tree(dir);
    }, 4);
}
VP_MAIN()
