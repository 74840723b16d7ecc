// C11: a restarted run continues as if uninterrupted.  Every program is run
// once without interruption; then the run is repeated with interruptions
// (stop by time, by deletion of everything later, by SIGKILL) and restarts,
// and all files are compared byte by byte with those of the first run.
#include "app.hpp"

struct config_t { std::string prog; app::args_t args; double tfinal; std::string extra; };
static std::string num(double x) { return vp::fmt("%.6g", x); }
static app::args_t with(app::args_t a, std::initializer_list<std::string> more) { a.insert(a.end(), more); return a; }
static std::string outdir(const config_t& c, const std::string& dir) { return c.prog == "boilerplate" ? dir : dir + "/out"; }
static std::string chkpt_arg(const config_t& c, int k) { return vp::fmt(c.prog == "boilerplate" ? "restart=chkpt.%04d.h5" : "restart=out/chkpt.%04d.h5", k); }
static void copy_file(const std::string& a, const std::string& b) { std::ifstream i(a, std::ios::binary); std::ofstream o(b, std::ios::binary); o << i.rdbuf(); }

// a restart that goes further than the uninterrupted run may meet the breakdown of an unstable setup
static bool beyond(const app::result_t& r, bool further) { bool b = further && ! r.ok() && r.err.find("negative density") != std::string::npos; if (b) vp::observe("unstable-beyond-end"); return b; }
static const std::vector<std::string> IGNORE = {"/run_config/restart", "/config/restart"};

// A run always takes one step after it passed tfinal; a restart from the last
// checkpoint (at or after tfinal) takes another one, which may write one more
// output than the uninterrupted run: allow_extra.
// all outputs in `dir` equal those of the uninterrupted run
static void compare(const config_t& c, const std::string& ref, const std::string& dir, const std::string& how, std::vector<std::string> ignore=IGNORE, bool allow_extra=false)
{
    auto a = outdir(c, ref), b = outdir(c, dir); auto fa = app::files(a), fb = app::files(b);
    for (auto& f : fa) if (! std::count(fb.begin(), fb.end(), f)) vp::check(false, "output-missing", how + ": " + f + " was not written");
    if (! allow_extra) for (auto& f : fb) if (! std::count(fa.begin(), fa.end(), f)) vp::check(false, "output-extra", how + ": " + f + " is not an output of the uninterrupted run");
    for (auto& f : fa)
    {
        if (f.size() < 3 || f.substr(f.size() - 3) != ".h5" || ! std::count(fb.begin(), fb.end(), f)) continue;
        app::file_t x, y; bool ok = app::load(a + "/" + f, x) && app::load(b + "/" + f, y); vp::check(ok, "output-unreadable", how + ": " + f);
        if (ok) { auto d = app::difference(x, y, ignore); vp::check(d.empty(), f.substr(0, 5) == "chkpt" ? "checkpoint-differs" : f.substr(0, 5) == "diagn" ? "diagnostics-differ" : "time-series-differs", how + ": " + f + ": " + d); vp::observe("file-compared"); }
    }
}
static std::vector<config_t> make_configs(vp::rng_t& rng)
{
    std::vector<config_t> v; int reps = vp::S().thorough ? 12 : 4;
    for (int i = 0; i < reps; ++i)
    {
        { config_t c; c.prog = "boilerplate"; c.tfinal = rng.uniform(0.4, 0.8); c.args = {"boilerplate", "N=" + std::to_string(rng.range(10, 80)), "cpi=" + num(i == 0 ? 0.125 : rng.uniform(0.05, 0.15))}; v.push_back(c); }
        { config_t c; c.prog = "sedov"; c.tfinal = rng.uniform(0.35, 0.6); double iv = rng.uniform(0.08, 0.14); bool aligned = i % 2 == 0; c.args = {"sedov", "nr=" + std::to_string(rng.range(24, 48)), "outer_radius=10", "newtonian=" + std::to_string(i % 2), "cpi=" + num(iv), "dfi=" + num(aligned ? iv : rng.uniform(0.05, 0.2)), "tsi=" + num(aligned ? iv / 2 : rng.uniform(0.03, 0.1)), "explosion_pressure=" + num(rng.uniform(0.5, 3.0)), "density_index=" + num(rng.uniform(0, 2)), "outdir=out"}; v.push_back(c); }
        { config_t c; c.prog = "cloud"; c.tfinal = rng.uniform(1.0, 1.4); double iv = rng.uniform(0.25, 0.35); c.args = {"cloud", "nr=" + std::to_string(rng.range(10, 14)), "num_decades=1.0", "cpi=" + num(iv), "dfi=" + num(i % 2 == 0 ? iv : rng.uniform(0.2, 0.5)), "rk_order=" + std::to_string(1 + i % 2), "reconstruct_method=" + std::to_string(1 + (i + 1) % 2), "cfl_number=" + num(rng.uniform(0.2, 0.4)), "jet_duration=" + num(rng.log_uniform(0.01, 10)), "outdir=out"}; v.push_back(c); }
        for (int q : {0, 1}) { config_t c; c.prog = "binary"; c.tfinal = 0.1; double iv = rng.uniform(0.02, 0.03); c.args = {"binary", "depth=" + std::to_string(rng.range(1, 2)), "block_size=" + std::to_string(2 * rng.range(3, 5)), "domain_radius=" + num(rng.uniform(3, 6)), "cpi=" + num(iv), "dfi=" + num(i % 2 == 0 ? iv : rng.uniform(0.015, 0.04)), "tsi=" + num(rng.uniform(0.006, 0.02)), "outdir=out", "conserve_linear_p=" + std::to_string(q), "rk_order=" + std::to_string(rng.range(1, 2)), std::string("reconstruct_method=") + (rng.chance(0.5) ? "plm" : "pcm"), "cfl_number=0.25", "fixed_dt=" + std::to_string(rng.range(0, 1)), "eccentricity=" + num(rng.chance(0.5) ? 0 : rng.uniform(0, 0.6)), "mass_ratio=" + num(rng.uniform(0.3, 1.0)), "begin_live_binary=" + num(rng.chance(0.6) ? 0.0 : 1e6), "disk_mass=" + num(rng.log_uniform(1e-3, 1e-1)), "threaded=" + std::to_string(rng.range(1, 3)), "buffer_damping_rate=" + num(rng.uniform(1, 10)), "sink_rate=" + num(rng.uniform(1, 8)), "counter_rotate=" + std::to_string(rng.chance(0.2))}; v.push_back(c); }
    }
    return v;
}
static app::file_t config_of(const config_t& c, const std::string& file)
{
    app::file_t f, r; app::load(file, f); std::string g = c.prog == "cloud" ? "/config/" : "/run_config/"; for (auto& kv : f) if (kv.first.compare(0, g.size(), g) == 0) r[kv.first.substr(g.size())] = kv.second; return r;
}

VP_SECTION("restarts", 1, 2)
{
    auto configs = make_configs(rng); auto base_seed = rng.next(); std::atomic<int> unstable {0};
    app::parallel(configs.size(), [&] (std::size_t n)
    {
        vp::rng_t r {vp::mix(base_seed + n)}; auto& c = configs[n]; auto sig = app::joined(c.args); auto T = "tfinal=" + num(c.tfinal);
        auto ref = app::new_dir(c.prog + "_ref"); auto full = app::run(with(c.args, {T}), ref);
        if (! full.ok() && full.err.find("negative density") != std::string::npos) { ++unstable; vp::observe("unstable-configuration"); app::remove_tree(ref); return; } // the solver gave up on a numerically unstable setup
        if (! vp::check(full.ok(), "run-failed", sig + full.describe())) return;
        auto nums = app::numbers(outdir(c, ref), "chkpt"); if (! vp::check(nums.size() >= 3, "too-few-checkpoints", sig + vp::fmt("%zu checkpoints", nums.size()))) return;
        vp::observe("reference:" + c.prog); std::vector<std::string> made {ref};
        auto copy_of = [&] (const char* tag, int keep)      // a copy of the finished run, holding checkpoints up to `keep`
        {
            auto d = app::new_dir(c.prog + tag); made.push_back(d); if (c.prog != "boilerplate") mkdir((d + "/out").c_str(), 0755);
            for (auto& f : app::files(outdir(c, ref))) { if (f.find(".h5") == std::string::npos) continue; if (f.compare(0, 6, "chkpt.") == 0 && std::atoi(f.c_str() + 6) > keep) continue; copy_file(outdir(c, ref) + "/" + f, outdir(c, d) + "/" + f); } return d;
        };
        // 1. from every checkpoint, all later checkpoints gone, stale later diagnostics left or gone
        for (int k : nums)
        {
            if (! vp::S().thorough && nums.size() > 4 && k > 1 && k + 1 < int(nums.size()) && r.chance(0.5)) continue;
            auto d = copy_of("_from", k); auto from = app::numbered(outdir(c, d), "chkpt", k); auto before = app::slurp(from);
            if (r.chance(0.7)) { app::file_t f; app::load(from, f); int nd = app::integer(f, "/schedule/write_diagnostics/num_times_performed"); for (int m : app::numbers(outdir(c, d), "diagnostics")) if (m >= nd) ::unlink(app::numbered(outdir(c, d), "diagnostics", m).c_str()); }
            auto res = app::run({c.prog, chkpt_arg(c, k)}, d); auto how = sig + vp::fmt("| restarted from checkpoint %d", k);
            if (beyond(res, k == nums.back()) || ! vp::check(res.ok(), "restart-failed", how + " " + res.describe())) continue;
            vp::check(app::slurp(from) == before, "checkpoint-overwritten", how + ": the checkpoint restarted from was rewritten");
            compare(c, ref, d, how, IGNORE, k == nums.back()); vp::observe("restart"); vp::signature(how);
        }
        // 2. stopped early by tfinal, twice, then continued to the end
        {
            auto d = app::new_dir(c.prog + "_chain"); made.push_back(d); std::vector<double> stops; double t = 0; for (int i = 0; i < 2; ++i) { t += r.uniform(0.25, 0.45); stops.push_back(t * c.tfinal); }
            auto res = app::run(with(c.args, {"tfinal=" + num(stops[0])}), d); auto how = sig + vp::fmt("| stopped at %g, %g", stops[0], stops[1]); bool ok = vp::check(res.ok(), "run-failed", how + res.describe()); int last = -1;
            for (int i = 1; i <= 2 && ok; ++i) { auto have = app::numbers(outdir(c, d), "chkpt"); int k = have.back(); last = k; auto t1 = i == 1 ? "tfinal=" + num(stops[1]) : T;
                app::file_t f; app::load(app::numbered(outdir(c, d), "chkpt", k), f); 
                res = app::run({c.prog, chkpt_arg(c, k), t1}, d); ok = ! beyond(res, k == nums.back()) && vp::check(res.ok(), "restart-failed", how + " " + res.describe()); vp::observe("restart"); }
            if (ok) compare(c, ref, d, how, {"/run_config/restart", "/config/restart", "/run_config/tfinal", "/config/tfinal"}, last == nums.back()); vp::signature(how);
        }
        // 3. killed at an arbitrary moment, then continued from the last complete checkpoint
        if (c.prog != "sedov")
        {
            auto d = app::new_dir(c.prog + "_kill"); made.push_back(d); auto argv = with(c.args, {T}); double wait = r.uniform(0.02, 0.3);
            auto killed = app::run(argv, d, "PLAIN", wait); auto have = app::numbers(outdir(c, d), "chkpt"); auto how = sig + vp::fmt("| killed after %.3f s", wait);
            if (have.size() >= 2)
            {
                int k = have[have.size() - 2]; if (! killed.timed_out) k = have[r.range(0, have.size() - 1)];
                auto res = app::run({c.prog, chkpt_arg(c, k)}, d); if (! beyond(res, k == nums.back()) && vp::check(res.ok(), "restart-failed", how + vp::fmt(" from %d ", k) + res.describe())) compare(c, ref, d, how + vp::fmt(", restarted from checkpoint %d", k), IGNORE, k == nums.back()); vp::observe("restart-after-kill"); vp::signature(how);
            }
        }
        // 4. options come from the checkpoint except those given anew; a new output folder is used as asked
        {
            int k = nums[r.range(0, nums.size() - 2)]; if (c.prog == "boilerplate") k /= 2; auto d = copy_of("_opts", c.prog == "boilerplate" ? k : nums.back()); app::args_t a = {c.prog, chkpt_arg(c, k), "tfinal=" + num(c.tfinal * 1.01), "cpi=" + num(c.tfinal / 5)}; if (c.prog != "boilerplate") a.push_back("outdir=elsewhere"); auto how = sig + "| " + app::joined(a);
            auto res = app::run(a, d); auto target = c.prog == "boilerplate" ? d : d + "/elsewhere";
            if (! beyond(res, true) && vp::check(res.ok(), "restart-failed", how + " " + res.describe()))
            {
                auto made_nums = app::numbers(target, "chkpt"); if (vp::check(! made_nums.empty() && (c.prog != "boilerplate" || made_nums.back() > k), "output-missing", how + ": no checkpoint in the new folder"))
                {
                    auto old_cfg = config_of(c, app::numbered(outdir(c, ref), "chkpt", k)), new_cfg = config_of(c, app::numbered(target, "chkpt", made_nums.back()));
                    vp::check(old_cfg.size() > 3 && new_cfg.size() == old_cfg.size(), "options-lost", how + vp::fmt(": %zu options stored, %zu before", new_cfg.size(), old_cfg.size()));
                    for (auto& kv : old_cfg)
                    {
                        auto name = kv.first; auto got = new_cfg[name];
                        if (name == "tfinal" || name == "cpi") { double want = std::atof(num(name == "cpi" ? c.tfinal / 5 : c.tfinal * 1.01).c_str()); double g = NAN; if (got.bytes.size() == 8) std::memcpy(&g, got.bytes.data(), 8); vp::check(g == want, "option-not-overridden", how + vp::fmt(": %s is %g, given %g", name.c_str(), g, want)); }
                        else if (name == "restart") vp::check(std::string(got.bytes.c_str(), strnlen(got.bytes.data(), got.bytes.size())) == chkpt_arg(c, k).substr(8), "option-not-overridden", how + ": restart is " + got.bytes);
                        else if (name == "outdir") vp::check(got.bytes == "elsewhere", "option-not-overridden", how + ": outdir is " + got.bytes);
                        else vp::check(got.bytes == kv.second.bytes && got.type_class == kv.second.type_class, "option-not-restored", how + ": option " + name + " changed");
                        vp::observe("option-compared");
                    }
                }
            }
        }
        // 5. what else the output folder holds does not matter: later outputs of the same run, or those of another one
        {
            std::vector<std::string> but_tfinal {"/run_config/restart", "/config/restart", "/run_config/tfinal", "/config/tfinal"};
            auto early = "tfinal=" + num(c.tfinal * r.uniform(0.5, 0.9)); auto sref = app::new_dir(c.prog + "_short"); made.push_back(sref); auto res = app::run(with(c.args, {early}), sref);
            if (vp::check(res.ok(), "run-failed", sig + early + res.describe()))
            {
                auto snums = app::numbers(outdir(c, sref), "chkpt"); double end = std::atof(early.c_str() + 7); int k = -1;
                for (int m : snums) { app::file_t f; app::load(app::numbered(outdir(c, sref), "chkpt", m), f); if (app::scalar(f, "/solution/time") < end * (c.prog == "binary" ? 2 * M_PI : 1) * 0.95 && (k < 0 || r.chance(0.5))) k = m; }
                auto d = copy_of("_stale", c.prog == "boilerplate" ? k : nums.back()); auto how = sig + vp::fmt("| restarted from checkpoint %d among later outputs, ", k) + early; res = app::run({c.prog, chkpt_arg(c, k), early}, d);
                // (rows of a series are dropped when the first new one is written)
                bool series = true; if (c.prog == "sedov") { app::file_t f, g; app::load(app::numbered(outdir(c, sref), "chkpt", k), f); app::load(outdir(c, sref) + "/time_series.h5", g); series = app::integer(f, "/schedule/write_time_series/num_times_performed") < int(app::doubles(g, "/time").size()); }
                if (vp::check(res.ok(), "restart-failed", how + " " + res.describe()) && series) { compare(c, sref, d, how, but_tfinal, true); vp::observe("restart-among-later"); vp::signature(how); }
                if (c.prog != "boilerplate")
                {
                    auto other = with(c.args, {T}); for (auto& a : other) if (a.compare(0, 4, "cpi=") == 0) a = "cpi=" + num(0.7 * std::atof(a.c_str() + 4));
                    auto e = app::new_dir(c.prog + "_used"); made.push_back(e); res = app::run(other, e); vp::check(res.ok(), "run-failed", app::joined(other) + res.describe()); how = sig + "| new run in a folder used before, " + early; res = app::run(with(c.args, {early}), e);
                    if (vp::check(res.ok(), "run-failed", how + " " + res.describe())) { compare(c, sref, e, how, but_tfinal, true); vp::observe("used-folder"); vp::signature(how); }
                }
            }
        }
        for (auto& d : made) app::remove_tree(d);
    }, 6);
    vp::check(unstable * 3 <= int(configs.size()), "run-failed", vp::fmt("%d of %zu configurations failed with a negative density", unstable.load(), configs.size()));
}
VP_MAIN()
