// C10: cadence of the outputs of whole program runs.
#include "app.hpp"

struct series_t { std::string what; double interval; std::vector<double> times; };

// times of the n-th output (n = 0 at the start) of a task with this interval, when
// consecutive steps are at most `dt` apart and the run ends at `tend`
static void judge(const series_t& s, double dt, double tend)
{
    auto n = s.times.size(); double iv = s.interval, tol = 1e-9 * (1 + tend);
    VP_CHECK(n >= 1 && s.times[0] == 0.0, "no-initial-output", "%s: %zu outputs, first at %g", s.what.c_str(), n, n ? s.times[0] : NAN);
    for (std::size_t k = 1; k < n; ++k)
    {
        VP_CHECK(s.times[k] > s.times[k - 1], "output-order", "%s %zu at %.12g follows %.12g", s.what.c_str(), k, s.times[k], s.times[k - 1]);
        VP_CHECK(s.times[k] >= k * iv - tol, "output-early", "%s %zu at %.12g, due %.12g", s.what.c_str(), k, s.times[k], k * iv);
        VP_CHECK(s.times[k] <= std::max(k * iv, s.times[k - 1]) + 2 * dt + tol, "output-late", "%s %zu at %.12g after %.12g, due %.12g, step %.3g", s.what.c_str(), k, s.times[k], s.times[k - 1], k * iv, dt);
        vp::observe("output-timed");
    }
    if (dt < iv)
    {
        // everything due before the last full step was performed, nothing due after the end
        double least = std::floor((tend - 2 * dt - tol) / iv) + 1, most = std::floor((tend + tol) / iv) + 1;
        VP_CHECK(double(n) >= least && double(n) <= most, "output-count", "%s: %zu outputs by t=%.12g with interval %.12g (expected %g to %g)", s.what.c_str(), n, tend, iv, least, most);
    }
}
static std::vector<double> file_times(const std::string& dir, const char* prefix, const char* key, double scale=1.0)
{
    std::vector<double> t; auto nums = app::numbers(dir, prefix);
    for (std::size_t i = 0; i < nums.size(); ++i)
    {
        VP_CHECK(nums[i] == int(i), "output-numbering", "%s file %zu carries the number %d", prefix, i, nums[i]);
        app::file_t f; bool ok = app::load(app::numbered(dir, prefix, nums[i]), f); VP_CHECK(ok, "output-unreadable", "%s %d cannot be read", prefix, nums[i]); t.push_back(app::scalar(f, key) * scale);
    }
    return t;
}
struct job_t { app::args_t args; std::string prog; double cpi = 0, dfi = 0, tsi = 0, tfinal = 0; std::string dir; app::result_t r; };

VP_SECTION("programs", 1, 4)
{
    std::vector<job_t> jobs; auto num = [] (double x) { return vp::fmt("%.6g", x); };
    int reps = vp::S().thorough ? 12 : 3;
    for (int i = 0; i < reps; ++i)
    {
        { job_t j; j.prog = "boilerplate"; int N = rng.range(8, 60); j.cpi = i == 0 ? 0.25 / (N + 1) * rng.uniform(0.3, 0.9) : i == 1 ? 0.125 : rng.uniform(0.02, 0.2); j.tfinal = i == 0 ? 0.2 : rng.uniform(0.3, 1.2); j.args = {"boilerplate", "N=" + std::to_string(N), "cpi=" + num(j.cpi), "tfinal=" + num(j.tfinal)}; jobs.push_back(j); }
        for (int newt : {0, 1}) { job_t j; j.prog = "sedov"; j.cpi = rng.uniform(0.05, 0.3); j.dfi = i == 0 ? 0.01 : rng.uniform(0.03, 0.2); j.tsi = rng.uniform(0.02, 0.1); j.tfinal = rng.uniform(0.4, 0.8); j.args = {"sedov", "nr=" + std::to_string(rng.range(24, 48)), "outer_radius=10", "newtonian=" + std::to_string(newt), "cpi=" + num(j.cpi), "dfi=" + num(j.dfi), "tsi=" + num(j.tsi), "tfinal=" + num(j.tfinal), "outdir=out"}; jobs.push_back(j); }
        { job_t j; j.prog = "cloud"; j.cpi = rng.uniform(0.3, 0.8); j.dfi = rng.uniform(0.2, 0.5); j.tfinal = rng.uniform(1.0, 2.0); j.args = {"cloud", "nr=" + std::to_string(rng.range(12, 18)), "num_decades=1.0", "cpi=" + num(j.cpi), "dfi=" + num(j.dfi), "tsi=0.3", "tfinal=" + num(j.tfinal), "rk_order=" + std::to_string(1 + i % 2), "outdir=out"}; jobs.push_back(j); }
        { job_t j; j.prog = "binary"; j.cpi = rng.uniform(0.02, 0.04); j.dfi = i == 0 ? 0.004 : rng.uniform(0.01, 0.03); j.tsi = rng.uniform(0.008, 0.02); j.tfinal = 0.1; j.args = {"binary", "depth=" + std::to_string(1 + i % 2), "block_size=8", "domain_radius=6", "threaded=1", "cpi=" + num(j.cpi), "dfi=" + num(j.dfi), "tsi=" + num(j.tsi), "tfinal=" + num(j.tfinal), "outdir=out", i % 2 ? "conserve_linear_p=1" : "conserve_linear_p=0", "fixed_dt=" + std::to_string(i % 2)}; jobs.push_back(j); }
    }
    for (auto& j : jobs) j.dir = app::new_dir(j.prog);
    app::parallel(jobs.size(), [&] (std::size_t k) { jobs[k].r = app::run(jobs[k].args, jobs[k].dir); });
    for (auto& j : jobs)
    {
        vp::context(app::joined(j.args)); if (! VP_CHECK(j.r.ok(), "run-failed", "%s", j.r.describe().c_str())) continue;
        // simulation times and step count, from the program's own messages
        double dt = 0, last = 0, tend = 0; int lines = 0; std::istringstream is(j.r.out); std::string ln; while (std::getline(is, ln)) { auto p = ln.find(j.prog == "binary" ? "orbits=" : " t="); if (ln.size() && ln[0] == '[' && p != std::string::npos) { double t = std::atof(ln.c_str() + ln.find('=', p) + 1); if (j.prog != "sedov") dt = std::max(dt, t - last); last = t; ++lines; } }
        auto out = j.prog == "boilerplate" ? j.dir : j.dir + "/out"; double unit = j.prog == "binary" ? 1 / (2 * M_PI) : 1.0;
        std::vector<series_t> series; series.push_back({"checkpoint", j.cpi, file_times(out, "chkpt", "/solution/time", unit)});
        if (j.dfi > 0) series.push_back({"diagnostics", j.dfi, file_times(out, "diagnostics", "/time", j.prog == "cloud" ? 2.998e10 / 3e8 : unit)});
        if (j.prog == "sedov") { app::file_t f; VP_CHECK(app::load(out + "/time_series.h5", f), "output-unreadable", "time_series.h5"); series.push_back({"time series", j.tsi, app::doubles(f, "/time")}); app::file_t c0; app::load(app::numbered(out, "chkpt", 0), c0); auto v = app::doubles(c0, "/solution/vertices"); dt = v.size() > 1 ? 0.4 * (v[1] - v[0]) * (1 + 1e-9) : 0; for (auto name : {"shock_radius", "shock_radius_upstream", "shock_radius_downstream", "shock_radius_interpolated", "shock_velocity"}) VP_CHECK(app::doubles(f, std::string("/") + name).size() == series.back().times.size(), "time-series-columns", "column %s has %zu entries, time has %zu", name, app::doubles(f, std::string("/") + name).size(), series.back().times.size()); }
        tend = j.tfinal; for (auto& s : series) if (! s.times.empty()) tend = std::max(tend, s.times.back());
        if (j.prog == "binary")
        {
            // the time series travels inside the checkpoints: each holds the samples up to its own time
            auto nums = app::numbers(out, "chkpt"); std::vector<double> prev; for (auto n : nums) { auto t = app::member(app::numbered(out, "chkpt", n), "/time_series", "time"); for (auto& x : t) x *= unit; VP_CHECK(t.size() >= prev.size() && std::equal(prev.begin(), prev.end(), t.begin()), "time-series-history", "checkpoint %d does not continue the series of the one before", n); series_t s {"time series sample", j.tsi, t}; double tc = series[0].times[n]; judge(s, dt, tc); prev = t; app::file_t f; app::load(app::numbered(out, "chkpt", n), f); VP_CHECK(app::integer(f, "/schedule/record_time_series/num_times_performed") == int(t.size()), "schedule-record", "schedule counts %d samples, %zu stored", app::integer(f, "/schedule/record_time_series/num_times_performed"), t.size()); }
        }
        VP_CHECK(dt > 0, "no-steps", "no time step was reported"); VP_CHECK(last >= j.tfinal * (1 - 1e-6) || j.prog == "sedov", "stopped-early", "last reported time %g, tfinal %g", last, j.tfinal); VP_CHECK(j.prog == "sedov" || last <= j.tfinal + dt * 1.01 + 1e-6, "stopped-late", "last reported time %g, tfinal %g", last, j.tfinal);
        double end = j.prog == "sedov" ? j.tfinal + 2 * dt : last + dt;   // one extra step is taken for final output
        dt += 2e-7; for (auto& s : series) judge(s, dt, j.prog == "sedov" ? std::max(j.tfinal + 1 * dt, tend) : std::min(end, std::max(last, tend)));
        vp::observe("cadence-run:" + j.prog); vp::signature(app::joined(j.args));
        app::remove_tree(j.dir);
    }
}
// the run is over at the first time that is not before the final time: a step that ends there exactly is the last
VP_SECTION("final time", 1, 4)
{
    struct stop_t { app::args_t args; int steps; std::string out, dir; app::result_t r; bool counts; };
    std::vector<stop_t> jobs; auto zero = app::args_t {"tfinal=0", "cpi=0"};
    auto with = [] (app::args_t a, const app::args_t& b) { a.insert(a.end(), b.begin(), b.end()); return a; };
    for (int i = 0; i < (vp::S().thorough ? 12 : 4); ++i)
    {
        int nx = 1 << rng.range(3, 6), steps = rng.range(1, 3 * nx);
        jobs.push_back({{"boilerplate", "N=" + std::to_string(nx - 1), "cpi=" + vp::fmt("%.6g", rng.uniform(0.1, 3)), "tfinal=" + vp::fmt("%.17g", 0.25 / nx * steps)}, steps, "", "", {}, true});
    }
    jobs.push_back({with({"boilerplate", "N=10"}, zero), 0, "", "", {}, true});
    jobs.push_back({with({"sedov", "nr=24", "outer_radius=10", "outdir=out", "newtonian=" + std::to_string(rng.range(0, 1))}, zero), 0, "/out", "", {}, true});
    jobs.push_back({with({"cloud", "nr=12", "num_decades=1.0", "outdir=out", "rk_order=" + std::to_string(rng.range(1, 2))}, zero), 0, "/out", "", {}, true});
    jobs.push_back({with({"binary", "depth=1", "block_size=8", "domain_radius=6", "threaded=1", "outdir=out"}, zero), 0, "/out", "", {}, true});
    for (auto& j : jobs) j.dir = app::new_dir("stop");
    app::parallel(jobs.size(), [&] (std::size_t k) { jobs[k].r = app::run(jobs[k].args, jobs[k].dir); });
    for (auto& j : jobs)
    {
        vp::context(app::joined(j.args)); if (! VP_CHECK(j.r.ok(), "run-failed", "%s", j.r.describe().c_str())) continue;
        int lines = 0; std::istringstream is(j.r.out); std::string ln; while (std::getline(is, ln)) lines += ln.size() && ln[0] == '[';
        VP_CHECK(lines == j.steps, "steps-to-final-time", "%d steps were reported, %d lead to the final time", lines, j.steps);
        if (j.steps == 0)
        {
            auto nums = app::numbers(j.dir + j.out, "chkpt"); VP_CHECK(nums.size() == 2, "outputs-of-no-run", "a run that is over at its start wrote %zu checkpoints", nums.size());
            app::file_t f; if (nums.size() > 0) { app::load(app::numbered(j.dir + j.out, "chkpt", 0), f); VP_CHECK(app::scalar(f, "/solution/time") == 0.0, "no-initial-output", "first checkpoint at %g", app::scalar(f, "/solution/time")); }
        }
        vp::observe("final-time:" + j.args[0]); vp::signature(app::joined(j.args)); app::remove_tree(j.dir);
    }
}
// thousands of steps with a row of the time series for each: more than fit any one piece of the stored tables
VP_SECTION("long series", 1, 3)
{
    struct long_t { app::args_t args; std::string prog, dir; app::result_t r; };
    std::vector<long_t> jobs;
    jobs.push_back({{"sedov", "nr=" + std::to_string(rng.range(6, 10)), "tsi=0", "tfinal=" + vp::fmt("%.6g", rng.uniform(110, 150)), "dfi=1000", "cpi=" + vp::fmt("%.6g", rng.uniform(20, 60)), "outdir=out"}, "sedov", "", {}});
    jobs.push_back({{"binary", "depth=1", "block_size=4", "threaded=1", "fixed_dt=1", "cfl_number=" + vp::fmt("%.6g", rng.uniform(0.0004, 0.0006)), "tsi=0", "tfinal=0.3", "dfi=100", "cpi=0.14", "outdir=out", "conserve_linear_p=" + std::to_string(rng.range(0, 1))}, "binary", "", {}});
    for (auto& j : jobs) j.dir = app::new_dir("long");
    app::parallel(jobs.size(), [&] (std::size_t k) { jobs[k].r = app::run(jobs[k].args, jobs[k].dir, "PLAIN", 300); });
    for (auto& j : jobs)
    {
        vp::context(app::joined(j.args)); if (! VP_CHECK(j.r.ok(), "run-failed", "%s", j.r.describe().c_str())) continue;
        auto out = j.dir + "/out"; auto nums = app::numbers(out, "chkpt"); if (! VP_CHECK(nums.size() >= 2, "no-initial-output", "%zu checkpoints", nums.size())) continue;
        auto gapless = [&] (const std::vector<double>& t, double until, std::size_t performed, const char* where)
        {
            if (! VP_CHECK(t.size() > 2 && t[0] == 0.0, "long-series", "%s has %zu rows", where, t.size())) return;
            VP_CHECK(t.size() == performed, "long-series-count", "%s has %zu rows, %zu were recorded", where, t.size(), performed);
            double dt = t[1]; for (std::size_t k = 1; k < t.size(); ++k) if (! VP_CHECK(std::fabs(t[k] - t[k - 1] - dt) < 1e-9 * (1 + until), "long-series-gap", "row %zu of %s at %.12g follows one at %.12g, steps are %.12g long", k, where, t[k], t[k - 1], dt)) return;
            VP_CHECK(t.back() <= until + 1e-9 * until && t.back() >= until - 2 * dt, "long-series-end", "%s ends at %.12g, the checkpoint is at %.12g", where, t.back(), until); vp::observe("series-row", t.size());
        };
        app::file_t c; app::load(app::numbered(out, "chkpt", nums.back()), c); double until = app::scalar(c, "/solution/time");
        if (j.prog == "sedov")
        {
            app::file_t f; if (! VP_CHECK(app::load(out + "/time_series.h5", f), "output-unreadable", "time_series.h5")) continue; auto t = app::doubles(f, "/time");
            double tfinal = std::atof(j.args[3].c_str() + 7); std::size_t before = 0; for (auto x : t) before += x <= until * (1 + 1e-12); int performed = app::integer(c, "/schedule/write_time_series/num_times_performed");
            VP_CHECK(performed == int(before) || performed + 1 == int(before), "long-series-count", "%zu rows up to the checkpoint, %d were recorded", before, performed);
            gapless(t, t.empty() ? 0 : t.back(), t.size(), "time_series.h5"); VP_CHECK(t.size() > 1000 && t.back() >= tfinal - 2 * t[1], "long-series-end", "%zu rows up to %.12g, the run was to end at %.12g", t.size(), t.empty() ? 0 : t.back(), tfinal);
            for (auto name : {"shock_radius", "shock_radius_upstream", "shock_radius_downstream", "shock_radius_interpolated", "shock_velocity"}) VP_CHECK(app::doubles(f, std::string("/") + name).size() == t.size(), "time-series-columns", "column %s has %zu entries, time has %zu", name, app::doubles(f, std::string("/") + name).size(), t.size());
        }
        else for (auto n : nums) { app::file_t cn; app::load(app::numbered(out, "chkpt", n), cn); if (n == nums[0]) continue; auto t = app::member(app::numbered(out, "chkpt", n), "/time_series", "time"); gapless(t, app::scalar(cn, "/solution/time"), app::integer(cn, "/schedule/record_time_series/num_times_performed"), "the checkpoint"); }
        vp::observe("long-run:" + j.prog); vp::signature(app::joined(j.args)); app::remove_tree(j.dir);
    }
}
VP_MAIN()
