// C25: every sub-program runs valid configurations to the end without memory errors, undefined behaviour or races, leaving complete files; invalid options are refused.
#include "vp.hpp"
#include "app.hpp"
static std::string num(double x) { return vp::fmt("%.6g", x); }
using opts_t = std::vector<std::pair<std::string, std::string>>;
struct config_t { std::string prog; opts_t o; void set(const std::string& k, const std::string& v) { o.push_back({k, v}); } void set(const std::string& k, double v) { set(k, num(v)); } app::args_t args() const { app::args_t a {prog}; for (auto& kv : o) a.push_back(kv.first + "=" + kv.second); return a; } };

static config_t make(const std::string& prog, vp::rng_t& rng, bool tiny=false)
{
    config_t c; c.prog = prog; auto flag = [&] (double p) { return rng.chance(p) ? 1.0 : 0.0; };
    if (prog == "sedov")
    {
        double D = rng.uniform(0.3, 2); int nr = rng.range(std::max(4, int(3 / D) + 2), 48); double dr = 0.316 * (std::pow(10, (D + 0.5) / int(D * nr)) - 1);
        c.set("nr", nr); c.set("outer_radius", std::pow(10, D)); c.set("tfinal", 0.4 * dr * rng.range(2, 60)); c.set("cpi", 0.4 * dr * rng.range(1, 20)); c.set("dfi", 0.4 * dr * rng.range(1, 20)); c.set("tsi", 0.4 * dr * rng.range(1, 4)); c.set("newtonian", flag(0.5)); c.set("explosion_pressure", rng.log_uniform(1e-6, 1e2)); c.set("explosion_density", rng.log_uniform(1e-2, 1e2)); c.set("density_index", rng.chance(0.5) ? 0 : rng.uniform(0, 2.5)); c.set("outdir", rng.chance(0.5) ? "data" : "a/b/c");
    }
    if (prog == "cloud")
    {
        int nr = rng.range(4, tiny ? 8 : 16); double D = rng.uniform(0.9, 2); bool far = ! tiny && rng.chance(0.3); if (far) { nr = rng.range(8, 16); D = rng.uniform(4, 7); } /* the shock may lie 64 and more cells out */ double cfl = rng.uniform(0.1, 0.4), dt = cfl * (std::pow(10, D / int(D * nr)) - 1);
        c.set("nr", nr); c.set("num_decades", D); c.set("cfl_number", cfl); c.set("tfinal", dt * rng.range(2, tiny || far ? 8 : 30)); c.set("cpi", dt * rng.range(1, 10)); c.set("dfi", dt * rng.range(1, far ? 2 : 10)); c.set("tsi", dt); c.set("rk_order", rng.range(1, 2)); c.set("reconstruct_method", rng.range(1, 2)); c.set("plm_theta", rng.uniform(1, 2)); c.set("inner_radius", rng.log_uniform(5e7, 1e9)); c.set("jet_delay_time", rng.log_uniform(0.3, 5)); c.set("jet_duration", rng.log_uniform(0.01, 5)); c.set("jet_gamma_beta", rng.uniform(2, 20)); c.set("jet_opening_angle", rng.uniform(0.05, 0.6)); c.set("jet_structure_exp", rng.uniform(1, 4)); c.set("density_index", rng.chance(0.3) ? 3 : rng.uniform(0.5, 3)); c.set("density_index2", rng.uniform(3.5, 8)); c.set("cloud_mass", rng.log_uniform(1e-3, 1e-1)); c.set("temperature_floor", rng.chance(0.2) ? 0 : rng.log_uniform(1e-9, 1e-6));
    }
    if (prog == "binary")
    {
        int depth = rng.range(0, tiny ? 2 : 3), bs = 2 * rng.range(1, depth > 2 ? 3 : 6);
        c.set("depth", depth); c.set("block_size", bs); c.set("domain_radius", rng.uniform(2, 8)); c.set("threaded", rng.range(1, 9)); c.set("conserve_linear_p", flag(0.5)); c.set("rk_order", rng.range(1, 2)); c.set("reconstruct_method", rng.chance(0.5) ? "plm" : "pcm"); c.set("plm_theta", rng.uniform(1, 2)); c.set("cfl_number", rng.uniform(0.1, 0.3)); c.set("fixed_dt", flag(0.3)); c.set("focus_factor", rng.uniform(0.7, 3)); c.set("focus_index", rng.uniform(0.3, 2.5)); double T = rng.uniform(0.005, tiny ? 0.012 : 0.03); c.set("tfinal", T); c.set("cpi", T * rng.uniform(0.2, 1.2)); c.set("dfi", T * rng.uniform(0.1, 1.2)); c.set("tsi", T * rng.uniform(0.05, 0.5));
        c.set("separation", rng.chance(0.1) ? 0 : 1); c.set("mass_ratio", rng.chance(0.3) ? 1 : rng.uniform(0.1, 1)); c.set("eccentricity", rng.chance(0.5) ? 0 : rng.uniform(0, 0.8)); c.set("begin_live_binary", rng.chance(0.5) ? 0 : 1e6); c.set("counter_rotate", flag(0.2)); c.set("axisymmetric_cs2", flag(0.3)); c.set("no_accretion_force", flag(0.3)); c.set("alpha", rng.chance(0.3) ? 0 : rng.uniform(0.01, 0.3)); c.set("nu", rng.chance(0.7) ? 0 : rng.log_uniform(1e-4, 1e-2)); c.set("mach_number", rng.uniform(5, 20)); c.set("density_floor", rng.chance(0.6) ? 0 : 1e-6); c.set("mdot", rng.chance(0.8) ? 0 : 1e-4); c.set("sink_rate", rng.uniform(0, 8)); c.set("buffer_damping_rate", rng.uniform(0, 10));
    }
    if (prog == "boilerplate") { int N = rng.chance(0.3) ? rng.range(1, 4) : rng.range(1, 200); c.set("N", N); c.set("tfinal", 0.25 / (N + 1) * rng.range(1, 100)); c.set("cpi", 0.25 / (N + 1) * rng.range(1, 40)); }
    if (prog == "amrsand") { int depth = rng.range(0, 4), bs = rng.chance(0.3) ? rng.range(1, 3) : rng.range(1, depth > 2 ? 4 : 8); c.set("depth", depth); c.set("block_size", bs); double dt = 2.0 / (bs + 1) / (1 << depth); c.set("tfinal", dt * rng.range(1, 8)); c.set("dfi", dt * rng.range(1, 4)); }
    if (prog == "partdom") { int p = rng.range(1, 12); c.set("procs", p); c.set("N", rng.range(p, p + 2)); }
    return c;
}
static std::string sanitizer(const std::string& err)
{
    for (const char* w : {"ERROR: AddressSanitizer", "runtime error:", "WARNING: ThreadSanitizer", "ERROR: ThreadSanitizer", "LeakSanitizer", "HDF5-DIAG", "UndefinedBehaviorSanitizer"}) { auto i = err.find(w); if (i != std::string::npos) return err.substr(i, 1500); }
    return "";
}
static void h5_files(const std::string& dir, std::vector<std::string>& out) { for (auto& f : app::files(dir)) { auto p = dir + "/" + f; struct stat st; if (stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) h5_files(p, out); else if (f.size() > 3 && f.substr(f.size() - 3) == ".h5") out.push_back(p); } }
// every file opens for writing (it was closed properly), every dataset in it reads, and none is empty
static void judge_files(const std::string& dir, const std::string& sig, std::size_t at_least)
{
    std::vector<std::string> all; h5_files(dir, all); vp::check(all.size() >= at_least, "files-missing", sig + vp::fmt(": %zu files", all.size()));
    for (auto& p : all)
    {
        app::file_t f; bool ok = app::load(p, f); std::string bad; for (auto& kv : f) if (kv.second.kind == '!') bad += kv.first + " "; vp::check(ok && bad.empty() && ! f.empty(), "file-unreadable", sig + ": " + p + " " + bad);
        { std::lock_guard<std::mutex> lock(app::h5lock()); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); hid_t h = H5Fopen(p.c_str(), H5F_ACC_RDWR, H5P_DEFAULT); vp::check(h >= 0, "file-not-closed", sig + ": " + p); if (h >= 0) H5Fclose(h); } vp::observe("file");
    }
}
static bool unstable(const app::result_t& r) { return r.err.find("negative density") != std::string::npos || r.err.find("no equilibrium") != std::string::npos; }
// a run may break down numerically if it says so: disks whose surface density turns negative, jets without a temperature floor or with steep reconstruction
static bool broke_down(const config_t& c, const app::result_t& r)
{
    if (r.ok() || ! sanitizer(r.err).empty()) return false;
    if (c.prog == "binary") return unstable(r);
    if (c.prog != "cloud" || r.err.find("recover_primitive failure") == std::string::npos) return false;
    auto number = [&c] (const char* key, double x) { for (auto& kv : c.o) if (kv.first == key) x = std::atof(kv.second.c_str()); return x; };
    return number("temperature_floor", 1e-8) == 0.0 || number("reconstruct_method", 2) == 2;
}
static bool judge_run(const app::result_t& r, const std::string& sig, const char* what)
{
    auto report = sanitizer(r.err); if (! vp::check(report.empty(), "sanitizer", sig + what + ": " + report)) return false;
    return vp::check(r.ok(), "run-failed", sig + what + ": " + r.describe());
}
static std::string last_checkpoint(const std::string& dir, vp::rng_t& rng) { std::vector<std::string> all, c; h5_files(dir, all); for (auto& p : all) if (p.find("/chkpt.") != std::string::npos) c.push_back(p); return c.empty() ? "" : c[rng.range(0, int(c.size()) - 1)]; }

VP_SECTION("valid configurations", 1, 12)
{
    static const char* programs[] = {"sedov", "cloud", "binary", "boilerplate", "amrsand", "partdom"}; int n = vp::S().thorough ? 96 : 72; auto seed = rng.next(); std::atomic<int> broke {0}, disks {0}; (void) index;
    app::parallel(n, [&] (std::size_t k)
    {
        vp::rng_t r {vp::mix(seed + k)}; auto c = make(programs[k % 6], r); auto dir = app::new_dir("v"); auto sig = app::joined(c.args()); if (c.prog == "binary" || c.prog == "cloud") ++disks;
        auto a = app::run(c.args(), dir, "ASAN", 200, {"ASAN_OPTIONS=detect_leaks=0:exitcode=77:handle_abort=0"});
        if (broke_down(c, a)) { ++broke; vp::observe("unstable-configuration"); app::remove_tree(dir); return; }
        if (judge_run(a, sig, "")) { judge_files(dir, sig, 1); vp::observe("asan:" + c.prog); vp::signature(sig); }
        if (a.ok() && c.prog != "amrsand" && c.prog != "partdom")
        {
            auto from = last_checkpoint(dir, r); if (vp::check(! from.empty(), "files-missing", sig + ": no checkpoint"))
            {
                double T = 0; for (auto& kv : c.o) if (kv.first == "tfinal") T = std::atof(kv.second.c_str()); app::args_t again = {c.prog, "restart=" + from.substr(dir.size() + 1), "tfinal=" + num(1.3 * T)}; if (c.prog == "binary" && r.chance(0.5)) again.push_back("threaded=" + std::to_string(r.range(1, 6)));
                auto b = app::run(again, dir, "ASAN", 200, {"ASAN_OPTIONS=detect_leaks=0:exitcode=77:handle_abort=0"}); auto how = sig + "| " + app::joined(again);
                if (! broke_down(c, b) && judge_run(b, how, "")) { judge_files(dir, how, 1); vp::observe("restart:" + c.prog); }
            }
        }
        app::remove_tree(dir);
    });
    vp::check(broke * 3 <= disks, "run-failed", vp::fmt("%d of %d disk and jet configurations broke down", broke.load(), disks.load()));
}
VP_SECTION("race detector", 1, 6)
{
    int n = vp::S().thorough ? 40 : 20; auto seed = rng.next(); (void) index;
    app::parallel(n, [&] (std::size_t k)
    {
        vp::rng_t r {vp::mix(seed + k)}; auto c = make(k % 2 ? "cloud" : "binary", r, true); if (c.prog == "binary") for (auto& kv : c.o) if (kv.first == "threaded") kv.second = std::to_string(r.range(2, 6)); auto dir = app::new_dir("t"); auto sig = app::joined(c.args());
        auto a = app::run(c.args(), dir, "TSAN", 200); if (broke_down(c, a)) { vp::observe("unstable-configuration"); app::remove_tree(dir); return; }
        if (judge_run(a, sig, "(race detector)")) { judge_files(dir, sig, 1); vp::observe("tsan:" + c.prog); vp::signature("tsan " + sig); } app::remove_tree(dir);
    }, 4);
}
// an error is reported, the program fails, and no step was taken
VP_SECTION("invalid options", 1, 4)
{
    struct bad_t { std::string prog, arg, why; }; std::vector<bad_t> bad; (void) index;
    bad.push_back({"", "nosuchprogram", "unknown sub-program"}); bad.push_back({"", "", "unknown sub-program"}); bad.push_back({"", "Sedov", "unknown sub-program"});
    for (std::string prog : {"sedov", "cloud", "binary", "boilerplate", "amrsand", "partdom"})
    {
        auto c = make(prog, rng); bad.push_back({prog, "no_such_option=1", "unknown option"}); { auto k = c.o[rng.range(0, int(c.o.size()) - 1)].first; bad.push_back({prog, k + "x=1", "unknown option"}); bad.push_back({prog, k.substr(0, k.size() - 1) + "_=1", "unknown option"}); }
        for (auto& kv : c.o) { if (kv.first == "outdir" || (prog == "binary" && kv.first == "reconstruct_method")) continue; static const char* junk[] = {"abc", "1.0.0", "12x", "", "--1", "1e", "0.5 0.6", "one"}; if (prog == "binary" && rng.chance(0.5)) continue; bad.push_back({prog, kv.first + "=" + junk[rng.range(0, 7)], "malformed value"}); }
    }
    for (auto& k : {"nr", "newtonian"}) bad.push_back({"sedov", std::string(k) + "=1.5", "malformed value"}); for (auto& k : {"depth", "block_size", "threaded", "rk_order"}) bad.push_back({"binary", std::string(k) + "=2.5", "malformed value"});
    for (const char* v : {"0", "3", "-1"}) { bad.push_back({"cloud", std::string("rk_order=") + v, "unsupported choice"}); bad.push_back({"cloud", std::string("reconstruct_method=") + v, "unsupported choice"}); bad.push_back({"binary", std::string("rk_order=") + v, "unsupported choice"}); }
    for (const char* v : {"ppm", "PLM", "plm ", "", "2"}) bad.push_back({"binary", std::string("reconstruct_method=") + v, "unsupported choice"});
    for (const char* v : {"0", "-3"}) bad.push_back({"binary", std::string("threaded=") + v, "unsupported choice"});
    for (std::string prog : {"sedov", "cloud", "binary", "boilerplate"}) { bad.push_back({prog, "restart=nosuchfile.h5", "missing restart file"}); bad.push_back({prog, "restart=stdout", "damaged restart file"}); }
    std::vector<config_t> base; for (auto& b : bad) base.push_back(b.prog.empty() ? config_t {} : make(b.prog, rng, true));
    app::parallel(bad.size(), [&] (std::size_t k)
    {
        auto& b = bad[k]; app::args_t a; auto key = b.arg.substr(0, b.arg.find('='));
        if (b.prog.empty()) a = {b.arg}; else { a = {b.prog}; for (auto& kv : base[k].o) if (kv.first != key) a.push_back(kv.first + "=" + kv.second); a.push_back(b.arg); }
        auto dir = app::new_dir("i"); auto sig = app::joined(a) + "(" + b.why + ": " + b.arg + ")"; auto r = app::run(a, dir, "ASAN", 100, {"ASAN_OPTIONS=detect_leaks=0:exitcode=77:handle_abort=0"});
        auto err = r.err; if (b.prog.size() && b.arg.compare(0, 8, "restart=") == 0) { auto i = err.find("terminate called"); if (i != std::string::npos) err = err.substr(i); } // the HDF5 library prints its own account of a missing file
        vp::check(sanitizer(err).empty() && (! r.signalled || r.status == SIGABRT), "crash", sig + " " + r.describe());
        vp::check(! r.timed_out && ! r.ok(), "invalid-accepted", sig + ": ended with success"); vp::check(r.err.size() + (b.prog.empty() ? r.out.size() : 0) > 0, "no-message", sig);
        vp::check(r.out.find("\n[0001]") == std::string::npos && r.out.compare(0, 6, "[0001]") != 0, "stepped", sig + ": took a time step"); vp::observe("invalid:" + b.why); vp::signature(sig);
        std::vector<std::string> files; h5_files(dir, files); for (auto& p : files) { app::file_t f; vp::check(app::load(p, f), "file-unreadable", sig + ": " + p); } app::remove_tree(dir);
    });
}
VP_MAIN()
