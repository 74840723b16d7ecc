// C26: the command line tools for suites of runs and for collecting their files.  The real scripts run in
// scratch folders; commands they start are stand-ins that record how they were called.
#include "app.hpp"
#include <set>

using map_t = std::map<std::string, std::string>;
static std::string tool(const char* name) { auto t = std::getenv("VP_TOOLS"); return std::string(t ? t : "/repo/tools") + "/" + name; }
static void put(const std::string& path, const std::string& text, int mode=0644) { std::ofstream(path, std::ios::binary) << text; chmod(path.c_str(), mode); }
static void make_dirs(const std::string& p) { for (auto k = p.find('/', 1); ; k = p.find('/', k + 1)) { mkdir(p.substr(0, k).c_str(), 0755); if (k == std::string::npos) break; } }
static std::vector<std::string> lines_of(const std::string& path) { std::vector<std::string> v; std::ifstream f(path); std::string l; while (std::getline(f, l)) v.push_back(l); return v; }
static std::vector<std::string> words(const std::string& s) { std::vector<std::string> v; std::istringstream is(s); std::string w; while (is >> w) v.push_back(w); return v; }
static std::string word(vp::rng_t& rng) { static const char* c = "abcdefgijkmnorstuvwxyzABCQR0123456789_"; std::string s(1, c[rng.range(0, 20)]); for (int n = rng.range(2, 8); n--;) s += c[rng.range(0, 36)]; return s; }
static map_t tree(const std::string& root, const std::string& at="") { map_t m; for (auto& f : app::files(root + at)) { auto p = root + at + "/" + f; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { auto s = tree(root, at + "/" + f); m.insert(s.begin(), s.end()); } else m[at + "/" + f] = app::slurp(p); } return m; }
static std::string name_of(const char* prefix, int n) { return vp::fmt("%s.%04d.h5", prefix, n); }

// numbers of files some run might have left: consecutive, a few, beyond four digits
static std::vector<int> some_numbers(vp::rng_t& rng)
{
    std::vector<int> v; int first = rng.chance(0.3) ? rng.range(9990, 10005) : rng.chance(0.3) ? rng.range(90, 110) : 0, n = rng.range(1, 14);
    for (int i = 0; i < n; ++i) if (v.empty() || rng.chance(0.9)) v.push_back(first + i); return v;
}
static std::string value(vp::rng_t& rng) { switch (rng.range(0, 3)) { case 0: return std::to_string(rng.range(-20, 5000)); case 1: return vp::fmt("%d.%d", rng.range(0, 99), rng.range(1, 9)); case 2: return "'" + word(rng) + "'"; default: return vp::fmt("%de-%02d", rng.range(1, 9), rng.range(5, 12)); } }
static std::string plain(const std::string& v) { return v.size() && v[0] == '\'' ? v.substr(1, v.size() - 2) : v; }
static std::string dict(const map_t& m) { std::string s = "{"; for (auto& kv : m) s += "'" + kv.first + "': " + kv.second + ", "; return s + "}"; }
static std::string joined_map(const map_t& m) { std::string s; for (auto& kv : m) s += kv.first + "=" + kv.second + " "; return s; }

// command line -> program, sub-program and options
static bool parse(const std::vector<std::string>& w, std::string& exe, std::string& sub, map_t& opts)
{
    if (w.size() < 2) return false; exe = w[0]; sub = w[1];
    for (std::size_t i = 2; i < w.size(); ++i) { auto e = w[i].find('='); if (e == std::string::npos || opts.count(w[i].substr(0, e))) return false; opts[w[i].substr(0, e)] = w[i].substr(e + 1); } return true;
}

VP_SECTION("suites", 40, 600)
{
    auto d = app::new_dir("suite"); static const char* keys[] = {"resolution", "tfinal", "cpi", "rk_order", "depth", "eccentricity", "mass_ratio", "disk_mass", "nr"};
    bool named = rng.chance(0.5), rooted = rng.chance(0.5), with_exe = rng.chance(0.4), machine = rng.chance(0.5), submit = rng.chance(0.6), restart = rng.chance(0.5), again = rng.chance(0.3), elsewhere = rng.chance(0.3);
    std::string stem = word(rng), name = named ? word(rng) : stem, where = elsewhere ? "suites" : "", file = (elsewhere ? "suites/" : "") + stem + ".py", exe = with_exe ? word(rng) : "mara", sub = word(rng);
    std::string root = rooted ? (rng.chance(0.5) ? d + "/" + word(rng) : word(rng)) : elsewhere ? "suites" : "."; if (elsewhere) make_dirs(d + "/suites");
    map_t common; for (auto k : keys) if (rng.chance(0.5)) common[k] = value(rng); std::map<std::string, map_t> runs; for (int n = rng.range(1, 4); n--;) { map_t m; for (auto k : keys) if (rng.chance(0.3)) m[k] = value(rng); runs[word(rng)] = m; }
    int nodes = rng.range(1, 64), hours = rng.range(1, 48); auto comment = word(rng) + " " + word(rng); bool commented = rng.chance(0.5);
    std::string text = "suite = {\n 'subprog': '" + sub + "',\n 'job_params': {'nodes': " + std::to_string(nodes) + ", 'hours': " + std::to_string(hours) + "},\n";
    if (named) text += " 'name': '" + name + "',\n"; if (rooted) text += " 'root_dir': '" + root + "',\n"; if (with_exe) text += " 'exe': '" + exe + "',\n"; if (commented) text += " 'comment': '" + comment + "',\n";
    if (! common.empty() || rng.chance(0.5)) text += " 'mara_opts': " + dict(common) + ",\n"; text += " 'runs': {"; for (auto& r : runs) text += "'" + r.first + "': " + dict(r.second) + ", "; text += "}\n}\n";
    put(d + "/" + file, text);
    // stand-ins for the program and for the queue
    put(d + "/" + exe, "#!/bin/sh\necho \"$0 $@\" >> '" + d + "/started'\n", 0755); put(d + "/queue", "#!/bin/sh\necho \"$@\" >> '" + d + "/queued'\n", 0755);
    std::string machine_file = rng.chance(0.5) ? "machine.py" : word(rng) + ".py";
    if (machine) put(d + "/" + machine_file, "machine = {'submit_command': './queue', 'submit_script': '#!/bin/bash\\n#N {nodes}\\n#H {hours}\\n#J {job_name}\\n#O {output}\\n{command}\\n'}\n");
    // what earlier runs left
    std::map<std::string, int> latest; bool complete = true;
    for (auto& r : runs)
    {
        auto rd = (root[0] == '/' ? root : d + "/" + root) + "/" + name + "/" + r.first; if (! restart && ! again) continue;
        make_dirs(rd); for (int n : some_numbers(rng)) { put(rd + "/" + name_of("chkpt", n), "c" + std::to_string(n)); latest[r.first] = n; } for (int n : some_numbers(rng)) put(rd + "/" + name_of("diagnostics", n + 3), "d"); if (rng.chance(0.5)) put(rd + "/time_series.h5", "t"); if (rng.chance(0.3)) put(rd + "/README", "old");
    }
    app::args_t args = {tool("run_suite.py"), file}; if (submit) args.push_back(rng.chance(0.5) ? "--submit" : "-s"); if (restart) args.push_back("--restart"); bool quiet = rng.chance(0.5); if (quiet) args.push_back("-q"); if (machine && machine_file != "machine.py") { args.push_back("--machine-file"); args.push_back(machine_file); }
    auto before = tree(d); auto res = app::run(args, d, "PYTHON"); auto after = tree(d); vp::context(app::joined(args) + " | " + text);
    if (! VP_CHECK(res.ok(), "suite-failed", "%s", res.describe().c_str())) { app::remove_tree(d); return; }
    std::set<std::string> scripts; auto started = lines_of(d + "/started"), queued = lines_of(d + "/queued"); std::multiset<std::string> seen_queued(queued.begin(), queued.end());
    for (auto& r : runs)
    {
        auto rdir = (root == "." ? std::string() : root + "/") + name + "/" + r.first, abs = root[0] == '/' ? rdir : d + "/" + rdir, script = abs + "/submit.sh"; map_t want = {{"outdir", rdir}};
        for (auto& kv : common) want[kv.first] = plain(kv.second); if (restart) want["restart"] = rdir + "/" + name_of("chkpt", latest[r.first]); for (auto& kv : r.second) want[kv.first] = plain(kv.second);
        if (! VP_CHECK(app::exists(script), "script-missing", "%s was not written", script.c_str())) continue;
        std::string e, s; map_t got; auto body = lines_of(script); std::string command; for (auto& l : body) if (l.compare(0, 2, "./") == 0) command = l; bool ok = parse(words(command), e, s, got);
        // the folder may be spelled in different ways
        auto normal = [&] (std::string p) { while (p.compare(0, 2, "./") == 0) p = p.substr(2); return p; }; for (auto k : {"outdir", "restart"}) if (got.count(k)) got[k] = normal(got[k]);
        VP_CHECK(ok && e == "./" + exe && s == sub, "script-command", "run %s: command \"%s\"", r.first.c_str(), command.c_str());
        VP_CHECK(got == want, "script-options", "run %s: options \"%s\", expected \"%s\"", r.first.c_str(), joined_map(got).c_str(), joined_map(want).c_str());
        if (machine) { auto all = app::slurp(script); for (auto& l : {vp::fmt("#N %d\n", nodes), vp::fmt("#H %d\n", hours), "#J " + r.first + "\n"}) VP_CHECK(all.find(l) != std::string::npos, "script-job", "run %s: no \"%s\" in %s", r.first.c_str(), l.c_str(), all.c_str()); VP_CHECK(all.find("/" + r.first + "/" + r.first + ".out\n") != std::string::npos, "script-job", "run %s: output named otherwise in %s", r.first.c_str(), all.c_str()); }
        auto readme = app::slurp(abs + "/README"); VP_CHECK(! readme.empty() && (! commented || readme.find(comment) != std::string::npos), "suite-readme", "README of %s: %s", r.first.c_str(), readme.c_str());
        if (! quiet) VP_CHECK(res.out.find(command) != std::string::npos, "script-printed", "the command of %s is not printed", r.first.c_str());
        int starts = 0, entries = 0; if (! machine) for (auto& l : started) { std::string e2, s2; map_t g2; if (parse(words(l), e2, s2, g2)) { for (auto k : {"outdir", "restart"}) if (g2.count(k)) g2[k] = normal(g2[k]); starts += g2 == want && s2 == sub; } }
        for (auto& q : queued) entries += normal(q) == normal(rdir + "/submit.sh"); int n = machine ? entries : starts; VP_CHECK(n == (submit ? 1 : 0), "run-submitted", "run %s was %s %d times", r.first.c_str(), machine ? "submitted" : "started", n);
        auto rel = abs.substr(d.size()); scripts.insert(rel + "/submit.sh"); scripts.insert(rel + "/README"); vp::observe("suite-run"); if (restart) vp::observe("suite-restart"); if (restart && latest[r.first] > 9999) vp::observe("restart-beyond-9999");
    }
    VP_CHECK(started.size() + queued.size() == (submit ? runs.size() : 0), "run-submitted", "%zu runs were started or submitted, the suite has %zu", started.size() + queued.size(), runs.size()); if (submit) vp::observe("suite-submitted");
    for (auto& kv : before) if (! scripts.count(kv.first)) VP_CHECK(after.count(kv.first) && after[kv.first] == kv.second, "file-touched", "%s was changed or removed", kv.first.c_str());
    for (auto& kv : after) if (! before.count(kv.first) && kv.first != "/started" && kv.first != "/queued" && kv.first.find("__pycache__") == std::string::npos) VP_CHECK(scripts.count(kv.first), "file-added", "%s was written", kv.first.c_str());
    vp::signature(text + app::joined(args)); app::remove_tree(d); (void) complete;
}

VP_SECTION("copies", 60, 800)
{
    auto d = app::new_dir("copies"); std::vector<std::string> dirs; std::map<std::string, std::map<std::string, std::vector<int>>> have; int n = rng.range(1, 5);
    for (int i = 0; i < n; ++i)
    {
        auto base = word(rng) + std::to_string(i), path = rng.chance(0.4) ? word(rng) + "/" + base : base; make_dirs(d + "/" + path); for (auto p : {"chkpt", "diagnostics"}) if (rng.chance(0.85)) { have[path][p] = some_numbers(rng); for (int k : have[path][p]) put(d + "/" + path + "/" + name_of(p, k), base + p + std::to_string(k) + std::string(rng.range(0, 3000), char(rng.range(0, 255)))); }
        if (rng.chance(0.5)) put(d + "/" + path + "/time_series.h5", "t"); dirs.push_back(path);
    }
    if (rng.chance(0.3)) { auto f = word(rng) + "x"; put(d + "/" + f, "a file"); dirs.push_back(f); } if (rng.chance(0.2)) dirs.push_back("missing_folder");
    std::string prefix = rng.chance(0.5) ? "chkpt" : "diagnostics", dest = rng.chance(0.7) ? (rng.chance(0.5) ? "target" : "deep/er/target") : "."; bool groups = rng.chance(0.25), numbered = rng.chance(0.4); int shortest = 1000; for (auto& p : dirs) if (have.count(p) && have[p].count(prefix)) shortest = std::min(shortest, int(have[p][prefix].size()));
    int count = shortest == 1000 ? 0 : rng.range(0, shortest - 1); app::args_t args = {tool("copy_latest.py")}; for (auto& p : dirs) args.push_back(p + (rng.chance(0.2) && have.count(p) ? "/" : ""));
    if (prefix != "chkpt" || rng.chance(0.3)) { args.push_back("--prefix"); args.push_back(prefix); } if (dest != ".") { args.push_back(rng.chance(0.5) ? "-d" : "--destination"); args.push_back(dest); } if (numbered) { args.push_back("--count"); args.push_back(std::to_string(count)); }
    std::vector<std::string> gs; if (groups) { for (int k = rng.range(1, 3); k--;) gs.push_back(word(rng)); std::string s; for (auto& g : gs) s += (s.empty() ? "" : ",") + g; args.push_back("--groups"); args.push_back(s); }
    mkdir((d + "/bin").c_str(), 0755); put(d + "/bin/h5copy", "#!/bin/sh\necho \"$@\" >> '" + d + "/bin/calls'\n", 0755);
    auto before = tree(d); auto res = app::run(args, d, "PYTHON", 120, {"PATH=" + d + "/bin:/usr/bin:/bin"}); auto after = tree(d); vp::context(app::joined(args));
    if (! VP_CHECK(res.ok(), "copy-failed", "%s", res.describe().c_str())) { app::remove_tree(d); return; }
    map_t want = before; std::multiset<std::string> calls; auto at = dest == "." ? std::string("/") : "/" + dest + "/";
    for (auto& p : dirs) if (have.count(p) && have[p].count(prefix))
    {
        auto& v = have[p][prefix]; int k = numbered ? v[count] : v.back(); auto base = p.substr(p.rfind('/') + 1), suffix = name_of(prefix.c_str(), k).substr(prefix.size()), to = base + (prefix == "chkpt" ? "" : ".diagnostics") + suffix;
        if (groups) { for (auto& g : gs) calls.insert(p + "/" + name_of(prefix.c_str(), k) + ">" + at.substr(1) + to + ">" + g); } else want[at + to] = before["/" + p + "/" + name_of(prefix.c_str(), k)];
        vp::observe("file-copied"); if (k > 9999 && ! numbered) vp::observe("copy-beyond-9999"); if (numbered && count == 0 && v.size() > 1) vp::observe("copy-first");
    }
    for (auto& kv : want) if (kv.first != "/bin/calls") VP_CHECK(after.count(kv.first) && after[kv.first] == kv.second, before.count(kv.first) && before[kv.first] == kv.second ? "file-touched" : "copy-wrong", "%s is %s", kv.first.c_str(), after.count(kv.first) ? "another file" : "missing");
    for (auto& kv : after) if (kv.first != "/bin/calls") VP_CHECK(want.count(kv.first), "file-added", "%s was written", kv.first.c_str());
    std::multiset<std::string> made; for (auto& l : lines_of(d + "/bin/calls")) { auto w = words(l); map_t m; for (std::size_t i = 0; i + 1 < w.size(); i += 2) m[w[i]] = w[i + 1]; auto strip = [] (std::string s) { while (s.compare(0, 2, "./") == 0) s = s.substr(2); for (std::size_t k; (k = s.find("//")) != std::string::npos;) s.erase(k, 1); return s; }; VP_CHECK(m["-s"] == m["-d"], "group-renamed", "%s", l.c_str()); made.insert(strip(m["-i"]) + ">" + strip(m["-o"]) + ">" + (m["-s"].size() ? m["-s"].substr(1) : "")); }
    std::string got; for (auto& c : made) got += c + " "; VP_CHECK(made == calls, "groups-copied", "copied %s", got.c_str()); if (groups) vp::observe("groups-copied", calls.size());
    vp::signature(app::joined(args)); app::remove_tree(d);
}

// the real program started through the tool, and started again from where it stopped
VP_SECTION("suite of explosions", 2, 20)
{
    auto d = app::new_dir("real"); auto exe = std::getenv("VP_APP_PLAIN"); if (! VP_CHECK(exe && symlink(exe, (d + "/mara").c_str()) == 0, "no-application", "no application")) return;
    std::vector<std::string> ids = {word(rng) + "a", word(rng) + "b"}; double t1 = 0.2, t2 = 0.5; std::vector<double> cpi = {rng.uniform(0.04, 0.08), rng.uniform(0.04, 0.08)}; int nr = rng.range(24, 40);
    auto suite = [&] (double tfinal) { put(d + "/boom.py", vp::fmt("suite = {'subprog': 'sedov', 'job_params': {'nodes': 1, 'hours': 1}, 'mara_opts': {'nr': %d, 'outer_radius': 10.0, 'tfinal': %g, 'cpi': 9.0}, 'runs': {'%s': {'cpi': %.3f}, '%s': {'cpi': %.3f, 'newtonian': 1}}}\n", nr, tfinal, ids[0].c_str(), cpi[0], ids[1].c_str(), cpi[1])); };
    suite(t1); auto res = app::run({tool("run_suite.py"), "boom.py", "--submit"}, d, "PYTHON"); VP_CHECK(res.ok(), "suite-failed", "%s", res.describe().c_str()); std::vector<map_t> first; std::vector<int> last;
    for (auto& id : ids) { auto o = d + "/boom/" + id; first.push_back(tree(o)); auto nums = app::numbers(o, "chkpt"); last.push_back(nums.empty() ? -1 : nums.back()); VP_CHECK(nums.size() >= 3, "suite-outputs", "%s: %zu checkpoints", id.c_str(), nums.size()); }
    suite(t2); res = app::run({tool("run_suite.py"), "boom.py", "--submit", "--restart"}, d, "PYTHON"); VP_CHECK(res.ok(), "suite-failed", "%s", res.describe().c_str());
    for (int i = 0; i < 2; ++i)
    {
        auto o = d + "/boom/" + ids[i]; auto nums = app::numbers(o, "chkpt"); if (! VP_CHECK(last[i] >= 0 && ! nums.empty() && nums.back() > last[i] + 1, "suite-restart", "%s: last checkpoint %d, %d before", ids[i].c_str(), nums.empty() ? -1 : nums.back(), last[i])) continue;
        for (int n = 0; n <= last[i]; ++n) VP_CHECK(app::slurp(o + "/" + name_of("chkpt", n)) == first[i]["/" + name_of("chkpt", n)], "suite-restart", "%s: checkpoint %d was written again", ids[i].c_str(), n);
        app::file_t f; app::load(o + "/" + name_of("chkpt", nums.back()), f); VP_CHECK(app::integer(f, "/run_config/nr") == nr && app::scalar(f, "/run_config/tfinal") == t2 && app::scalar(f, "/run_config/cpi") == std::atof(vp::fmt("%.3f", cpi[i]).c_str()) && app::integer(f, "/run_config/newtonian") == i, "suite-options", "%s runs with other options", ids[i].c_str());
        double t = app::scalar(f, "/solution/time"); VP_CHECK(t > t2 - cpi[i] - 0.05 && t < t2 + 0.1, "suite-restart", "%s ends at %g", ids[i].c_str(), t); vp::observe("real-run");
    }
    auto copied = app::run({tool("copy_latest.py"), "boom/" + ids[0], "boom/" + ids[1], "-d", "latest"}, d, "PYTHON"); VP_CHECK(copied.ok(), "copy-failed", "%s", copied.describe().c_str());
    for (auto& id : ids) { auto n = app::numbers(d + "/boom/" + id, "chkpt"); if (n.size()) VP_CHECK(app::slurp(d + "/latest/" + id + vp::fmt(".%04d.h5", n.back())) == app::slurp(d + "/boom/" + id + "/" + name_of("chkpt", n.back())), "copy-wrong", "the latest checkpoint of %s", id.c_str()); }
    vp::signature(ids[0] + ids[1]); app::remove_tree(d);
}
VP_MAIN()
