// C10: task schedule, driven in lock-step with a reference model.
#include <stdexcept>
#include <functional>
#include "app_schedule.hpp"
#include "vp.hpp"

struct state_t { mara::schedule_t schedule; std::vector<std::string> log; };

// a run loop over recurring tasks: every step advances time, marks, runs what is due
VP_SECTION("run-loops", 500, 20000)
{
    static const std::vector<std::string> names = {"write_checkpoint", "write_diagnostics", "write_time_series", "t", ""};
    int ntasks = rng.range(1, 4); std::vector<std::pair<std::string, double>> intervals; std::string sig; bool dyadic = rng.chance(0.5);
    for (int i = 0; i < ntasks; ++i) { double iv = dyadic ? rng.range(1, 64) / 64.0 : rng.chance(0.3) ? 0.1 * rng.range(1, 20) : rng.log_uniform(1e-3, 10); intervals.push_back({names[i], iv}); sig += vp::fmt("%.9g ", iv); }
    int mode = rng.range(0, 3); double shortest = 1e300, longest = 0; for (auto& t : intervals) { shortest = std::min(shortest, t.second); longest = std::max(longest, t.second); }
    double dt0 = mode == 3 ? rng.uniform(1.0, 3.0) * shortest : mode == 0 ? shortest / rng.range(1, 8) : rng.uniform(0.01, 1.0) * shortest;
    int steps = rng.range(10, 300); double start = 0.0; sig += vp::fmt("dt %.9g mode %d steps %d", dt0, mode, steps); vp::context(sig);
    state_t s; for (auto& t : intervals) { if (rng.chance(0.5)) s.schedule.create_and_mark_as_due(t.first); else { s.schedule.create(t.first); VP_CHECK(! s.schedule.is_due(t.first), "created-due", "a created task is due at once"); s.schedule.mark_as_due(t.first); } VP_CHECK(s.schedule.is_due(t.first) && s.schedule.num_times_performed(t.first) == 0 && s.schedule.last_performed(t.first) == 0.0, "created-state", "state of a new task"); }
    VP_CHECK(s.schedule.size() == intervals.size(), "task-count", "%zu tasks", s.schedule.size());
    std::vector<std::pair<std::string, std::function<state_t(const state_t&)>>> tasks; double now = start;
    std::map<std::string, std::vector<double>> fired;
    for (auto& t : intervals) { auto n = t.first; tasks.push_back({n, [n] (const state_t& st) { auto next = mara::complete_task_in(st, n); next.log.push_back(n); return next; }}); }
    auto run = [&] (state_t st) { std::vector<std::string> due; for (auto& t : intervals) if (st.schedule.is_due(t.first)) due.push_back(t.first);
        auto old = st; st.log.clear(); auto next = mara::run_scheduled_tasks<state_t>(st, tasks); VP_CHECK(next.log == due, "tasks-run", "%zu tasks run, %zu due (or other order)", next.log.size(), due.size());
        for (auto& t : intervals) { bool d = old.schedule.is_due(t.first); VP_CHECK(next.schedule.num_times_performed(t.first) == old.schedule.num_times_performed(t.first) + (d ? 1 : 0), "task-count-step", "count of '%s'", t.first.c_str()); VP_CHECK(! next.schedule.is_due(t.first), "still-due", "'%s' still due after it ran", t.first.c_str()); VP_CHECK(vp::same_bits(next.schedule.last_performed(t.first), old.schedule.last_performed(t.first)), "completion-moved-time", "'%s'", t.first.c_str()); if (d) fired[t.first].push_back(now); vp::observe(d ? "task-fired" : "task-idle"); }
        return next; };
    s = run(s);
    for (int i = 0; i < steps; ++i)
    {
        now = mode == 0 ? (i + 1) * dt0 : now + (mode == 2 ? dt0 * rng.uniform(0.1, 1.0) : dt0);
        auto before = s.schedule; auto next = mara::mark_tasks_in(s, now, intervals);
        for (auto& t : intervals) VP_CHECK(before.is_due(t.first) == s.schedule.is_due(t.first) && vp::same_bits(before.last_performed(t.first), s.schedule.last_performed(t.first)), "marking-mutates", "marking changed the schedule it was given");
        s.schedule = next; s = run(s);
    }
    for (auto& t : intervals)
    {
        double iv = t.second; auto& f = fired[t.first]; double tol = 1e-9 * iv + 1e-12 * now; VP_CHECK(! f.empty() && f[0] == start, "first-fire", "'%s' did not fire at the start", t.first.c_str());
        double maxdt = mode == 3 ? dt0 : dt0; 
        for (std::size_t n = 1; n < f.size(); ++n) VP_CHECK(f[n] >= n * iv - tol && f[n] > f[n - 1], "fired-early", "'%s' fired for the %zu-th time at %.17g, due %.17g", t.first.c_str(), n, f[n], n * iv);
        if (maxdt < iv * (1 - 1e-9)) { for (std::size_t n = 1; n < f.size(); ++n) VP_CHECK(f[n] <= n * iv + maxdt + tol, "fired-late", "'%s' fired for the %zu-th time at %.17g, due %.17g", t.first.c_str(), n, f[n], n * iv);
            double expect = std::floor(now / iv + 1e-9) + 1; VP_CHECK(f.size() == expect || std::fabs(now / iv - std::round(now / iv)) < 1e-6, "fire-count", "'%s' fired %zu times until %.17g with interval %.17g", t.first.c_str(), f.size(), now, iv); }
        else { // backlog: one per step until caught up
            double expect = std::min<double>(steps + 1, std::floor(now / iv + 1e-9) + 1); (void) expect; std::size_t k = 0; double last = 0, tt = 0; if (mode != 2) { for (int i = 0; i < steps; ++i) { tt = mode == 0 ? (i + 1) * dt0 : tt + dt0; if (tt - last >= iv * (1 + 1e-9)) { ++k; last += iv; } else if (tt - last >= iv * (1 - 1e-9)) { k = 0; break; } } if (k) { VP_CHECK(std::fabs(double(f.size()) - double(k + 1)) <= 1, "backlog", "'%s' fired %zu times, expected %zu", t.first.c_str(), f.size(), k + 1); vp::observe("backlog"); } } }
        VP_CHECK(s.schedule.num_times_performed(t.first) == int(f.size()), "total-count", "'%s'", t.first.c_str());
        VP_CHECK(std::fabs(s.schedule.last_performed(t.first) - (f.size() - 1) * iv) <= 1e-9 * (1 + f.size() * iv), "last-performed", "'%s' last performed %.17g, expected %.17g", t.first.c_str(), s.schedule.last_performed(t.first), (f.size() - 1) * iv);
    }
    vp::signature(sig);
}

VP_SECTION("histories", 1500, 60000)
{
    struct ref_t { int n = 0; double last = 0; bool due = false; }; std::map<std::string, ref_t> ref; mara::schedule_t s; std::string sig;
    static const std::vector<std::string> names = {"a", "b", "c", "write_checkpoint", "A", ""};
    for (int i = 0; i < rng.range(1, 30); ++i)
    {
        auto n = rng.pick(names); bool known = ref.count(n); int op = rng.range(0, 7); sig += vp::fmt("%d%s ", op, n.c_str()); vp::context(sig);
        switch (op)
        {
            case 0: s.create(n); ref[n] = {}; break;
            case 1: s.create_and_mark_as_due(n); ref[n] = {0, 0, true}; break;
            case 2: { double x = rng.range(-8, 8) / 4.0; bool t = vp::throws([&] { s.mark_as_due(n, x); }); VP_CHECK(t == ! known, "unknown-task", "marking '%s'", n.c_str()); if (known) { ref[n].due = true; ref[n].last += x; } break; }
            case 3: { bool t = vp::throws_as<std::out_of_range>([&] { s.mark_as_due(n); }); VP_CHECK(t == ! known, "unknown-task", "marking '%s'", n.c_str()); if (known) ref[n].due = true; break; }
            case 4: { bool t = vp::throws_as<std::out_of_range>([&] { s.mark_as_completed(n); }); VP_CHECK(t == ! known, "unknown-task", "completing '%s'", n.c_str()); if (known) { ref[n].due = false; ref[n].n++; } break; }
            case 5: { mara::schedule_t::task_t t; t.name = n; t.num_times_performed = rng.range(0, 100); t.last_performed = rng.range(0, 100) / 8.0; t.is_due = rng.chance(0.5); s.insert(t); ref[n] = {t.num_times_performed, t.last_performed, t.is_due}; break; }
            case 6: { state_t st {s, {}}; bool t = vp::throws([&] { st = mara::complete_task_in(st, n); }); VP_CHECK(t == ! known, "unknown-task", "completing '%s'", n.c_str()); if (known) { s = st.schedule; ref[n].due = false; ref[n].n++; } break; }
            case 7: { double time = rng.range(0, 64) / 4.0, iv = rng.range(1, 16) / 4.0; state_t st {s, {}}; bool t = vp::throws([&] { s = mara::mark_tasks_in(st, time, {{n, iv}}); }); VP_CHECK(t == ! known, "unknown-task", "marking '%s'", n.c_str()); if (known && time - ref[n].last >= iv) { ref[n].due = true; ref[n].last += iv; } break; }
        }
        VP_CHECK(s.size() == ref.size(), "task-count", "%zu tasks, want %zu", s.size(), ref.size()); std::size_t k = 0;
        for (auto t : s) { ++k; VP_CHECK(ref.count(t.first) && t.second.name == t.first, "listing", "task '%s' listed", t.first.c_str()); } VP_CHECK(k == ref.size(), "listing", "%zu listed", k);
        for (auto& kv : ref) { VP_CHECK(s.count(kv.first) == 1 && s.num_times_performed(kv.first) == kv.second.n && vp::same_bits(s.last_performed(kv.first), kv.second.last) && s.is_due(kv.first) == kv.second.due, "task-state", "'%s': count %d last %g due %d, want %d %g %d", kv.first.c_str(), s.num_times_performed(kv.first), s.last_performed(kv.first), int(s.is_due(kv.first)), kv.second.n, kv.second.last, int(kv.second.due)); vp::observe("task-compared"); }
        VP_CHECK(s.count("~nope~") == 0 && vp::throws_as<std::out_of_range>([&] { s.is_due("~nope~"); }) && vp::throws_as<std::out_of_range>([&] { s.num_times_performed("~nope~"); }) && vp::throws_as<std::out_of_range>([&] { s.last_performed("~nope~"); }), "unknown-task", "query of an unknown task");
        state_t st {s, {}}; std::vector<std::pair<std::string, std::function<state_t(const state_t&)>>> tasks {{"~nope~", [] (const state_t& x) { return x; }}}; VP_CHECK(vp::throws_as<std::out_of_range>([&] { mara::run_scheduled_tasks<state_t>(st, tasks); }), "unknown-task", "running an unknown task");
    }
    vp::signature(sig);
}
// Tasks see and edit the state they are given; which tasks run is settled by
// the state the round starts with.
VP_SECTION("rounds", 500, 10000)
{
    int n = rng.range(1, 6); std::string sig; state_t s; std::vector<std::pair<std::string, std::function<state_t(const state_t&)>>> tasks; std::vector<std::string> due; std::vector<bool> is_due(n); std::vector<int> marks(n, -1);
    for (int i = 0; i < n; ++i) { auto nm = "task" + std::to_string(i); is_due[i] = rng.chance(0.5); if (rng.chance(0.3)) { mara::schedule_t::task_t t; t.name = nm; s.schedule.insert(t); VP_CHECK(! s.schedule.is_due(nm) && s.schedule.num_times_performed(nm) == 0 && s.schedule.last_performed(nm) == 0.0, "fresh-task", "a fresh task is due or was performed"); if (is_due[i]) s.schedule.mark_as_due(nm); } else if (is_due[i]) s.schedule.create_and_mark_as_due(nm); else s.schedule.create(nm); }
    for (int i = 0; i < n; ++i) if (rng.chance(0.5)) marks[i] = rng.range(0, n - 1);
    std::vector<bool> after = is_due;
    for (int i = 0; i < n; ++i)
    {
        auto nm = "task" + std::to_string(i); sig += vp::fmt("%d%c>%d ", i, is_due[i] ? '!' : '.', marks[i]); int other = marks[i];
        tasks.push_back({nm, [nm, other] (const state_t& st) { auto next = mara::complete_task_in(st, nm); next.log.push_back(nm); if (other >= 0) next.schedule.mark_as_due("task" + std::to_string(other)); return next; }});
        if (is_due[i]) { due.push_back(nm); after[i] = false; if (other >= 0) after[other] = true; }
    }
    vp::context(sig); auto next = mara::run_scheduled_tasks<state_t>(s, tasks);
    VP_CHECK(next.log == due, "tasks-run", "%zu tasks ran, %zu were due when the round started", next.log.size(), due.size());
    for (int i = 0; i < n; ++i) VP_CHECK(next.schedule.is_due("task" + std::to_string(i)) == after[i] && next.schedule.num_times_performed("task" + std::to_string(i)) == int(is_due[i]), "round-state", "task %d after the round", i);
    vp::observe("round"); vp::signature(sig);
}
VP_MAIN()
