// C01: thread pool -- exactly-once execution, delivery, concurrency, shutdown.
#include <algorithm>
#include <functional>
#include <memory>
#include <condition_variable>
#include <stdexcept>
#include "vp.hpp"
#include "watchdog.hpp"
#include "core_thread_pool.hpp"

#ifdef VP_INJECT
#include <dlfcn.h>
#include <pthread.h>
// Fault injection: the synchronisation calls made by the code under test are
// interposed and delayed at their race windows.
static std::atomic<int> inject_mode {0};
static std::atomic<unsigned long> injected {0};
static thread_local unsigned long inject_state = 0;
static void nap(unsigned long odds, int us)
{
    if (! inject_state) inject_state = vp::mix((unsigned long)(pthread_self()));
    inject_state = vp::mix(inject_state);
    if (inject_state % odds == 0)
    {
        injected++;
        struct timespec ts = {0, us * 1000L};
        nanosleep(&ts, nullptr);
    }
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    using fn = int (*)(pthread_cond_t*, pthread_mutex_t*);
    static fn real = (fn) dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    if (inject_mode & 1) nap(1, 300);   // predicate was evaluated, not yet waiting
    return real(c, m);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    using fn = int (*)(pthread_mutex_t*);
    static fn real = (fn) dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (inject_mode & 2) nap(4, 50);
    return real(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    using fn = int (*)(pthread_mutex_t*);
    static fn real = (fn) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real(m);
    if (inject_mode & 4) nap(4, 50);
    return r;
}
#else
static std::atomic<int> inject_mode {0};
static std::atomic<unsigned long> injected {0};
#endif

static vp::watchdog_t dog(20);

struct task_error : std::runtime_error { int id; task_error(int id) : std::runtime_error("task"), id(id) {} };

static void delay(unsigned long r)
{
    switch (r % 8)
    {
        case 0: std::this_thread::yield(); break;
        case 1: std::this_thread::sleep_for(std::chrono::microseconds(r / 8 % 200)); break;
        case 2: { volatile int x = 0; for (unsigned i = 0; i < r / 8 % 500; ++i) x = x + 1; } break;
        default: break;
    }
}

struct monitor_t
{
    explicit monitor_t(int n) : runs(n) { for (auto& r : runs) r = 0; }
    std::vector<std::atomic<int>> runs;
    std::atomic<int> live {0}, peak {0};
    void enter(int id) { runs[id]++; int n = ++live; int p = peak; while (n > p && ! peak.compare_exchange_weak(p, n)) {} }
    void leave() { --live; }
};

static void check_all_once(monitor_t& m, const char* when)
{
    for (std::size_t i = 0; i < m.runs.size(); ++i)
    {
        VP_CHECK(m.runs[i] == 1, "exactly-once", "task %zu ran %d times (%s)", i, int(m.runs[i]), when);
    }
}

// Main workload: several producers, results and exceptions via futures.
VP_SECTION("producers", 120, 1500)
{
    inject_mode = index % 8;
    int workers   = rng.range(1, 8);
    int producers = rng.range(1, 4);
    int each      = rng.range(0, 40);
    int n         = producers * each;
    bool may_throw = rng.chance(0.5);
#ifdef __SANITIZE_THREAD__
    may_throw = false; // exception_ptr's reference count lives in uninstrumented libstdc++.so: TSan cannot see it
#endif
    auto salt = rng.next();
    vp::context(vp::fmt("workers=%d producers=%d each=%d throw=%d", workers, producers, each, may_throw));
    vp::signature(vp::fmt("workers=%d producers=%d each=%d throw=%d inject=%ld", workers, producers, each, may_throw, index % 8));

    monitor_t m(n);
    dog.guard("submit and collect", [&]
    {
        mara::thread_pool_t pool(workers);
        std::vector<std::vector<std::future<long>>> futures(producers);
        std::vector<std::thread> ps;

        for (int p = 0; p < producers; ++p)
        {
            ps.emplace_back([&, p]
            {
                for (int i = 0; i < each; ++i)
                {
                    int id = p * each + i;
                    auto r = vp::mix(salt ^ id);
                    delay(r);
                    futures[p].push_back(pool.enqueue([&m, r, may_throw] (int id) -> long
                    {
                        m.enter(id);
                        delay(r >> 7);
                        m.leave();
                        if (may_throw && r % 5 == 0) { if (id % 3 == 1) throw id; if (id % 3 == 2) throw std::string("task ") + std::to_string(id); throw task_error(id); }
                        return 3L * id + 7;
                    }, id));
                }
            });
        }
        for (auto& t : ps) t.join();

        for (int p = 0; p < producers; ++p)
        {
            for (int i = 0; i < each; ++i)
            {
                int id = p * each + i;
                bool expect_throw = may_throw && vp::mix(salt ^ id) % 5 == 0;
                try {
                    long v = futures[p][i].get();
                    VP_CHECK(! expect_throw, "exception-delivered", "task %d threw but its future holds a value", id);
                    VP_CHECK(v == 3L * id + 7, "result-delivered", "task %d result %ld", id, v);
                    vp::observe("result");
                }
                catch (const task_error& e)
                {
                    VP_CHECK(expect_throw && id % 3 == 0 && e.id == id, "exception-delivered", "task %d delivered the exception of %d", id, e.id);
                    vp::observe("exception");
                }
                catch (int e) { VP_CHECK(expect_throw && id % 3 == 1 && e == id, "exception-delivered", "task %d delivered the exception of %d", id, e); vp::observe("exception-of-any-type"); }
                catch (const std::string& e) { VP_CHECK(expect_throw && id % 3 == 2 && e == "task " + std::to_string(id), "exception-delivered", "task %d delivered '%s'", id, e.c_str()); vp::observe("exception-of-any-type"); }
                dog.ticks++;
            }
        }
    });
    check_all_once(m, "after shutdown");
    VP_CHECK(m.peak <= workers, "concurrency-bound", "%d tasks ran at once on %d workers", int(m.peak), workers);
    vp::observe("task-run", n);
    vp::observe("injected-delays", injected.exchange(0));
}

// Shutdown and restart with work still queued: accepted tasks are not lost.
VP_SECTION("restart", 100, 1500)
{
    inject_mode = index % 8;
    int rounds = rng.range(1, 4);
    int total = 0;
    std::vector<int> workers, counts;
    for (int r = 0; r < rounds; ++r) { workers.push_back(rng.range(1, 6)); counts.push_back(rng.range(0, 25)); total += counts.back(); }
    std::string sig = "restart";
    for (int r = 0; r < rounds; ++r) sig += vp::fmt(" %d/%d", workers[r], counts[r]);
    vp::context(sig); vp::signature(sig);

    monitor_t m(total);
    std::vector<std::future<int>> futures;
    auto salt = rng.next();

    dog.guard("restart / shutdown", [&]
    {
        mara::thread_pool_t pool(workers[0]);
        int id = 0;
        for (int r = 0; r < rounds; ++r)
        {
            if (r > 0)
            {
                pool.restart(workers[r]);
                for (int i = 0; i < id; ++i)
                    VP_CHECK(m.runs[i] == 1, "drained-by-restart", "task %d of %d accepted before the restart ran %d times", i, id, int(m.runs[i]));
                vp::observe("restart");
            }
            for (int i = 0; i < counts[r]; ++i, ++id)
            {
                auto d = vp::mix(salt ^ id);
                futures.push_back(pool.enqueue([&m, d, id] { m.enter(id); delay(d); m.leave(); return id * id; }));
            }
            dog.ticks++;
        }
    });
    check_all_once(m, "after destruction");
    for (std::size_t i = 0; i < futures.size(); ++i)
        VP_CHECK(futures[i].wait_for(std::chrono::seconds(0)) == std::future_status::ready && futures[i].get() == int(i * i), "result-delivered", "future %zu after shutdown", i);
    vp::observe("task-run", total);
    vp::observe("injected-delays", injected.exchange(0));
}

// Idle pools: construct, maybe do a little, destroy. Hunts lost wake-ups.
VP_SECTION("idle-shutdown", 1500, 20000)
{
    inject_mode = (index % 2) ? 1 : 0;
    int workers = rng.range(1, 4);
    int pre = rng.range(0, 3);
    auto spin = rng.next();
    int explicit_stop = rng.range(0, 3);
    vp::context(vp::fmt("idle workers=%d tasks=%d stop=%d", workers, pre, explicit_stop));
    vp::signature(vp::fmt("idle workers=%d tasks=%d stop=%d spin=%d", workers, pre, explicit_stop, int(spin % 8)));
    dog.guard("idle shutdown", [&]
    {
        mara::thread_pool_t pool(workers);
        for (int i = 0; i < pre; ++i) pool.enqueue([i] { return i; }).get();
        delay(spin);
        if (explicit_stop == 1) pool.stop_all();
        if (explicit_stop == 2) { pool.stop_all(); pool.stop_all(); }
        if (explicit_stop == 3) { pool.restart(1); VP_CHECK(pool.enqueue([] { return 5; }).get() == 5, "result-delivered", "after restart"); }
    });
    vp::S().checks++;
    vp::observe("shutdown");
    vp::observe("injected-delays", injected.exchange(0));
}

// A pool of n workers really runs n tasks at once (they wait for each other).
VP_SECTION("barrier", 60, 600)
{
    inject_mode = 0;
    int workers = rng.chance(0.15) ? rng.range(9, 48) : rng.range(1, 8);
    bool via_restart = rng.chance(0.5);
    vp::context(vp::fmt("barrier workers=%d restart=%d", workers, via_restart));
    vp::signature(vp::fmt("barrier workers=%d restart=%d", workers, via_restart));
    dog.guard("concurrent tasks", [&]
    {
        mara::thread_pool_t pool(via_restart ? int(rng.range(1, 8)) : workers);
        if (via_restart) pool.restart(workers);
        for (int round = 0; round < 3; ++round)
        {
            std::atomic<int> arrived {0};
            std::vector<std::future<int>> f;
            for (int i = 0; i < workers; ++i)
                f.push_back(pool.enqueue([&arrived, workers] { arrived++; while (arrived < workers) std::this_thread::yield(); return 1; }));
            int sum = 0;
            for (auto& x : f) sum += x.get();
            VP_CHECK(sum == workers, "result-delivered", "barrier sum %d", sum);
            dog.ticks++;
        }
    });
    vp::observe("barrier");
}

// A long queue builds up while every worker is busy.
VP_SECTION("backlog", 3, 30)
{
    inject_mode = 0;
#ifdef __SANITIZE_THREAD__
    int n = rng.range(500, 1500);
#else
    int n = rng.range(5000, 9000);
#endif
    int workers = rng.range(1, 8); std::atomic<int> busy {0}; std::atomic<bool> go {false}; long sum = 0;
    vp::context(vp::fmt("backlog of %d on %d workers", n, workers)); vp::signature(vp::S().context);
    monitor_t m(n);
    dog.guard("long queue", [&]
    {
        mara::thread_pool_t pool(workers); std::vector<std::future<int>> held; std::vector<std::future<int>> f;
        for (int i = 0; i < workers; ++i) held.push_back(pool.enqueue([&] { busy++; while (! go) std::this_thread::yield(); return 0; }));
        while (busy < workers) std::this_thread::yield();
        for (int i = 0; i < n; ++i) f.push_back(pool.enqueue([&m] (int id) { m.enter(id); m.leave(); return id; }, i));
        go = true;
        for (auto& x : held) x.get();
        bool right = true; for (int i = 0; i < n; ++i) { int v = f[i].get(); right = right && v == i; sum += v; dog.ticks++; }
        VP_CHECK(right, "result-delivered", "results of %d queued tasks add up to %ld", n, sum);
    });
    check_all_once(m, "after a long queue");
    vp::observe("backlog", n);
}

// Tasks that submit further tasks; arguments are carried by value.
VP_SECTION("nested", 60, 800)
{
    inject_mode = index % 8;
    int workers = rng.range(1, 5), n = rng.range(1, 15), fan = rng.range(0, 4);
    vp::context(vp::fmt("nested workers=%d n=%d fan=%d", workers, n, fan));
    vp::signature(vp::fmt("nested workers=%d n=%d fan=%d", workers, n, fan));
    monitor_t m(n * (1 + fan));
    dog.guard("nested submission", [&]
    {
        mara::thread_pool_t pool(workers);
        std::vector<std::future<std::vector<std::shared_future<std::string>>>> outer;
        for (int i = 0; i < n; ++i)
        {
            outer.push_back(pool.enqueue([&, i] (std::string tag)
            {
                m.enter(i);
                std::vector<std::shared_future<std::string>> inner;
                for (int k = 0; k < fan; ++k)
                {
                    int id = n + i * fan + k;
                    std::string arg = tag + ":" + std::to_string(k) + std::string(40, 'x');
                    inner.push_back(pool.enqueue([&m, id] (std::string s) { m.enter(id); m.leave(); return s; }, arg).share());
                }
                m.leave();
                return inner;
            }, "t" + std::to_string(i)));
        }
        for (int i = 0; i < n; ++i)
        {
            auto inner = outer[i].get();
            for (int k = 0; k < fan; ++k)
            {
                VP_CHECK(inner[k].get() == "t" + std::to_string(i) + ":" + std::to_string(k) + std::string(40, 'x'), "result-delivered", "nested %d/%d", i, k);
                vp::observe("result");
            }
            dog.ticks++;
        }
    });
    check_all_once(m, "nested");
    vp::observe("task-run", m.runs.size());
    vp::observe("injected-delays", injected.exchange(0));
}

// Work handed to a pool that has no workers at the time (it was stopped) waits
// for the workers of the next restart; a single worker takes tasks in the order
// they were submitted.
VP_SECTION("submission-order", 100, 1500)
{
    inject_mode = index % 8;
    int before = rng.range(0, 12), stopped = rng.range(0, 12), after = rng.range(0, 12), rounds = rng.range(1, 3), total = rounds * (before + stopped + after);
    bool stop = rng.chance(0.7);
    auto sig = vp::fmt("order %d/%d/%d x %d stop=%d", before, stopped, after, rounds, stop); vp::context(sig); vp::signature(sig);
    monitor_t m(total); std::vector<int> order; std::vector<std::future<int>> futures; auto salt = rng.next(); int id = 0;
    dog.guard("submission order", [&]
    {
        mara::thread_pool_t pool(1);
        auto submit = [&] (int n) { for (int i = 0; i < n; ++i, ++id) { auto d = vp::mix(salt ^ id); futures.push_back(pool.enqueue([&m, &order, d, id] { m.enter(id); order.push_back(id); delay(d); m.leave(); return 2 * id; })); } };
        for (int r = 0; r < rounds; ++r)
        {
            submit(before);
            if (stop)
            {
                pool.stop_all();
                for (int i = 0; i < id; ++i) VP_CHECK(m.runs[i] == 1, "drained-by-stop", "task %d of %d accepted before the pool was stopped ran %d times", i, id, int(m.runs[i]));
                int first = id; submit(stopped);
                for (int i = first; i < id; ++i) VP_CHECK(m.runs[i] == 0, "ran-while-stopped", "task %d ran on a stopped pool", i);
                pool.restart(1); vp::observe("restart-with-backlog", stopped);
            }
            else submit(stopped);
            submit(after); dog.ticks++;
        }
        for (std::size_t i = 0; i < futures.size(); ++i) { VP_CHECK(futures[i].get() == int(2 * i), "result-delivered", "future %zu", i); dog.ticks++; }
    });
    check_all_once(m, "submission order");
    for (std::size_t i = 0; i < order.size(); ++i) VP_CHECK(order[i] == int(i), "submission-order", "the single worker took task %d in place %zu", order[i], i);
    vp::observe("task-run", total); vp::observe("in-order", total); vp::observe("injected-delays", injected.exchange(0));
}

VP_MAIN()
