// C21: the message-passing wrapper, on several ranks, against an MPI library that uses all the freedom the standard
// gives it: the calls below are interposed (profiling interface), so that non-blocking operations read and write
// their buffers as late as allowed, and wildcard receives match any eligible source.
#include <algorithm>
#include <set>
#include "vp.hpp"
#include "watchdog.hpp"
#include "core_mpi.hpp"
using vp::rng_t;

static vp::watchdog_t* dog = nullptr;
static rng_t local;                 // decisions of this rank's adversary
static bool adversary = false;
static int me = 0, ranks = 1;
static std::map<MPI_Comm, int> live_comms;
static long comm_made = 0, comm_freed = 0, requests_made = 0, requests_done = 0, deferred = 0, redirected = 0;
static bool infrastructure = false;

//-----------------------------------------------------------------------------
struct pending_t { MPI_Request request; char* buf; int count; bool is_send; };
static std::vector<pending_t> pending;      // created but not started
static std::set<MPI_Request> persistent;    // deferred operations, started or not
static std::set<MPI_Request> outstanding;

static void progress()
{
    auto now = std::move(pending); pending.clear();
    for (auto& p : now)
    {
        // the library may touch the buffer at any time until completion: do so here, where the sanitizer sees it
        if (p.is_send) { volatile char sum = 0; for (int i = 0; i < p.count; ++i) sum += p.buf[i]; }
        else for (int i = 0; i < p.count; ++i) p.buf[i] = '#';
        PMPI_Start(&p.request);
    }
}
static void finished(MPI_Request before)
{
    if (outstanding.erase(before)) requests_done++;
}
extern "C" int MPI_Isend(const void* buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm, MPI_Request* request)
{
    progress(); requests_made++;
    int e;
    if (adversary && local.chance(0.7))
    {
        e = PMPI_Send_init(buf, count, type, dest, tag, comm, request);
        pending.push_back({*request, (char*) buf, count, true}); persistent.insert(*request); deferred++;
    }
    else e = PMPI_Isend(buf, count, type, dest, tag, comm, request);
    outstanding.insert(*request);
    return e;
}
// any source with a message that matches; the message must then be the first of that source
static int choose(int source, int tag, MPI_Comm comm)
{
    if (source != MPI_ANY_SOURCE || ! adversary) return source;
    int n; PMPI_Comm_size(comm, &n);
    std::vector<int> can;
    for (int s = 0; s < n; ++s) { int flag = 0; MPI_Status st; PMPI_Iprobe(s, tag, comm, &flag, &st); if (flag) can.push_back(s); }
    if (can.empty()) return source;
    redirected++;
    return local.pick(can);
}
extern "C" int MPI_Irecv(void* buf, int count, MPI_Datatype type, int source, int tag, MPI_Comm comm, MPI_Request* request)
{
    progress(); requests_made++;
    source = choose(source, tag, comm);
    int e;
    if (adversary && source != MPI_ANY_SOURCE && local.chance(0.7))
    {
        e = PMPI_Recv_init(buf, count, type, source, tag, comm, request);
        pending.push_back({*request, (char*) buf, count, false}); persistent.insert(*request); deferred++;
    }
    else e = PMPI_Irecv(buf, count, type, source, tag, comm, request);
    outstanding.insert(*request);
    return e;
}
extern "C" int MPI_Recv(void* buf, int count, MPI_Datatype type, int source, int tag, MPI_Comm comm, MPI_Status* status)
{
    progress();
    return PMPI_Recv(buf, count, type, choose(source, tag, comm), tag, comm, status);
}
extern "C" int MPI_Send(const void* buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm)
{
    progress();
    return PMPI_Send(buf, count, type, dest, tag, comm);
}
extern "C" int MPI_Wait(MPI_Request* request, MPI_Status* status)
{
    progress();
    MPI_Request before = *request;
    int e = PMPI_Wait(request, status);
    finished(before);
    if (persistent.erase(before)) { PMPI_Request_free(request); *request = MPI_REQUEST_NULL; }
    return e;
}
extern "C" int MPI_Test(MPI_Request* request, int* flag, MPI_Status* status)
{
    progress();
    MPI_Request before = *request;
    int e = PMPI_Test(request, flag, status);
    if (*flag) { finished(before); if (persistent.erase(before)) { PMPI_Request_free(request); *request = MPI_REQUEST_NULL; } }
    return e;
}
extern "C" int MPI_Request_get_status(MPI_Request request, int* flag, MPI_Status* status)
{
    progress();
    return PMPI_Request_get_status(request, flag, status);
}
extern "C" int MPI_Cancel(MPI_Request* request)
{
    progress();
    return PMPI_Cancel(request);
}
extern "C" int MPI_Request_free(MPI_Request* request)
{
    progress();
    finished(*request); persistent.erase(*request);
    return PMPI_Request_free(request);
}
extern "C" int MPI_Iprobe(int source, int tag, MPI_Comm comm, int* flag, MPI_Status* status)
{
    progress();
    return PMPI_Iprobe(source, tag, comm, flag, status);
}
extern "C" int MPI_Probe(int source, int tag, MPI_Comm comm, MPI_Status* status)
{
    progress();
    return PMPI_Probe(source, tag, comm, status);
}
extern "C" int MPI_Comm_dup(MPI_Comm comm, MPI_Comm* made)
{
    progress();
    int e = PMPI_Comm_dup(comm, made);
    comm_made++; live_comms[*made]++;
    return e;
}
extern "C" int MPI_Comm_free(MPI_Comm* comm)
{
    progress();
    comm_freed++;
    VP_CHECK(live_comms.count(*comm) && live_comms[*comm] == 1, "release/communicator", "a communicator that is not live was freed");
    live_comms.erase(*comm);
    return PMPI_Comm_free(comm);
}

//-----------------------------------------------------------------------------
struct case_t
{
    rng_t& rng; long index; bool good = false;
    case_t(rng_t& rng, long index) : rng(rng), index(index)
    {
        local.state = vp::mix(rng.state ^ (std::uint64_t(me + 1) * 1000003));
        adversary = rng.chance(0.7);
        dog->what = "message passing"; dog->ticks++; dog->armed = true;
        PMPI_Barrier(MPI_COMM_WORLD);
    }
    ~case_t()
    {
        progress();
        int bad = vp::S().violations, most = 0;
        PMPI_Allreduce(&bad, &most, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
        dog->armed = false; dog->ticks++;
        VP_CHECK(live_comms.empty(), "release/leak", "%zu communicators are still open", live_comms.size());
        VP_CHECK(outstanding.empty(), "release/request", "%zu requests were neither completed nor released", outstanding.size());
        live_comms.clear(); outstanding.clear();
        vp::observe(adversary ? "adversarial" : "plain");
        if (most > 10) { vp::finish(); std::fflush(nullptr); PMPI_Barrier(MPI_COMM_WORLD); _exit(0); }
        vp::observe("deferred", deferred); vp::observe("redirected", redirected); deferred = redirected = 0;
        if (me == 0 && index % 4 == 0) vp::signature(vp::S().context);
    }
};
static std::string payload(int id, std::size_t size)
{
    std::string s(size, 0); rng_t r {vp::mix(std::uint64_t(id) * 77 + 5)};
    for (auto& c : s) c = char(r.next() & 0xff);
    return s;
}
static std::size_t any_size(rng_t& r)
{
    switch (r.range(0, 7))
    {
        case 0: return 0;
        case 1: return 1;
        case 2: return r.range(14, 17);
        case 3: return r.range(2, 15);
        case 4: return r.range(100, 5000);
        case 5: return r.range(3900, 4200);
        case 6: return r.chance(0.3) ? r.range(60000, 300000) : r.range(16, 64);
        default: return r.range(0, 64);
    }
}
struct message_t { int id, src, dst, tag; std::size_t size; int how; std::string data() const { return payload(id, size); } };
struct blob_t { double a; int b; char c[5]; };
static blob_t blob(int id) { blob_t x; std::memset(&x, 0, sizeof x); x.a = id * 1.25; x.b = -id; std::snprintf(x.c, 5, "%d", id % 1000); return x; }
static std::string bytes(const blob_t& b) { return std::string((const char*) &b, sizeof b); }

//-----------------------------------------------------------------------------
VP_SECTION("one after another", 250, 6000)
{
    case_t scope(rng, index);
    auto comm = mpi::comm_world();
    int n = rng.range(1, 12);
    vp::context(vp::fmt("%d messages on %d ranks, case %ld", n, ranks, index));
    for (int i = 0; i < n; ++i)
    {
        message_t m {i, int(rng.range(0, ranks - 1)), int(rng.range(0, ranks - 1)), int(rng.range(0, 5)), any_size(rng), int(rng.range(0, 5))};
        int receive = rng.range(0, 6);
        bool typed = rng.chance(0.2);
        if (m.src == m.dst && ! typed) m.how |= 1;
        std::vector<mpi::Request> held;
        std::string data = typed ? bytes(blob(i)) : m.data();
        if (me == m.src)
        {
            bool blocking = ! (m.how & 1) && m.src != m.dst;
            if (m.tag == 0 && local.chance(0.5)) // the tag left out is zero
            {
                if (typed && blocking) comm.send(blob(i), m.dst);
                else if (typed) held.push_back(comm.isend(blob(i), m.dst));
                else if (blocking) comm.send(data, m.dst);
                else held.push_back(comm.isend(data, m.dst));
                vp::observe("tag-left-out");
            }
            else if (typed && blocking) comm.send(blob(i), m.dst, m.tag);
            else if (typed) held.push_back(comm.isend(blob(i), m.dst, m.tag));
            else if (blocking) comm.send(data, m.dst, m.tag);
            else held.push_back(comm.isend(data, m.dst, m.tag));
            if (! held.empty() && local.chance(0.5)) { auto moved = std::move(held.back()); held.clear(); held.push_back(std::move(moved)); }
        }
        if (me == m.dst)
        {
            std::string got; int src = m.src, tag = m.tag;
            if (receive & 1) src = mpi::any_source;
            if (receive & 2) tag = mpi::any_tag;
            if (receive >= 4)
            {
                auto st = comm.probe(src, tag);
                VP_CHECK(! st.is_null() && st.source() == m.src && st.tag() == m.tag && st.count() == int(data.size()), "probe", "probed source %d tag %d size %d, sent %d %d %zu", st.source(), st.tag(), st.count(), m.src, m.tag, data.size());
            }
            if (typed && local.chance(0.5))
            {
                // every other way of receiving a value
                if (tag == 0 && local.chance(0.5)) got = bytes(comm.recv<blob_t>(src));
                else if (local.chance(0.5)) got = bytes(comm.recv<blob_t>(src, tag));
                else { mpi::Request r; while (true) { r = comm.irecv(src, tag); if (! r.is_null()) break; } got = bytes(r.get<blob_t>()); }
                vp::observe("typed");
            }
            else if (receive % 3 == 0)
            {
                mpi::Request r; long polls = 0;
                while (true) { r = comm.irecv(src, tag); if (! r.is_null()) break; ++polls; }
                if (local.chance(0.5)) { mpi::Request other; other = std::move(r); VP_CHECK(r.is_null(), "request/moved", "a moved request still holds an operation"); got = other.get(); VP_CHECK(other.is_null(), "request/done", "a completed request is not null"); }
                else { if (local.chance(0.5)) while (! r.is_ready()) {} else if (local.chance(0.5)) r.wait(); got = r.get(); VP_CHECK(r.get() == got, "request/again", "the content changed"); }
                vp::observe("irecv"); if (polls) vp::observe("irecv-polled");
            }
            else { got = tag == 0 && local.chance(0.5) ? comm.recv(src) : comm.recv(src, tag); vp::observe("recv"); }
            VP_CHECK(got == data, "content", "message %d from %d to %d tag %d: %zu bytes sent, %zu received%s", i, m.src, m.dst, m.tag, data.size(), got.size(), got.size() == data.size() ? ", altered" : "");
            vp::observe(data.empty() ? "empty" : data.size() < 16 ? "short" : data.size() < 4000 ? "medium" : "long");
        }
        for (auto& r : held) { if (local.chance(0.5)) r.wait(); else r.get(); VP_CHECK(r.is_null() && r.is_ready(), "request/done", "a completed request is not null"); }
        if (rng.chance(0.3)) comm.barrier();
        progress(); PMPI_Barrier(MPI_COMM_WORLD); // one at a time
    }
    PMPI_Barrier(MPI_COMM_WORLD);
    auto left = comm.iprobe();
    VP_CHECK(left.is_null() && left.count() == 0 && left.source() == -1 && left.tag() == -1, "exactly-once", "a message is left over (source %d tag %d size %d)", left.source(), left.tag(), left.count());
    VP_CHECK(comm.irecv().is_null(), "exactly-once", "received from an empty queue");
}

//-----------------------------------------------------------------------------
VP_SECTION("many in flight", 250, 6000)
{
    case_t scope(rng, index);
    auto comm = mpi::comm_world();
    int n = rng.range(2, 40), tags = rng.range(1, 4), policy = rng.range(0, 4);
    std::vector<message_t> all; std::size_t total = 0;
    for (int i = 0; i < n; ++i) { message_t m {i, int(rng.range(0, ranks - 1)), int(rng.range(0, ranks - 1)), int(rng.range(0, tags - 1)), any_size(rng), 0}; all.push_back(m); total += m.size; }
    vp::context(vp::fmt("%d messages, %d tags, %zu bytes, policy %d, case %ld", n, tags, total, policy, index));

    std::vector<mpi::Request> sends;
    for (auto& m : all) if (m.src == me)
    {
        sends.push_back(comm.isend(m.data(), m.dst, m.tag));
        if (local.chance(0.3) && sends.size() > 1) std::swap(sends[local.range(0, sends.size() - 1)], sends.back());
    }
    // what this rank must get, per source and tag, in order
    std::map<std::pair<int, int>, std::vector<message_t>> queues; int expect = 0;
    for (auto& m : all) if (m.dst == me) { queues[{m.src, m.tag}].push_back(m); ++expect; }
    auto take = [&] (int src, int tag, const std::string& got)
    {
        auto& q = queues[{src, tag}];
        bool ok = ! q.empty() && q.front().data() == got;
        VP_CHECK(ok, "order", "from %d tag %d: %zu bytes received, %s", src, tag, got.size(), q.empty() ? "nothing expected" : vp::fmt("%zu expected", q.front().size).c_str());
        if (! q.empty()) q.erase(q.begin());
        vp::observe(got.empty() ? "empty" : got.size() < 16 ? "short" : got.size() < 4000 ? "medium" : "long");
    };
    if (policy == 0)        // in the order of the plan
        { for (auto& m : all) if (m.dst == me) take(m.src, m.tag, comm.recv(m.src, m.tag)); vp::observe("planned"); }
    else if (policy == 1)   // any order of sources and tags
    {
        std::vector<std::pair<int, int>> order; for (auto& q : queues) for (auto& m : q.second) order.push_back({m.src, m.tag});
        for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[local.range(0, i - 1)]);
        for (auto o : order) take(o.first, o.second, comm.recv(o.first, o.second));
        vp::observe("shuffled");
    }
    else if (policy == 2)   // probe, then receive what was probed
    {
        for (int i = 0; i < expect; ++i) { auto s = comm.probe(); take(s.source(), s.tag(), comm.recv(s.source(), s.tag())); }
        vp::observe("probed");
    }
    else
    {
        // wildcard receives: every message exactly once, complete
        std::vector<std::string> got, want; for (auto& m : all) if (m.dst == me) want.push_back(m.data());
        std::vector<mpi::Request> receiving;
        for (int i = 0; i < expect; ++i)
        {
            if (policy == 3) got.push_back(comm.recv());
            else
            {
                while (true) { auto r = comm.irecv(); if (! r.is_null()) { receiving.push_back(std::move(r)); break; } }
                if (receiving.size() > 1 && local.chance(0.3)) std::swap(receiving[0], receiving.back());
                if (local.chance(0.2)) { got.push_back(receiving.back().get()); receiving.pop_back(); }
            }
        }
        for (auto& r : receiving) got.push_back(r.get());
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        bool same = got == want;
        VP_CHECK(same, "wildcard", "%zu messages received, %zu sent, contents differ", got.size(), want.size());
        vp::observe(policy == 3 ? "wildcard" : "wildcard-irecv");
        queues.clear();
    }
    for (auto& q : queues) VP_CHECK(q.second.empty(), "exactly-once", "%zu messages from %d tag %d are missing", q.second.size(), q.first.first, q.first.second);
    for (auto& r : sends) r.wait();
    PMPI_Barrier(MPI_COMM_WORLD);
    VP_CHECK(comm.iprobe().is_null(), "exactly-once", "a message is left over");
}

//-----------------------------------------------------------------------------
template<typename T> static T value(rng_t& r);
template<> int value(rng_t& r) { return int(r.next()); }
template<> double value(rng_t& r) { return r.uniform(-1, 1); }
template<> char value(rng_t& r) { return char(r.next()); }
template<> blob_t value(rng_t& r) { return blob(r.range(0, 100000)); }
template<typename T> static bool equal(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
template<typename T> static bool equal(const std::vector<T>& a, const std::vector<T>& b) { bool ok = a.size() == b.size(); for (std::size_t i = 0; ok && i < a.size(); ++i) ok = equal(a[i], b[i]); return ok; }

template<typename T> static void collective(rng_t& rng, const mpi::Communicator& comm, const char* name)
{
    int root = rng.range(0, ranks - 1);
    // every rank draws everything, so each knows what every other one holds
    std::vector<T> each; std::vector<std::vector<T>> table, ragged;
    for (int i = 0; i < ranks; ++i) each.push_back(value<T>(rng));
    for (int i = 0; i < ranks; ++i) { table.emplace_back(); for (int j = 0; j < ranks; ++j) table[i].push_back(value<T>(rng)); }
    bool all_empty = rng.chance(0.1);
    for (int i = 0; i < ranks; ++i) { ragged.emplace_back(); int n = all_empty || rng.chance(0.3) ? 0 : rng.range(1, rng.chance(0.1) ? 20000 : 20); for (int j = 0; j < n; ++j) ragged[i].push_back(value<T>(rng)); }

    switch (rng.range(0, 5))
    {
        case 0: { T x = each[me]; comm.bcast(root, x); VP_CHECK(equal(x, each[root]), "collective/bcast", "%s from %d", name, root); vp::observe("bcast"); break; }
        case 1: { T x = comm.scatter(root, me == root ? each : local.chance(0.5) ? std::vector<T>() : std::vector<T>(2)); VP_CHECK(equal(x, each[me]), "collective/scatter", "%s from %d", name, root); vp::observe("scatter"); break; }
        case 2: { auto x = comm.scatter(root, me == root ? ragged : std::vector<std::vector<T>>()); VP_CHECK(equal(x, ragged[me]), "collective/scatterv", "%s from %d: %zu of %zu items", name, root, x.size(), ragged[me].size()); vp::observe(ragged[me].empty() ? "scatterv-empty" : "scatterv"); break; }
        case 3: { auto x = comm.all_to_all(table[me]); bool ok = int(x.size()) == ranks; for (int j = 0; ok && j < ranks; ++j) ok = equal(x[j], table[j][me]); VP_CHECK(ok, "collective/all-to-all", "%s", name); vp::observe("all-to-all"); break; }
        case 4: { auto x = comm.all_gather(each[me]); VP_CHECK(equal(x, each), "collective/all-gather", "%s", name); vp::observe("all-gather"); break; }
        case 5: { auto x = comm.all_gather(ragged[me]); bool ok = int(x.size()) == ranks; for (int j = 0; ok && j < ranks; ++j) ok = equal(x[j], ragged[j]); VP_CHECK(ok, "collective/all-gatherv", "%s", name); vp::observe(ragged[me].empty() ? "all-gatherv-empty" : "all-gatherv"); break; }
    }
}
VP_SECTION("collectives", 400, 10000)
{
    case_t scope(rng, index);
    auto comm = mpi::comm_world();
    vp::context(vp::fmt("collectives on %d ranks, case %ld", ranks, index));
    for (int k = 0; k < 6; ++k) switch (rng.range(0, 3))
    {
        case 0: collective<int>(rng, comm, "int"); break;
        case 1: collective<double>(rng, comm, "double"); break;
        case 2: collective<char>(rng, comm, "char"); break;
        case 3: collective<blob_t>(rng, comm, "struct"); break;
    }
    // wrong sizes are refused before anything is sent
    int root = rng.range(0, ranks - 1), wrong = rng.chance(0.5) ? ranks + 1 : ranks - 1;
    if (me == root)
    {
        bool a = vp::throws([&] { comm.scatter(root, std::vector<int>(wrong)); }), b = vp::throws([&] { comm.scatter(root, std::vector<std::vector<int>>(wrong)); });
        VP_CHECK(a && b, "collective/size", "scatter accepted %d items for %d ranks", wrong, ranks);
    }
    bool refused = vp::throws([&] { comm.all_to_all(std::vector<double>(wrong)); });
    VP_CHECK(refused, "collective/size", "all_to_all accepted %d items for %d ranks", wrong, ranks);
    vp::observe("wrong-size");
    // so is a message of another size
    int to = (me + 1) % ranks, from = (me + ranks - 1) % ranks;
    auto r = comm.isend(std::string(rng.chance(0.5) ? rng.range(1, 7) : rng.range(9, 40), 'x'), to, 3);
    if (rng.chance(0.5)) { bool t = vp::throws([&] { comm.recv<double>(from, 3); }); VP_CHECK(t, "content/type", "a message of another size was taken as a value"); }
    else { mpi::Request q; while (q.is_null()) q = comm.irecv(from, 3); bool t = vp::throws([&] { q.get<double>(); }); VP_CHECK(t, "content/type", "a message of another size was taken as a value"); q.wait(); }
    r.wait();
    vp::observe("wrong-type");
}

//-----------------------------------------------------------------------------
VP_SECTION("handles", 250, 6000)
{
    case_t scope(rng, index);
    vp::context(vp::fmt("handles, case %ld", index));
    {
        mpi::Communicator none;
        VP_CHECK(none.is_null() && none.size() == 0 && none.rank() == -1, "handle/null", "size %d rank %d of no communicator", none.size(), none.rank());
        std::vector<mpi::Communicator> held(3); held.reserve(16);
        std::vector<bool> open(3, false);
        for (int k = 0; k < 12; ++k)
        {
            int a = rng.range(0, held.size() - 1), b = rng.range(0, held.size() - 1);
            switch (rng.range(0, 7))
            {
                case 0: held[a] = mpi::comm_world(); open[a] = true; break;
                case 1: held[a] = held[b]; open[a] = open[b]; if (a == b) vp::observe("self-assigned"); break;
                case 2: if (a != b) { held[a] = std::move(held[b]); open[a] = open[b]; open[b] = false; } break;
                case 3: held[a] = mpi::Communicator(); open[a] = false; break;
                case 4: held[a].close(); open[a] = false; break;
                case 5: held.push_back(held[a]); open.push_back(open[a]); break;
                case 6: held.push_back(std::move(held[a])); open.push_back(open[a]); open[a] = false; break;
                case 7: if (held.size() > 1) { held.pop_back(); open.pop_back(); } break;
            }
            for (std::size_t i = 0; i < held.size(); ++i)
                VP_CHECK(held[i].is_null() == ! open[i] && held[i].size() == (open[i] ? ranks : 0) && held[i].rank() == (open[i] ? me : -1), "handle/state", "communicator %zu: open %d, size %d, rank %d", i, int(open[i]), held[i].size(), held[i].rank());
            std::size_t live = std::count(open.begin(), open.end(), true);
            VP_CHECK(live_comms.size() == live, "release/communicator", "%zu communicators live, %zu held", live_comms.size(), live);
        }
        vp::observe("handles");
        // a copy is another context: its messages stay apart
        auto c1 = mpi::comm_world(); auto c2 = c1; auto c3 = std::move(c1);
        int to = (me + 1) % ranks, from = (me + ranks - 1) % ranks, tag = rng.range(0, 3);
        auto first = c3.isend(std::string("on three"), to, tag); auto second = c2.isend(std::string("a longer message on two"), to, tag);
        auto x = c2.recv(from, tag), y = c3.recv(rng.chance(0.5) ? from : mpi::any_source, tag);
        VP_CHECK(x == "a longer message on two" && y == "on three", "handle/context", "messages crossed communicators: '%s', '%s'", x.c_str(), y.c_str());
        first.wait(); second.wait();
        VP_CHECK(c1.is_null(), "handle/moved", "a moved communicator is not null");
        vp::observe("contexts");
    }
    {
        // requests: overwritten, moved and dropped ones are released once
        auto comm = mpi::comm_world();
        int to = (me + 1) % ranks, from = (me + ranks - 1) % ranks;
        std::size_t size = any_size(rng);
        auto s = comm.isend(payload(7, size), to, 1);
        mpi::Request r; while (r.is_null()) r = comm.irecv(from, 1);
        mpi::Request q(std::move(r));
        VP_CHECK(r.is_null() && ! q.is_null(), "request/moved", "a moved request lost its operation");
        if (! q.is_null()) { auto got = q.get(); VP_CHECK(got == payload(7, size), "content", "a moved request lost its message (%zu bytes)", size); }
        s.wait(); s.wait();
        mpi::Request nothing; VP_CHECK(nothing.is_null() && nothing.is_ready() && nothing.get().empty(), "request/null", "a null request is not complete"); nothing.cancel();
        PMPI_Barrier(MPI_COMM_WORLD);
        // a receive that is dropped leaves its memory alone afterwards
        auto t = comm.isend(payload(8, size), to, 2);
        { mpi::Request d; while (d.is_null()) d = comm.irecv(from, 2); if (rng.chance(0.5)) d.cancel(); else if (rng.chance(0.5)) d = mpi::Request(); VP_CHECK(true, "-", "-"); }
        std::string fill(size, 'f');
        // if the receive was really cancelled the message is still there
        for (int k = 0; k < 50; ++k) { auto st = comm.iprobe(from, 2); if (! st.is_null()) { VP_CHECK(comm.recv(from, 2) == payload(8, size), "content", "a message altered by a cancelled receive"); vp::observe("cancelled"); break; } }
        t.wait();
        VP_CHECK(fill == std::string(size, 'f'), "request/dropped", "a dropped receive wrote into other memory");
        PMPI_Barrier(MPI_COMM_WORLD);
        vp::observe("dropped");
    }
    bool out = &mpi::cout_master() == &std::cout;
    VP_CHECK(out == (me == 0) && mpi::is_master() == (me == 0), "master", "rank %d", me);
}

int main(int argc, const char* argv[])
{
    int result;
    {
        mpi::Session session;
        PMPI_Comm_rank(MPI_COMM_WORLD, &me); PMPI_Comm_size(MPI_COMM_WORLD, &ranks);
        vp::watchdog_t d(40); dog = &d;
        result = vp::main(argc, argv);
        VP_CHECK(comm_made == comm_freed, "release/total", "%ld communicators made, %ld freed", comm_made, comm_freed);
    }
    return result;
}
