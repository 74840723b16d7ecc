// C08: HDF5 objects are opened and closed exactly once; opening modes do what they say.
//
// Monitors: the library's own count of live identifiers of every kind (see snapshot_t), compared before and after each history; every
// H5?close call (interposed) must succeed, so an identifier is never closed twice; and objects still owned must keep working.
#include <memory>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "vp.hpp"
#include "core_hdf5.hpp"
#include "app_serialize.hpp"

using vp::rng_t;

//-----------------------------------------------------------------------------
static long bad_close, good_close;
static bool inject;      // when set, the next library calls may fail
static int inject_after; // number of calls until the failure
static long injected;

template<typename F> static F next_symbol(const char* name) { auto p = reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); if (! p) std::abort(); return p; }
static herr_t closing(const char* name, herr_t rc) { if (rc < 0) { bad_close++; vp::context(std::string(name) + " failed"); } else good_close++; return rc; }

#define CLOSE(NAME) extern "C" herr_t NAME(hid_t id) { static auto real = next_symbol<herr_t(*)(hid_t)>(#NAME); return closing(#NAME, real(id)); }
CLOSE(H5Fclose) CLOSE(H5Gclose) CLOSE(H5Dclose) CLOSE(H5Tclose) CLOSE(H5Sclose) CLOSE(H5Pclose) CLOSE(H5Eclose_stack) CLOSE(H5Oclose)

static bool fail_now()
{
    if (! inject || --inject_after > 0) return false;
    inject = false;
    injected++;
    H5Epush2(H5E_DEFAULT, __FILE__, __func__, __LINE__, H5E_ERR_CLS, H5E_IO, H5E_WRITEERROR, "injected failure");
    return true;
}
#define FAULT(RET, NAME, PARAMS, ARGS) extern "C" RET NAME PARAMS { static auto real = next_symbol<RET(*) PARAMS>(#NAME); if (fail_now()) return RET(-1); return real ARGS; }
FAULT(hid_t, H5Dopen2, (hid_t a, const char* b, hid_t c), (a, b, c))
FAULT(hid_t, H5Gopen2, (hid_t a, const char* b, hid_t c), (a, b, c))
FAULT(hid_t, H5Dcreate2, (hid_t a, const char* b, hid_t c, hid_t d, hid_t e, hid_t f, hid_t g), (a, b, c, d, e, f, g))
FAULT(hid_t, H5Gcreate2, (hid_t a, const char* b, hid_t c, hid_t d, hid_t e), (a, b, c, d, e))
FAULT(herr_t, H5Dread, (hid_t a, hid_t b, hid_t c, hid_t d, hid_t e, void* f), (a, b, c, d, e, f))
FAULT(herr_t, H5Dwrite, (hid_t a, hid_t b, hid_t c, hid_t d, hid_t e, const void* f), (a, b, c, d, e, f))
FAULT(hid_t, H5Dget_space, (hid_t a), (a))
FAULT(hid_t, H5Dget_type, (hid_t a), (a))
FAULT(hid_t, H5Dget_create_plist, (hid_t a), (a))
FAULT(herr_t, H5Dset_extent, (hid_t a, const hsize_t* b), (a, b))

//-----------------------------------------------------------------------------
// What is open: objects of files as the library counts them; data types, data spaces, property lists and error stacks by asking for every identifier
// given out since the snapshot (they are numbered in sequence) whether it is still valid.
struct snapshot_t { long files, groups, datasets, attributes; hid_t datatype, dataspace, plist, stack; };
static snapshot_t live()
{
    snapshot_t s; s.files = H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_FILE); s.groups = H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_GROUP); s.datasets = H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_DATASET); s.attributes = H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ATTR);
    bool was = inject; inject = false; s.datatype = H5Tcopy(H5T_NATIVE_INT); s.dataspace = H5Screate(H5S_NULL); s.plist = H5Pcreate(H5P_DATASET_CREATE); s.stack = H5Ecreate_stack(); inject = was;
    auto good = good_close; H5Tclose(s.datatype); H5Sclose(s.dataspace); H5Pclose(s.plist); H5Eclose_stack(s.stack); good_close = good;
    return s;
}
static long still_valid(hid_t from, hid_t to) { if (to < from) { std::fprintf(stderr, "identifiers are not numbered in sequence\n"); std::abort(); } long n = 0; for (hid_t i = from + 1; i < to; ++i) n += H5Iis_valid(i) > 0; return n; }
static std::string work() { static std::string w = std::getenv("VP_WORK") ? std::getenv("VP_WORK") : "/tmp"; return w; }
static void warm_up()
{
    static bool done = false;
    if (done) return;
    done = true;
    H5open();
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
}
static void compare(const snapshot_t& a, const char* where)
{
    auto b = live();
    auto judge = [where] (const char* kind, long before, long after) { VP_CHECK(after == before, std::string("leak/") + kind, "%s: %ld %s identifiers open before, %ld after every owner is gone", where, before, kind, after); };
    judge("file", a.files, b.files); judge("group", a.groups, b.groups); judge("dataset", a.datasets, b.datasets); judge("attribute", a.attributes, b.attributes);
    judge("datatype", 0, still_valid(a.datatype, b.datatype)); judge("dataspace", 0, still_valid(a.dataspace, b.dataspace)); judge("property list", 0, still_valid(a.plist, b.plist)); judge("error stack", 0, still_valid(a.stack, b.stack));
    vp::observe("identifiers-scanned", (b.datatype - a.datatype) + (b.dataspace - a.dataspace) + (b.plist - a.plist));
    VP_CHECK(bad_close == 0, "double-close", "%s: a close call failed (%s)", where, vp::S().context.c_str());
    bad_close = 0;
    vp::observe("identifiers-closed", good_close);
    good_close = 0;
}
// the monitor itself sees what is left open
VP_SECTION("monitor", 1, 1)
{
    warm_up(); (void) rng; (void) index; auto a = live(); hid_t t = H5Tcopy(H5T_NATIVE_INT), s = H5Screate(H5S_NULL), p = H5Pcreate(H5P_FILE_ACCESS), e = H5Ecreate_stack(); auto path = work() + "/c08s-" + std::to_string(getpid()) + ".h5"; hid_t f = H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT), g = H5Gopen2(f, "/", H5P_DEFAULT); auto b = live();
    bool sees = still_valid(a.datatype, b.datatype) == 1 && still_valid(a.dataspace, b.dataspace) == 1 && still_valid(a.plist, b.plist) == 1 && still_valid(a.stack, b.stack) == 1 && b.files == a.files + 1 && b.groups == a.groups + 1;
    if (! sees) { std::fprintf(stderr, "the monitor does not see open identifiers\n"); std::_Exit(3); }
    H5Tclose(t); H5Sclose(s); H5Pclose(p); H5Eclose_stack(e); H5Gclose(g); H5Fclose(f); unlink(path.c_str()); compare(a, "monitor"); vp::observe("monitor-tested");
}

//-----------------------------------------------------------------------------
VP_SECTION("handle histories", 1500, 30000)
{
    warm_up();
    auto base = work() + "/c08-" + std::to_string(getpid());
    auto before = live();
    std::string sig;
    {
        std::vector<std::unique_ptr<h5::File>> files;
        std::vector<std::unique_ptr<h5::Group>> groups;
        std::vector<std::unique_ptr<h5::Dataset>> sets;
        std::vector<std::unique_ptr<h5::Datatype>> types;
        std::vector<std::unique_ptr<h5::Dataspace>> spaces;
        std::vector<std::unique_ptr<h5::PropertyList>> lists;
        std::vector<char> closed_set, closed_group; // handles explicitly closed
        int nfiles = 0;
        bool faults = rng.chance(0.3);

        auto pick = [&] (auto& v) -> auto& { return *v[rng.next() % v.size()]; };
        auto location = [&] (auto&& use) { if (! groups.empty() && rng.chance(0.6)) use(pick(groups)); else if (! files.empty()) use(pick(files)); };

        for (long s = rng.range(5, 80); s > 0; --s)
        {
            if (faults && rng.chance(0.4)) { inject = true; inject_after = int(rng.range(1, 4)); }
            int op = int(rng.range(0, 31));
            sig += char('A' + op);
            // now and then the name of an object of another kind, or one inside a group
            auto nm = [&] (char kind, int top) { auto n = std::string(1, rng.chance(0.15) ? "gdv"[rng.range(0, 2)] : kind) + std::to_string(rng.range(0, top)); return rng.chance(0.06) ? "g" + std::to_string(rng.range(0, 3)) + "/" + n : n; };
            try
            {
                switch (op)
                {
                case 0: files.push_back(std::make_unique<h5::File>(base + "-" + std::to_string(nfiles++) + ".h5", "w")); break;
                case 1: location([&] (auto& l) { groups.push_back(std::make_unique<h5::Group>(l.require_group(nm('g', 3)))); }); break;
                case 2: location([&] (auto& l) { groups.push_back(std::make_unique<h5::Group>(l.open_group(nm('g', 5)))); }); break;
                case 3: location([&] (auto& l) { sets.push_back(std::make_unique<h5::Dataset>(l.require_dataset(nm('d', 3), h5::make_datatype_for(double()), h5::Dataspace{3}))); }); break;
                case 4: location([&] (auto& l) { sets.push_back(std::make_unique<h5::Dataset>(l.open_dataset(nm('d', 5)))); }); break;
                case 5: location([&] (auto& l) { l.write(nm('v', 5), rng.uniform(0, 1)); }); break;
                case 6: location([&] (auto& l) { l.template read<double>(nm('v', 7)); }); break;
                case 7: location([&] (auto& l) { l.template read<int>(nm('v', 7)); }); break;
                case 8: location([&] (auto& l) { l.write(nm('v', 5), std::vector<int>(rng.range(0, 4))); }); break;
                case 30: location([&] (auto& l) { std::size_t n = 0; for (auto name : l) { (void) name; ++n; if (rng.chance(0.1)) break; } (void) l.size(); }); break;
                case 31: location([&] (auto& l) { auto g = l[nm('g', 3)]; if (rng.chance(0.5)) g.write(nm('v', 5), 1); else groups.push_back(std::make_unique<h5::Group>(std::move(g))); }); break;
                case 9: if (! sets.empty()) pick(sets).write(std::vector<double>(rng.range(2, 3), 1.0)); break;
                case 10: if (! sets.empty()) pick(sets).read<std::vector<double>>(); break;
                case 11: if (! sets.empty()) spaces.push_back(std::make_unique<h5::Dataspace>(pick(sets).get_space())); break;
                case 12: if (! sets.empty()) types.push_back(std::make_unique<h5::Datatype>(pick(sets).get_type())); break;
                case 13: if (! sets.empty()) lists.push_back(std::make_unique<h5::PropertyList>(pick(sets).get_creation_plist())); break;
                case 14: types.push_back(std::make_unique<h5::Datatype>(rng.chance(0.5) ? h5::Datatype::native_int() : h5::Datatype::native_double().as_array(2))); break;
                case 15: spaces.push_back(std::make_unique<h5::Dataspace>(rng.chance(0.5) ? h5::Dataspace::scalar() : h5::Dataspace::unlimited(rng.range(0, 3), 2))); break;
                // moves and reassignments
                case 16: if (files.size() > 1) { auto& a = pick(files); auto& b = pick(files); if (&a != &b) a = std::move(b); vp::observe("move-assign:file"); } break;
                case 17: if (groups.size() > 1) { auto& a = pick(groups); auto& b = pick(groups); if (&a != &b) a = std::move(b); vp::observe("move-assign:group"); } break;
                case 18: if (sets.size() > 1) { auto& a = pick(sets); auto& b = pick(sets); if (&a != &b) a = std::move(b); vp::observe("move-assign:dataset"); } break;
                case 19: if (! types.empty()) { pick(types) = pick(types); vp::observe("copy-assign:datatype"); } break;
                case 20: if (! spaces.empty()) { pick(spaces) = pick(spaces); vp::observe("copy-assign:dataspace"); } break;
                case 21: if (! groups.empty()) { auto g = h5::Group(std::move(pick(groups))); groups.push_back(std::make_unique<h5::Group>(std::move(g))); } break;
                case 22: if (! sets.empty()) { auto d = h5::Dataset(std::move(pick(sets))); sets.push_back(std::make_unique<h5::Dataset>(std::move(d))); } break;
                case 23: if (! types.empty()) { auto t = h5::Datatype(pick(types)); types.push_back(std::make_unique<h5::Datatype>(std::move(t))); } break;
                case 24: if (! lists.empty()) { auto t = h5::PropertyList(pick(lists)); lists.push_back(std::make_unique<h5::PropertyList>(std::move(t))); } break;
                case 25: if (! spaces.empty()) { spaces.push_back(std::make_unique<h5::Dataspace>(pick(spaces))); } break;
                // explicit close, possibly followed by scope exit
                case 26:
                    switch (rng.range(0, 5))
                    {
                        case 0: if (! files.empty()) { pick(files).close(); } break;
                        case 1: if (! groups.empty()) { pick(groups).close(); } break;
                        case 2: if (! sets.empty()) { pick(sets).close(); } break;
                        case 3: if (! types.empty()) { auto i = rng.next() % types.size(); types[i]->close(); types[i]->close(); types.erase(types.begin() + i); } break;
                        case 4: if (! spaces.empty()) { auto i = rng.next() % spaces.size(); spaces[i]->close(); spaces[i]->close(); spaces.erase(spaces.begin() + i); } break;
                        case 5: if (! lists.empty()) { auto i = rng.next() % lists.size(); lists[i]->close(); lists[i]->close(); lists.erase(lists.begin() + i); } break;
                    }
                    vp::observe("explicit-close");
                    break;
                // owners go away
                case 27: if (! groups.empty()) groups.erase(groups.begin() + rng.next() % groups.size()); break;
                case 28: if (! sets.empty()) sets.erase(sets.begin() + rng.next() % sets.size()); break;
                case 29: if (! files.empty() && rng.chance(0.4)) files.erase(files.begin() + rng.next() % files.size()); break;
                }
                vp::observe("operation");
            }
            catch (const std::exception&) { vp::observe(injected ? "injected-failure" : "refused"); injected = 0; }
            inject = false;
            // what is still owned must be alive
            for (auto& f : files) if (f->is_open()) { bool ok = ! vp::throws([&] { f->intent(); f->size(); }); VP_CHECK(ok, "closed-while-owned", "an open file handle stopped working"); }
            for (auto& g : groups) if (g->is_open()) { bool ok = ! vp::throws([&] { g->open_group("."); }); VP_CHECK(ok, "closed-while-owned", "an open group handle stopped working"); }
            for (auto& t : types) { bool ok = ! vp::throws([&] { if (t->size() == 0) throw 1; }); VP_CHECK(ok, "closed-while-owned", "a data type stopped working"); }
            for (auto& p : spaces) { bool ok = ! vp::throws([&] { p->size(); }); VP_CHECK(ok, "closed-while-owned", "a data space stopped working"); }
            for (auto& l : lists) { bool ok = ! vp::throws([&] { *l == *l; }); VP_CHECK(ok, "closed-while-owned", "a property list stopped working"); }
            if (! VP_CHECK(bad_close == 0, "double-close", "operation %c: a close call failed (%s)", sig.back(), vp::S().context.c_str())) { bad_close = 0; break; }
        }
    }
    compare(before, "handle history");
    for (int i = 0; i < 100; ++i) unlink((base + "-" + std::to_string(i) + ".h5").c_str());
    vp::signature(sig);
}

//-----------------------------------------------------------------------------
static std::string bytes(const std::string& p)
{
    std::string s; int fd = ::open(p.c_str(), O_RDONLY); if (fd < 0) return "<missing>";
    char b[4096]; ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0) s.append(b, n);
    ::close(fd); return s;
}

VP_SECTION("opening modes", 600, 8000)
{
    warm_up();
    auto path = work() + "/c08m-" + std::to_string(getpid()) + ".h5";
    unlink(path.c_str());
    auto before = live();
    std::map<std::string, double> model; // contents
    bool exists = false;
    std::string sig;

    for (long s = rng.range(3, 20); s > 0; --s)
    {
        auto mode = rng.pick(std::vector<std::string> {"r", "r+", "w", "a", "x", "w-", "", "R", "rw"});
        sig += mode + ",";
        auto was = bytes(path);
        VP_CHECK(h5::File::exists(path) == exists, "exists", "exists() says %d", h5::File::exists(path));
        bool opened = false;
        bool explicit_close = rng.chance(0.3);
        try
        {
            auto f = mode == "r" && rng.chance(0.5) ? h5::File(path) : h5::File(path, mode);
            opened = true;
            VP_CHECK(f.is_open(), "is-open", "an opened file says it is closed");
            VP_CHECK((f.intent() == h5::Intent::rdonly) == (mode == "r"), "intent", "mode %s opened with the wrong intent", mode.c_str());
            VP_CHECK(f.filename() == path, "filename", "%s", f.filename().c_str());
            if (mode == "w") model.clear();
            std::set<std::string> names;
            for (auto n : f) names.insert(n);
            std::set<std::string> expected;
            for (auto& m : model) expected.insert(m.first);
            VP_CHECK(names == expected, mode == "w" ? "truncate" : "keep", "mode %s: %zu names present, %zu expected", mode.c_str(), names.size(), expected.size());
            for (auto& m : model) { double got = f.read<double>(m.first); VP_CHECK(got == m.second, "keep", "mode %s: contents changed", mode.c_str()); }
            for (long n = rng.range(0, 3); n > 0; --n)
            {
                auto name = "x" + std::to_string(rng.range(0, 9));
                double v = rng.uniform(0, 1);
                bool refused = vp::throws([&] { f.write(name, v); });
                VP_CHECK(refused == (mode == "r"), "read-only", "mode %s: writing %s", mode.c_str(), refused ? "refused" : "accepted");
                if (! refused) model[name] = v;
                vp::observe(refused ? "write-refused" : "write-accepted");
            }
            if (explicit_close) { f.close(); VP_CHECK(! f.is_open(), "is-open", "a closed file says it is open"); f.close(); }
        }
        catch (const std::exception&) {}
        bool expect_open = mode == "w" || ((mode == "r" || mode == "r+") && exists);
        VP_CHECK(opened == expect_open, "mode", "mode '%s' on %s file: opened %d", mode.c_str(), exists ? "an existing" : "a missing", opened);
        if (opened && mode == "w") exists = true;
        if (mode == "r" || ! opened) VP_CHECK(bytes(path) == was, "read-changes-file", "mode '%s' changed or created the file", mode.c_str());
        vp::observe("open:" + mode);
    }
    compare(before, "opening modes");

    // something that is not an HDF5 file is refused and left alone
    if (rng.chance(0.5))
    {
        std::string junk(rng.range(0, 3000), 'x');
        for (auto& c : junk) c = char(rng.next());
        { auto f = std::fopen(path.c_str(), "w"); std::fwrite(junk.data(), 1, junk.size(), f); std::fclose(f); }
        VP_CHECK(! h5::File::exists(path), "exists", "random bytes are taken for an HDF5 file");
        bool r = vp::throws_as<std::exception>([&] { h5::File f(path, "r"); });
        bool rp = vp::throws_as<std::exception>([&] { h5::File f(path, "r+"); });
        VP_CHECK(r && rp && bytes(path) == junk, "not-hdf5", "a file that is not HDF5 was opened or changed");
        vp::observe("not-hdf5");
        compare(before, "not an HDF5 file");
    }
    unlink(path.c_str());
    vp::signature(sig);
}

//-----------------------------------------------------------------------------
// typed reads and writes, successful and failing, leave nothing open behind
VP_SECTION("values leave nothing open", 600, 8000)
{
    warm_up();
    auto path = work() + "/c08v-" + std::to_string(getpid()) + ".h5";
    auto before = live();
    {
        auto file = h5::File(path, "w");
        auto inside = live();
        std::string sig;
        for (long s = rng.range(1, 20); s > 0; --s)
        {
            if (rng.chance(0.3)) { inject = true; inject_after = int(rng.range(1, 12)); }
            int op = int(rng.range(0, 11));
            sig += char('a' + op);
            auto n = std::to_string(rng.range(0, 4));
            try
            {
                switch (op)
                {
                case 0: file.write("n" + n, 1.0); break;
                case 1: file.write("n" + n, std::string("abc")); break;
                case 2: file.read<std::string>("n" + n); break;
                case 3: file.write("a" + n, nd::make_unique_array<double>(nd::make_shape(3, 2)).shared()); break;
                case 4: file.read<nd::shared_array<double, 2>>("a" + n); break;
                case 5: file.read<nd::shared_array<double, 3>>("a" + n); break;
                case 6: file.read<mara::config_parameter_t>("n" + n); break;
                case 7: { auto t = mara::schedule_t(); t.create_and_mark_as_due("task" + n); mara::write_schedule(file.require_group("s"), t); break; }
                case 8: mara::read_schedule(file.require_group("s")); break;
                case 9: file.write("l" + n, mara::linked_list_t<int>().prepend(2).prepend(3)); break;
                case 10: { auto d = file.open_dataset("a" + n); d.write(1.0, d.get_space().select({{0, 0}, {1, 1}, {1, 1}, {1, 1}})); break; }
                case 11: file["g"]["h" + n].write("x", 2); break;
                }
                vp::observe("operation");
            }
            catch (const std::exception& e) { vp::observe(injected ? "injected-failure" : "refused"); injected = 0; }
            inject = false;
            compare(inside, ("operation " + std::string(1, sig.back())).c_str());
        }
        vp::signature(sig);
    }
    compare(before, "value operations");
    // and the file is complete
    hid_t f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    VP_CHECK(f >= 0, "incomplete", "the file cannot be opened after its owner is gone");
    if (f >= 0) H5Fclose(f);
    unlink(path.c_str());
}

VP_MAIN()
