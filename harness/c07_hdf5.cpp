// C07: what is written to HDF5 reads back identical, and touches nothing else.
//
// Oracle: a plain model (name -> value) kept beside a real HDF5 file that is written and read only through the repository's
// code; contents are additionally read with the HDF5 C library alone.
#include <limits>
#include <memory>
#include "vp.hpp"
#include "app_serialize.hpp"
#include "app_serialize_tree.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "subprog_binary.hpp"

using vp::rng_t;

static std::string work()
{
    static std::string w = std::getenv("VP_WORK") ? std::getenv("VP_WORK") : "/tmp";
    return w;
}
static std::string scratch() { return work() + "/c07-" + std::to_string(getpid()) + ".h5"; }
static void quiet() { static bool done = (H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr), true); (void) done; }

static double any_double(rng_t& r)
{
    switch (r.range(0, 11))
    {
        case 0: return 0.0;
        case 1: return -0.0;
        case 2: return std::numeric_limits<double>::infinity();
        case 3: return -std::numeric_limits<double>::infinity();
        case 4: return std::numeric_limits<double>::quiet_NaN();
        case 5: return std::numeric_limits<double>::denorm_min() * r.range(1, 9);
        case 6: return std::numeric_limits<double>::max();
        case 7: return double(r.range(-3, 3));
        default: return r.sign() * r.log_uniform(1e-200, 1e200);
    }
}
static int any_int(rng_t& r)
{
    switch (r.range(0, 5))
    {
        case 0: return std::numeric_limits<int>::min();
        case 1: return std::numeric_limits<int>::max();
        case 2: return 0;
        default: return int(r.next());
    }
}
static std::string any_string(rng_t& r)
{
    static const std::string alphabet = "abcXYZ019 ./-_=:,\n\t\"'\\%";
    long n = r.chance(0.15) ? 0 : r.chance(0.1) ? r.range(200, 3000) : r.range(1, 20);
    std::string s;
    for (long i = 0; i < n; ++i) s += r.chance(0.05) ? char(r.range(128, 255)) : alphabet[r.next() % alphabet.size()];
    return s;
}
static long any_extent(rng_t& r) { return r.chance(0.1) ? 0 : r.chance(0.2) ? 1 : r.range(2, 7); }

//-----------------------------------------------------------------------------
// bitwise comparison of everything storable
static bool same(double a, double b) { return vp::same_bits(a, b) || (std::isnan(a) && std::isnan(b)); }
static bool same(int a, int b) { return a == b; }
static bool same(char a, char b) { return a == b; }
static bool same(unsigned long a, unsigned long b) { return a == b; }
static bool same(const std::string& a, const std::string& b) { return a == b; }
static bool same(const mara::rational_number_t& a, const mara::rational_number_t& b) { return a.get_numerator() == b.get_numerator() && a.get_denominator() == b.get_denominator(); }
template<int C, int G, int S, typename T> bool same(const mara::dimensional_value_t<C, G, S, T>& a, const mara::dimensional_value_t<C, G, S, T>& b) { return same(a.value, b.value); }
template<typename T, std::size_t N> bool same(const mara::arithmetic_sequence_t<T, N>& a, const mara::arithmetic_sequence_t<T, N>& b) { for (std::size_t i = 0; i < N; ++i) if (! same(a[i], b[i])) return false; return true; }
template<typename T> bool same(const std::vector<T>& a, const std::vector<T>& b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i) if (! same(a[i], b[i])) return false;
    return true;
}
template<typename T> bool same(const mara::linked_list_t<T>& a, const mara::linked_list_t<T>& b) { return same(std::vector<T>(a.begin(), a.end()), std::vector<T>(b.begin(), b.end())); }
template<typename T, std::size_t R> bool same(const nd::shared_array<T, R>& a, const nd::shared_array<T, R>& b)
{
    for (std::size_t i = 0; i < R; ++i) if (a.shape(i) != b.shape(i)) return false;
    for (auto i : a.indexes()) if (! same(a(i), b(i))) return false;
    return true;
}
template<typename T, std::size_t R> bool same(const nd::unique_array<T, R>& a, const nd::shared_array<T, R>& b)
{
    for (std::size_t i = 0; i < R; ++i) if (a.shape(i) != b.shape(i)) return false;
    for (auto i : b.indexes()) if (! same(a(i), b(i))) return false;
    return true;
}

//-----------------------------------------------------------------------------
template<typename T> struct make;
template<> struct make<double> { static double value(rng_t& r) { return any_double(r); } };
template<> struct make<int> { static int value(rng_t& r) { return any_int(r); } };
template<> struct make<char> { static char value(rng_t& r) { return char(r.range(0, 127)); } };
template<> struct make<unsigned long> { static unsigned long value(rng_t& r) { return r.chance(0.2) ? ~0ul : r.next(); } };
template<> struct make<std::string> { static std::string value(rng_t& r) { return any_string(r); } };
template<> struct make<mara::rational_number_t> { static mara::rational_number_t value(rng_t& r) { return mara::make_rational(int(r.range(-1000000, 1000000)), int(r.range(1, 1000000))); } };
template<int C, int G, int S, typename T> struct make<mara::dimensional_value_t<C, G, S, T>> { static auto value(rng_t& r) { return mara::dimensional_value_t<C, G, S, T> { make<T>::value(r) }; } };
template<typename T, std::size_t N> struct make<mara::arithmetic_sequence_t<T, N>>
{
    static auto value(rng_t& r) { mara::arithmetic_sequence_t<T, N> s; for (std::size_t i = 0; i < N; ++i) s[i] = make<T>::value(r); return s; }
};
template<typename T> struct make<std::vector<T>>
{
    static auto value(rng_t& r) { std::vector<T> v; for (long n = r.chance(0.1) ? 0 : r.chance(0.05) ? r.range(31, 3000) : r.range(1, 30); n > 0; --n) v.push_back(make<T>::value(r)); return v; }
};
template<typename T> struct make<mara::linked_list_t<T>>
{
    static auto value(rng_t& r) { mara::linked_list_t<T> l; for (long n = r.chance(0.1) ? 0 : r.chance(0.05) ? r.range(31, 3000) : r.range(1, 30); n > 0; --n) l = l.prepend(make<T>::value(r)); return l; }
};
template<typename T, std::size_t R> struct make<nd::shared_array<T, R>>
{
    static auto value(rng_t& r)
    {
        nd::shape_t<R> shape;
        for (std::size_t i = 0; i < R; ++i) shape[i] = any_extent(r);
        auto a = nd::make_unique_array<T>(shape);
        for (auto i : a.indexes()) a(i) = make<T>::value(r);
        return std::move(a).shared();
    }
};

//-----------------------------------------------------------------------------
struct item_t
{
    virtual ~item_t() {}
    virtual void write(h5::Group& g, const std::string& name) = 0;
    virtual void verify(h5::Group& g, const std::string& name, const char* when) = 0;
    virtual void rewrite(rng_t& r, h5::Group& g, const std::string& name) = 0;
    virtual std::string kind() = 0;
    virtual void verify_raw(hid_t, const std::string&) {}
};

template<typename T> const char* type_name();
#define NAMED(T, N) template<> const char* type_name<T>() { return N; }
using seq3_t = mara::arithmetic_sequence_t<double, 3>;
using iseq2_t = mara::arithmetic_sequence_t<int, 2>;
using len_t = mara::unit_length<double>;
using lseq_t = mara::arithmetic_sequence_t<mara::unit_mass<double>, 2>;
using qseq_t = mara::arithmetic_sequence_t<len_t, 4>;
using vseq_t = std::vector<seq3_t>;
using list_d = mara::linked_list_t<double>;
using list_i = mara::linked_list_t<int>;
using a1_t = nd::shared_array<double, 1>;
using a2_t = nd::shared_array<double, 2>;
using a3_t = nd::shared_array<double, 3>;
using a4_t = nd::shared_array<int, 4>;
using al_t = nd::shared_array<len_t, 2>;
using as_t = nd::shared_array<seq3_t, 2>;
using aq_t = nd::shared_array<qseq_t, 3>;
using ar_t = nd::shared_array<mara::rational_number_t, 1>;
using lists_t = mara::linked_list_t<seq3_t>;
NAMED(double, "double") NAMED(int, "int") NAMED(char, "char") NAMED(unsigned long, "ulong") NAMED(std::string, "string")
NAMED(mara::rational_number_t, "rational") NAMED(len_t, "length") NAMED(seq3_t, "sequence3") NAMED(iseq2_t, "isequence2")
NAMED(lseq_t, "masses") NAMED(std::vector<double>, "vector") NAMED(std::vector<int>, "ivector") NAMED(vseq_t, "vector-of-sequence")
NAMED(list_d, "list") NAMED(list_i, "ilist") NAMED(a1_t, "array1") NAMED(a2_t, "array2") NAMED(a3_t, "array3") NAMED(a4_t, "iarray4")
NAMED(al_t, "array-of-length") NAMED(as_t, "array-of-sequence") NAMED(aq_t, "array3-of-quantities") NAMED(ar_t, "array-of-rational") NAMED(lists_t, "list-of-sequence")

// the file's own view of an array: row-major doubles through the C library
template<typename T> void raw_check(hid_t, const std::string&, const T&) {}
template<std::size_t R> void raw_check(hid_t loc, const std::string& name, const nd::shared_array<double, R>& a)
{
    hid_t d = H5Dopen2(loc, name.c_str(), H5P_DEFAULT), s = H5Dget_space(d);
    hsize_t dims[8] = {};
    int rank = H5Sget_simple_extent_dims(s, dims, nullptr);
    bool shape = rank == int(R);
    for (int i = 0; shape && i < rank; ++i) shape = dims[i] == a.shape(i);
    VP_CHECK(shape, "raw-shape", "stored shape differs from the array's (rank %d)", rank);
    if (shape && a.size() > 0)
    {
        std::vector<double> v(a.size());
        H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
        std::size_t n = 0; bool ok = true;
        for (auto i : a.indexes()) ok = ok && same(v[n++], a(i));
        VP_CHECK(ok, "raw-contents", "row-major file contents differ from the array");
        vp::observe("raw-array");
    }
    H5Sclose(s); H5Dclose(d);
}

template<typename T> struct typed_t : item_t
{
    T value;
    typed_t(T v) : value(v) {}
    std::string kind() override { return type_name<T>(); }
    void write(h5::Group& g, const std::string& name) override
    {
        switch (vp::hash_str(name) % 3)
        {
            case 0: g.write(name, value); break;
            case 1: mara::write(g, name, value); break;
            default:
            {
                auto w = h5::convert_to_writable(value);
                g.require_dataset(name, h5::make_datatype_for(w), h5::make_dataspace_for(w)).write(value);
            }
        }
        vp::observe("write:" + kind());
    }
    void verify(h5::Group& g, const std::string& name, const char* when) override
    {
        bool ok = same(g.read<T>(name), value);
        VP_CHECK(ok, std::string("round-trip/") + type_name<T>(), "%s: value read back differs (%s)", type_name<T>(), when);
        T other {};
        g.read(name, other);
        bool ok2 = same(other, value);
        VP_CHECK(ok2, std::string("round-trip/") + type_name<T>(), "%s: value read into a variable differs (%s)", type_name<T>(), when);
        T third {};
        mara::read(g, name, third);
        bool ok3 = same(third, value);
        VP_CHECK(ok3, std::string("round-trip/") + type_name<T>(), "%s: value read with mara::read differs (%s)", type_name<T>(), when);
        vp::observe("read:" + kind());
    }
    // a value of the same stored type and extent may be overwritten in place
    void rewrite(rng_t& r, h5::Group& g, const std::string& name) override
    {
        for (int i = 0; i < 20; ++i)
        {
            T next = make<T>::value(r);
            auto a = h5::convert_to_writable(next);
            auto b = h5::convert_to_writable(value);
            bool fits = h5::make_datatype_for(a) == h5::make_datatype_for(b) && h5::make_dataspace_for(a) == h5::make_dataspace_for(b);
            if (fits)
            {
                value = next;
                g.write(name, value);
                vp::observe("overwrite");
                return;
            }
            bool refused = vp::throws_as<std::exception>([&] { g.write(name, next); });
            VP_CHECK(refused, "overwrite-mismatch", "%s: writing a value of another stored type or extent over an existing one was not refused", type_name<T>());
            vp::observe("overwrite-refused");
            verify(g, name, "after a refused overwrite");
        }
    }
    void verify_raw(hid_t loc, const std::string& name) override { raw_check(loc, name, value); }
};

template<typename... Ts> struct types_t {};
using all_t = types_t<double, int, char, unsigned long, std::string, mara::rational_number_t, len_t, seq3_t, iseq2_t, lseq_t, std::vector<double>, std::vector<int>,
    vseq_t, list_d, list_i, a1_t, a2_t, a3_t, a4_t, al_t, as_t, aq_t, ar_t, lists_t>;

template<typename... Ts> std::unique_ptr<item_t> make_item(rng_t& r, types_t<Ts...>)
{
    static std::vector<std::function<std::unique_ptr<item_t>(rng_t&)>> fs { [] (rng_t& r) { return std::make_unique<typed_t<Ts>>(make<Ts>::value(r)); }... };
    return fs[r.next() % fs.size()](r);
}

// reading a stored value under each other type must either throw or (same stored type and extent) succeed
template<typename T> void misread(h5::Group& g, const std::string& name, const std::string& stored, int& refused)
{
    if (stored == type_name<T>()) return;
    bool threw = vp::throws([&] { g.read<T>(name); });
    if (threw) refused++;
    static const std::map<std::string, int> scalar_class { {"double", 1}, {"length", 1}, {"int", 2}, {"char", 3}, {"ulong", 4}, {"sequence3", 5}, {"isequence2", 6}, {"rational", 6}, {"masses", 7} };
    auto a = scalar_class.find(stored), b = scalar_class.find(type_name<T>());
    if (a != scalar_class.end() && b != scalar_class.end() && a->second != b->second)
    {
        VP_CHECK(threw, "misread", "a stored %s was read as %s without complaint", stored.c_str(), type_name<T>());
    }
}
template<typename... Ts> int misread_all(h5::Group& g, const std::string& name, const std::string& stored, types_t<Ts...>)
{
    int refused = 0;
    (misread<Ts>(g, name, stored, refused), ...);
    return refused;
}

static h5::Group root(h5::File& f) { return f.open_group("/"); }

//-----------------------------------------------------------------------------
VP_SECTION("value histories", 500, 12000)
{
    quiet();
    auto path = scratch();
    std::map<std::string, std::map<std::string, std::unique_ptr<item_t>>> model; // group -> name -> value
    std::string sig;
    {
        auto file = std::make_unique<h5::File>(path, "w");
        long steps = rng.range(3, 30);
        int counter = 0;
        for (long s = 0; s < steps; ++s)
        {
            auto group_name = rng.chance(0.4) ? std::string("/") : std::string("g") + char('a' + rng.range(0, 2));
            auto g = group_name == "/" ? root(*file) : file->require_group(group_name);
            auto& m = model[group_name];
            double what = rng.unit();

            if (m.empty() || what < 0.5)
            {
                auto item = make_item(rng, all_t());
                auto name = (rng.chance(0.1) ? "a name with: spaces-and.dots " : "item") + std::to_string(counter++);
                sig += item->kind() + " ";
                item->write(g, name);
                m[name] = std::move(item);
            }
            else if (what < 0.65)
            {
                auto it = std::next(m.begin(), rng.next() % m.size());
                it->second->rewrite(rng, g, it->first);
                sig += "over ";
            }
            else if (what < 0.75)
            {
                auto it = std::next(m.begin(), rng.next() % m.size());
                vp::observe("misread-refused", misread_all(g, it->first, it->second->kind(), all_t()));
                sig += "misread ";
            }
            else if (what < 0.85)
            {
                bool a = vp::throws_as<std::exception>([&] { g.read<double>("missing"); });
                bool b = vp::throws_as<std::exception>([&] { g.open_group("missing"); });
                bool c = vp::throws_as<std::exception>([&] { g.read<std::string>(group_name == "/" ? "nowhere/missing" : "."); });
                bool d = vp::throws_as<std::exception>([&] { g.open_dataset("missing/deeper"); });
                bool e = vp::throws_as<std::exception>([&] { g.write("not/there", 1.0); });
                VP_CHECK(a && b && c && d && e, "missing-name", "a missing name did not raise an exception (%d %d %d %d %d)", a, b, c, d, e);
                vp::observe("missing-refused");
            }
            else
            {
                g.close();
                file.reset();
                file = std::make_unique<h5::File>(path, "r+");
                sig += "reopen ";
                vp::observe("reopened");
            }
        }
        // everything, still through the writing handle
        for (auto& gm : model)
        {
            if (gm.second.empty()) continue;
            auto g = file->open_group(gm.first);
            for (auto& i : gm.second) i.second->verify(g, i.first, "same session");
        }
    }
    {
        auto file = h5::File(path, "r");
        for (auto& gm : model)
        {
            if (gm.second.empty()) continue;
            auto g = file.open_group(gm.first);
            std::set<std::string> expected, listed;
            for (auto& i : gm.second)
            {
                i.second->verify(g, i.first, "after reopening");
                expected.insert(i.first);
            }
            if (gm.first == "/") for (auto& other : model) if (other.first != "/") expected.insert(other.first);
            long n = 0;
            for (auto name : g) { listed.insert(name); ++n; }
            VP_CHECK(n == long(g.size()) && n == long(listed.size()), "listing", "listing visits %ld names, size says %ld", n, long(g.size()));
            VP_CHECK(listed == expected, "listing", "group holds %zu names, %zu were written", listed.size(), expected.size());
        }
    }
    hid_t f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    VP_CHECK(f >= 0, "reopen", "the file cannot be opened after its writer closed it");
    for (auto& gm : model) for (auto& i : gm.second) i.second->verify_raw(f, gm.first == "/" ? "/" + i.first : "/" + gm.first + "/" + i.first);
    H5Fclose(f);
    unlink(path.c_str());
    vp::signature(sig);
}

//-----------------------------------------------------------------------------
struct slab_t { std::vector<hsize_t> dims, start, count, skip, block; std::vector<char> inside; std::size_t points = 0; };

static slab_t any_slab(rng_t& r, int rank)
{
    slab_t s;
    std::size_t total = 1;
    for (int i = 0; i < rank; ++i)
    {
        hsize_t n = r.range(1, 9), st = r.range(0, n - 1), bl = r.chance(0.7) ? 1 : r.range(1, n - st);
        hsize_t sk = bl + r.range(0, 3);
        hsize_t most = (n - st - bl) / sk + 1;
        hsize_t c = r.chance(0.1) ? 0 : r.range(1, most);
        s.dims.push_back(n); s.start.push_back(st); s.count.push_back(c); s.skip.push_back(sk); s.block.push_back(bl);
        total *= n;
    }
    s.inside.resize(total);
    for (std::size_t k = 0; k < total; ++k)
    {
        std::size_t rest = k; bool in = true;
        for (int i = rank - 1; i >= 0; --i)
        {
            hsize_t x = rest % s.dims[i]; rest /= s.dims[i];
            in = in && x >= s.start[i] && (x - s.start[i]) / s.skip[i] < s.count[i] && (x - s.start[i]) % s.skip[i] < s.block[i];
        }
        s.inside[k] = in;
        s.points += in;
    }
    return s;
}

VP_SECTION("selections", 1500, 30000)
{
    quiet();
    auto path = scratch();
    int rank = int(rng.range(1, 4));
    auto s = any_slab(rng, rank);
    std::vector<double> before(s.inside.size());
    for (auto& x : before) x = any_double(rng);
    auto slab = h5::hyperslab_t {s.start, s.count, s.skip, s.block};
    vp::signature(vp::fmt("rank %d points %zu of %zu start %d count %d skip %d block %d", rank, s.points, s.inside.size(), int(s.start[0]), int(s.count[0]), int(s.skip[0]), int(s.block[0])));
    {
        auto file = h5::File(path, "w");
        auto space = h5::Dataspace::simple(s.dims);
        auto dset = file.require_dataset("data", h5::make_datatype_for(double()), space);
        dset.write(before);
        auto other = file.require_dataset("other", h5::make_datatype_for(double()), space);
        other.write(before);
        auto fspace = dset.get_space().select(slab);
        VP_CHECK(fspace.selection_size() == s.points, "selection-size", "%zu selected, expected %zu", fspace.selection_size(), s.points);
        VP_CHECK(fspace.size() == s.inside.size(), "selection-size", "selecting changed the extent");

        std::vector<double> fresh(s.points);
        for (auto& x : fresh) x = any_double(rng);
        std::vector<double> expected = before, picked, picked_before;
        std::size_t n = 0;
        for (std::size_t k = 0; k < expected.size(); ++k) if (s.inside[k]) { picked_before.push_back(before[k]); expected[k] = fresh[n++]; }

        // a source of the wrong size is refused and changes nothing
        auto wrong = fresh; wrong.push_back(1.0);
        bool refused = vp::throws_as<std::exception>([&] { dset.write(wrong, fspace); });
        VP_CHECK(refused, "selection-mismatch", "writing %zu values to a selection of %zu was not refused", wrong.size(), s.points);
        bool as_int = vp::throws_as<std::exception>([&] { dset.write(std::vector<int>(s.points), fspace); });
        VP_CHECK(as_int, "selection-type", "writing integers to a data set of doubles was not refused");
        bool untouched = same(dset.read<std::vector<double>>(), before);
        VP_CHECK(untouched, "refused-write-changed", "a refused write changed the data");

        bool read_ok = same(dset.read<std::vector<double>>(fspace), picked_before);
        VP_CHECK(read_ok, "selection-read", "reading through a selection does not return exactly the selected values");
        auto read_list = dset.read<mara::linked_list_t<double>>(fspace);
        bool list_ok = same(std::vector<double>(read_list.begin(), read_list.end()), picked_before);
        VP_CHECK(list_ok, "selection-read", "reading a list through a selection does not return exactly the selected values");

        dset.write(fresh, fspace);
        bool ok = same(dset.read<std::vector<double>>(), expected);
        VP_CHECK(ok, "selection-write", "writing through a selection does not change exactly the selected values");
        bool other_ok = same(other.read<std::vector<double>>(), before);
        VP_CHECK(other_ok, "selection-other", "writing through a selection changed another data set");
        if (s.points == 1)
        {
            bool one = same(dset.read<double>(fspace), fresh[0]);
            VP_CHECK(one, "selection-read", "reading one selected value returned another");
            double x = any_double(rng);
            dset.write(x, fspace);
            for (std::size_t k = 0; k < expected.size(); ++k) if (s.inside[k]) expected[k] = x;
            bool one_ok = same(dset.read<std::vector<double>>(), expected);
            VP_CHECK(one_ok, "selection-write", "writing one selected value changed others");
            vp::observe("single-element");
        }
        else
        {
            bool one_refused = vp::throws_as<std::exception>([&] { dset.read<double>(fspace); });
            VP_CHECK(one_refused, "selection-mismatch", "reading %zu selected values as one was not refused", s.points);
        }
        // inconsistent and out-of-bounds selections are refused
        auto bad = slab; bad.count.push_back(1);
        bool bad_rank = vp::throws_as<std::exception>([&] { dset.get_space().select(bad); });
        VP_CHECK(bad_rank, "selection-rank", "a selection of the wrong rank was accepted");
        auto beyond = slab; beyond.start[0] = s.dims[0]; beyond.count.assign(rank, 1);
        auto bspace = dset.get_space();
        bool out = vp::throws_as<std::exception>([&] { bspace.select(beyond); dset.write(std::vector<double>(bspace.selection_size(), 1.0), bspace); });
        VP_CHECK(out, "selection-bounds", "writing outside the data set was accepted");
        bool after = same(dset.read<std::vector<double>>(), expected);
        VP_CHECK(after, "refused-write-changed", "a refused selection changed the data");
        if (s.points > 0)
        {
            auto lo = fspace.selection_lower(), hi = fspace.selection_upper();
            bool bounds = true;
            for (int i = 0; i < rank; ++i) bounds = bounds && lo[i] == s.start[i] && hi[i] == s.start[i] + (s.count[i] - 1) * s.skip[i] + s.block[i] - 1;
            VP_CHECK(bounds, "selection-size", "selection bounds are wrong");
        }
        vp::observe("selection-points", s.points);
        vp::observe(s.points == 0 ? "empty-selection" : "selection");
    }
    unlink(path.c_str());
}

template<std::size_t Rank> void pattern_case(rng_t& rng)
{
    auto path = scratch();
    nd::shape_t<Rank> shape;
    nd::access_pattern_t<Rank> sel;
    for (std::size_t i = 0; i < Rank; ++i)
    {
        shape[i] = rng.range(1, 8);
        sel.start[i] = rng.range(0, shape[i] - 1);
        sel.final[i] = rng.range(sel.start[i] + 1, shape[i]);
        sel.jumps[i] = rng.range(1, 3);
    }
    auto a = nd::make_unique_array<double>(shape);
    for (auto i : a.indexes()) a(i) = any_double(rng);
    auto part = nd::make_unique_array<double>(sel.shape());
    for (auto i : part.indexes()) part(i) = any_double(rng);
    auto whole = std::move(a).shared();
    auto piece = std::move(part).shared();
    {
        auto file = h5::File(path, "w");
        file.write("whole", whole);
        auto dset = file.open_dataset("whole");
        dset.write(piece, dset.get_space().select(mara::make_hdf5_hyperslab(sel)));
        auto result = file.template read<nd::shared_array<double, Rank>>("whole");
        bool ok = true;
        for (auto i : whole.indexes())
        {
            bool in = true;
            nd::index_t<Rank> local;
            for (std::size_t k = 0; k < Rank; ++k)
            {
                in = in && i[k] >= sel.start[k] && i[k] < sel.final[k] && (i[k] - sel.start[k]) % sel.jumps[k] == 0;
                local[k] = in ? (i[k] - sel.start[k]) / sel.jumps[k] : 0;
            }
            ok = ok && same(result(i), in ? piece(local) : whole(i));
        }
        VP_CHECK(ok, "array-selection", "writing a block through its index selection did not change exactly its own elements");
        auto back = dset.template read<std::vector<double>>(dset.get_space().select(mara::make_hdf5_hyperslab(sel)));
        bool same_piece = back.size() == piece.size();
        std::size_t n = 0;
        for (auto i : piece.indexes()) same_piece = same_piece && same(back[n++], piece(i));
        VP_CHECK(same_piece, "array-selection", "reading a block through its index selection returned something else");
    }
    unlink(path.c_str());
    vp::observe("array-selection");
    vp::signature(vp::fmt("pattern rank %zu size %zu of %zu", Rank, std::size_t(piece.size()), std::size_t(whole.size())));
}
VP_SECTION("array selections", 500, 8000)
{
    quiet();
    switch (rng.range(1, 3)) { case 1: pattern_case<1>(rng); break; case 2: pattern_case<2>(rng); break; default: pattern_case<3>(rng); }
}

//-----------------------------------------------------------------------------
// a growing data set, one value at a time, as the programs record their time series
VP_SECTION("growing data sets", 120, 2000)
{
    quiet();
    auto path = scratch();
    std::vector<double> model;
    std::vector<mara::arithmetic_sequence_t<double, 2>> pairs;
    {
        auto file = std::make_unique<h5::File>(path, "w");
        auto plist = h5::PropertyList::dataset_create().set_chunk(rng.range(1, 1000));
        file->require_dataset("series", h5::make_datatype_for(double()), h5::Dataspace::unlimited(0), plist);
        file->require_dataset("pairs", h5::make_datatype_for(mara::arithmetic_sequence_t<double, 2>()), h5::Dataspace::unlimited(0), plist);
        bool many = index % 30 == 7; // more than one piece of the stored table
        for (long n = many ? rng.range(1500, 2500) : rng.range(1, 60); n > 0; --n)
        {
            if (rng.chance(many ? 0.002 : 0.1)) { file.reset(); file = std::make_unique<h5::File>(path, "r+"); }
            auto at = h5::hyperslab_t {{hsize_t(model.size())}, {1}, {1}, {1}};
            auto d = file->open_dataset("series");
            VP_CHECK(d.get_space().size() == model.size(), "series-size", "series holds %zu, expected %zu", d.get_space().size(), model.size());
            model.push_back(any_double(rng));
            d.set_extent(model.size());
            d.write(model.back(), d.get_space().select(at));
            auto p = file->open_dataset("pairs");
            pairs.push_back(make<mara::arithmetic_sequence_t<double, 2>>::value(rng));
            p.set_extent(pairs.size());
            p.write(pairs.back(), p.get_space().select(at));
            if (rng.chance(0.2))
            {
                bool refused = vp::throws_as<std::exception>([&] { d.set_extent(1, 1); });
                VP_CHECK(refused, "extent-rank", "setting an extent of another rank was not refused");
            }
        }
        auto plane = file->require_dataset("plane", h5::make_datatype_for(double()), h5::Dataspace::unlimited(2, 3), h5::PropertyList::dataset_create().set_chunk(4, 4));
        for (auto rank : {1, 3})
        {
            bool refused = vp::throws_as<std::exception>([&] { if (rank == 1) plane.set_extent(5); else plane.set_extent(5, 5, 5); });
            VP_CHECK(refused && plane.get_space().extent() == (std::vector<std::size_t> {2, 3}), "extent-rank", "setting an extent of rank %d on a plane was not refused, or changed it", rank);
        }
        plane.set_extent(4, 1); VP_CHECK(plane.get_space().extent() == (std::vector<std::size_t> {4, 1}), "extent", "an extent was not set");
    }
    auto file = h5::File(path, "r");
    bool ok = same(file.read<std::vector<double>>("series"), model);
    VP_CHECK(ok, "series", "appended series of %zu values reads back different", model.size());
    auto got = file.read<std::vector<mara::arithmetic_sequence_t<double, 2>>>("pairs");
    bool okp = same(got, pairs);
    VP_CHECK(okp, "series", "appended series of pairs reads back different");
    vp::observe("appended", model.size());
    vp::signature(vp::fmt("series of %zu", model.size()));
    file.close();
    unlink(path.c_str());
}

//-----------------------------------------------------------------------------
template<std::size_t Rank> mara::arithmetic_binary_tree_t<double, Rank> any_tree(rng_t& rng)
{
    auto tree = mara::arithmetic_binary_tree_t<double, Rank> { {any_double(rng)} };
    for (long n = rng.chance(0.1) ? 0 : rng.range(1, 8); n > 0; --n)
    {
        std::vector<mara::tree_index_t<Rank>> leaves;
        tree.indexes().sink([&] (auto i) { leaves.push_back(i); });
        auto at = leaves[rng.next() % leaves.size()];
        if (at.level >= 12) continue;
        tree = tree.indexes().pair(tree).bifurcate_if([&] (auto iv) { return std::get<0>(iv) == at; }, [&] (auto iv)
        {
            return mara::iota<(1 << Rank)>().map([&] (auto) { return std::make_pair(std::get<0>(iv), any_double(rng)); });
        }).map([] (auto iv) { return std::get<1>(iv); });
    }
    return tree;
}
template<std::size_t Rank> void tree_case(rng_t& rng)
{
    auto path = scratch();
    auto tree = any_tree<Rank>(rng);
    std::map<std::string, double> model;
    std::vector<mara::tree_index_t<Rank>> leaves;
    tree.indexes().sink([&] (auto i) { leaves.push_back(i); });
    std::vector<double> values;
    tree.sink([&] (auto v) { values.push_back(v); });
    {
        auto file = h5::File(path, "w");
        auto g = root(file);
        if (rng.chance(0.5)) mara::write(g, "tree", tree); else mara::write_tree(file.require_group("tree"), tree);
    }
    auto file = h5::File(path, "r");
    auto g = root(file);
    VP_CHECK(file.open_group("tree").size() == leaves.size(), "tree-names", "%zu leaves stored as %zu data sets", leaves.size(), file.open_group("tree").size());
    auto back = mara::arithmetic_binary_tree_t<double, Rank>();
    if (rng.chance(0.5)) mara::read(g, "tree", back); else mara::read_tree(file.open_group("tree"), back);
    std::vector<mara::tree_index_t<Rank>> got;
    std::vector<double> got_values;
    back.indexes().sink([&] (auto i) { got.push_back(i); });
    back.sink([&] (auto v) { got_values.push_back(v); });
    bool ok = got == leaves && same(got_values, values);
    VP_CHECK(ok, "tree", "a rank-%zu tree of %zu leaves reads back different (%zu leaves)", Rank, leaves.size(), got.size());
    constexpr std::size_t Other = Rank % 3 + 1;
    if (leaves.size() > 1)
    {
        auto before = file.open_group("tree").size(); auto other = mara::arithmetic_binary_tree_t<double, Other>();
        bool refused = vp::throws_as<std::exception>([&] { mara::read_tree(file.open_group("tree"), other); });
        VP_CHECK(refused && file.open_group("tree").size() == before, "tree-rank", "a tree of rank %zu was read as one of rank %zu", Rank, Other);
        vp::observe("tree-rank-refused");
    }
    vp::observe("tree-leaf", leaves.size());
    vp::observe(vp::fmt("tree-rank%zu", Rank));
    vp::signature(vp::fmt("tree rank %zu leaves %zu", Rank, leaves.size()));
    g.close(); file.close();
    unlink(path.c_str());
}
VP_SECTION("trees", 400, 6000)
{
    quiet();
    switch (rng.range(1, 3)) { case 1: tree_case<1>(rng); break; case 2: tree_case<2>(rng); break; default: tree_case<3>(rng); }
}

template<std::size_t Rank> void name_case(rng_t& rng)
{
    std::set<std::string> names;
    std::size_t distinct = 0;
    std::set<std::string> keys;
    int level = int(rng.range(0, 28));
    for (int n = 0; n < 40; ++n)
    {
        auto i = mara::tree_index_t<Rank>();
        i.level = level;
        std::string key;
        for (std::size_t k = 0; k < Rank; ++k)
        {
            std::size_t most = (std::size_t(1) << level) - 1;
            i.coordinates[k] = rng.chance(0.2) ? most : rng.chance(0.2) ? 0 : rng.next() % (most + 1);
            key += std::to_string(i.coordinates[k]) + ",";
        }
        auto text = mara::format_tree_index(i);
        auto back = mara::read_tree_index<Rank>(text);
        VP_CHECK(back == i, "tree-index-text", "position at level %d formats as %s and reads back different", level, text.c_str());
        if (keys.insert(key).second) ++distinct;
        names.insert(text);
        bool refused = vp::throws_as<std::exception>([&] { mara::read_tree_index<Rank + 1>(text); });
        VP_CHECK(refused, "tree-index-rank", "%s was accepted as a position of rank %zu", text.c_str(), Rank + 1);
        vp::observe("tree-index-text");
    }
    VP_CHECK(names.size() == distinct, "tree-index-text", "%zu positions share %zu names", distinct, names.size());
    vp::signature(vp::fmt("names rank %zu level %d", Rank, level));
}
VP_SECTION("tree positions as text", 300, 6000)
{
    switch (rng.range(1, 3)) { case 1: name_case<1>(rng); break; case 2: name_case<2>(rng); break; default: name_case<3>(rng); }
}

//-----------------------------------------------------------------------------
static mara::schedule_t any_schedule(rng_t& rng)
{
    mara::schedule_t s;
    for (long n = rng.range(0, 5); n > 0; --n)
    {
        mara::schedule_t::task_t t;
        t.name = "task_" + std::to_string(n);
        t.num_times_performed = any_int(rng);
        t.last_performed = any_double(rng);
        s.insert(t);
    }
    return s;
}
static void compare(const mara::schedule_t& a, const mara::schedule_t& b, const char* where)
{
    std::map<std::string, mara::schedule_t::task_t> x, y;
    for (auto t : a) x[t.first] = t.second;
    for (auto t : b) y[t.first] = t.second;
    bool ok = x.size() == y.size();
    for (auto& t : x) ok = ok && y.count(t.first) && y[t.first].name == t.second.name && y[t.first].num_times_performed == t.second.num_times_performed && same(y[t.first].last_performed, t.second.last_performed) && ! y[t.first].is_due;
    VP_CHECK(ok, std::string("schedule/") + where, "a schedule of %zu tasks reads back different (%zu)", x.size(), y.size());
    vp::observe("schedule-task", x.size());
}
static mara::config_t any_config(rng_t& rng)
{
    auto t = mara::config_template_t();
    for (long n = rng.range(1, 8); n > 0; --n)
    {
        auto k = "key_" + std::to_string(n);
        switch (rng.range(0, 2)) { case 0: t = t.item(k.c_str(), any_int(rng)); break; case 1: t = t.item(k.c_str(), any_double(rng)); break; default: t = t.item(k.c_str(), any_string(rng)); }
    }
    return t.create();
}
static void compare(const mara::config_t& a, const mara::config_parameter_map_t& b, const char* where)
{
    bool ok = true;
    std::size_t n = 0;
    std::string bad;
    for (auto i : a)
    {
        ++n;
        auto it = b.find(i.first);
        bool one = it != b.end() && it->second.index() == i.second.index();
        if (one) switch (i.second.index())
        {
            case 0: one = same(std::get<0>(i.second), std::get<0>(it->second)); break;
            case 1: one = same(std::get<1>(i.second), std::get<1>(it->second)); break;
            case 2: one = same(std::get<2>(i.second), std::get<2>(it->second)); break;
        }
        if (! one) bad = i.first + " (type " + std::to_string(i.second.index()) + ")";
        ok = ok && one;
    }
    VP_CHECK(ok && n == b.size(), std::string("config/") + where, "stored options read back different: %s, %zu of %zu", bad.c_str(), b.size(), n);
    vp::observe("option", n);
}

VP_SECTION("schedules and options", 500, 8000)
{
    quiet();
    auto path = scratch();
    auto s = any_schedule(rng);
    auto c = any_config(rng);
    {
        auto file = h5::File(path, "w");
        auto g = root(file);
        mara::write(g, "schedule", s);
        if (rng.chance(0.5)) mara::write(g, "run_config", c); else mara::write_config(file.require_group("run_config"), c);
        if (rng.chance(0.3)) { s = any_schedule(rng); mara::write_schedule(file.require_group("other"), s); mara::write(g, "schedule2", s); }
        else mara::write(g, "schedule2", s);
    }
    auto file = h5::File(path, "r");
    auto g = root(file);
    auto back = mara::schedule_t();
    mara::read(g, "schedule2", back);
    compare(s, back, "read");
    compare(s, mara::read_schedule(file.open_group("schedule2")), "read_schedule");
    compare(c, mara::read_config(file.open_group("run_config")), "read_config");
    vp::signature(vp::fmt("schedule %ld", long(std::distance(s.begin(), s.end()))));
    g.close(); file.close();
    unlink(path.c_str());
}

//-----------------------------------------------------------------------------
// the disk solver's whole state
template<typename T> binary::quad_tree_t<T> any_field(rng_t& rng, std::size_t n, const std::vector<int>& pattern);

static mara::full_orbital_elements_t any_orbit(rng_t& r)
{
    mara::full_orbital_elements_t e;
    double* p = reinterpret_cast<double*>(&e);
    for (std::size_t i = 0; i < sizeof e / sizeof(double); ++i) p[i] = any_double(r);
    return e;
}
static bool same(const mara::full_orbital_elements_t& a, const mara::full_orbital_elements_t& b)
{
    auto p = reinterpret_cast<const double*>(&a), q = reinterpret_cast<const double*>(&b);
    for (std::size_t i = 0; i < sizeof a / sizeof(double); ++i) if (! same(p[i], q[i])) return false;
    return true;
}
static bool same(const binary::time_series_sample_t& a, const binary::time_series_sample_t& b)
{
    return same(a.time, b.time) && same(a.disk_mass, b.disk_mass) && same(a.disk_angular_momentum, b.disk_angular_momentum) && same(a.mass_ejected, b.mass_ejected)
        && same(a.angular_momentum_ejected, b.angular_momentum_ejected) && same(a.mass_accreted_on, b.mass_accreted_on)
        && same(a.angular_momentum_accreted_on, b.angular_momentum_accreted_on) && same(a.integrated_torque_on, b.integrated_torque_on) && same(a.work_done_on, b.work_done_on)
        && same(a.orbital_elements_acc, b.orbital_elements_acc) && same(a.orbital_elements_grav, b.orbital_elements_grav) && same(a.orbital_elements, b.orbital_elements)
        && same(a.position_of_mass1, b.position_of_mass1) && same(a.position_of_mass2, b.position_of_mass2);
}
static std::uint64_t hash_doubles(const void* p, std::size_t bytes)
{
    std::uint64_t h = 7;
    for (std::size_t i = 0; i + 8 <= bytes; i += 8) { double d; std::memcpy(&d, (const char*) p + i, 8); std::uint64_t u; if (std::isnan(d)) u = 1; else std::memcpy(&u, &d, 8); h = vp::mix(h ^ u); }
    return h;
}
template<typename T> std::uint64_t hash_field(const binary::quad_tree_t<T>& t)
{
    std::uint64_t h = 3;
    t.indexes().pair(t).sink([&] (auto iv)
    {
        auto [i, v] = iv;
        h = vp::mix(h ^ i.level) ^ vp::mix(i.coordinates[0] * 31 + i.coordinates[1]);
        h = vp::mix(h ^ (v.shape(0) * 1000 + v.shape(1)));
        h = vp::mix(h ^ (v.size() ? hash_doubles(v.data(), v.size() * sizeof(T)) : 0));
    });
    return h;
}

// the bytes of a (nested) named member of every element of a data set, as any other program would read them
static std::string named(hid_t file, const std::string& dataset, std::vector<std::string> members)
{
    hid_t d = H5Dopen2(file, dataset.c_str(), H5P_DEFAULT); if (d < 0) return "no data set " + dataset;
    hid_t s = H5Dget_space(d), t = H5Dget_type(d); std::string bytes; std::vector<hid_t> types {t}; bool there = true;
    for (auto& m : members) { int i = H5Tget_class(types.back()) == H5T_COMPOUND ? H5Tget_member_index(types.back(), m.c_str()) : -1; if (i < 0) { there = false; break; } types.push_back(H5Tget_member_type(types.back(), i)); }
    if (! there) bytes = "no such member"; else
    {
        hid_t mem = H5Tget_native_type(types.back(), H5T_DIR_ASCEND); std::size_t size = H5Tget_size(mem);
        for (std::size_t k = members.size(); k-- > 0;) { hid_t outer = H5Tcreate(H5T_COMPOUND, size); H5Tinsert(outer, members[k].c_str(), 0, mem); H5Tclose(mem); mem = outer; }
        bytes.resize(size * H5Sget_simple_extent_npoints(s)); if (! bytes.empty() && H5Dread(d, mem, H5S_ALL, H5S_ALL, H5P_DEFAULT, &bytes[0]) < 0) bytes = "unreadable"; H5Tclose(mem);
    }
    for (auto x : types) H5Tclose(x); H5Sclose(s); H5Dclose(d); return bytes;
}
template<typename T> std::string bytes_of(const T& x) { return std::string(reinterpret_cast<const char*>(&x), sizeof x); }
static bool same_doubles(const std::string& a, const std::string& b) { return a.size() == b.size() && hash_doubles(a.data(), a.size()) == hash_doubles(b.data(), b.size()); }

VP_SECTION("disk solver state", 60, 800)
{
    quiet();
    auto path = scratch();
    auto shape = nd::make_shape(std::size_t(rng.range(1, 6)), std::size_t(rng.range(1, 6)));
    auto topology = any_tree<2>(rng);
    binary::state_t st { {}, any_schedule(rng), {}, any_config(rng) };
    auto& s = st.solution;
    auto fill = [&] (auto sample)
    {
        using T = decltype(sample);
        return topology.map([&] (double)
        {
            auto a = nd::make_unique_array<T>(shape);
            for (auto i : a.indexes())
            {
                double d[sizeof(T) / sizeof(double)];
                for (auto& x : d) x = any_double(rng);
                std::memcpy(static_cast<void*>(&a(i)), d, sizeof(T));
            }
            return std::move(a).shared();
        });
    };
    s.time = any_double(rng);
    s.iteration = make<mara::rational_number_t>::value(rng);
    s.conserved_u = fill(mara::iso2d::conserved_per_area_t());
    s.conserved_q = fill(mara::iso2d::conserved_angmom_per_area_t());
    s.mass_accreted_on = make<decltype(s.mass_accreted_on)>::value(rng);
    s.angular_momentum_accreted_on = make<decltype(s.angular_momentum_accreted_on)>::value(rng);
    s.integrated_torque_on = make<decltype(s.integrated_torque_on)>::value(rng);
    s.work_done_on = make<decltype(s.work_done_on)>::value(rng);
    s.mass_ejected = any_double(rng);
    s.angular_momentum_ejected = any_double(rng);
    s.orbital_elements_acc = any_orbit(rng);
    s.orbital_elements_grav = any_orbit(rng);
    s.orbital_elements = any_orbit(rng);
    for (long n = rng.chance(0.1) ? rng.range(900, 1300) : rng.range(0, 12); n > 0; --n)
    {
        binary::time_series_sample_t t;
        t.time = any_double(rng); t.disk_mass = any_double(rng); t.disk_angular_momentum = any_double(rng); t.mass_ejected = any_double(rng); t.angular_momentum_ejected = any_double(rng);
        t.mass_accreted_on = make<decltype(t.mass_accreted_on)>::value(rng);
        t.angular_momentum_accreted_on = make<decltype(t.angular_momentum_accreted_on)>::value(rng);
        t.integrated_torque_on = make<decltype(t.integrated_torque_on)>::value(rng);
        t.work_done_on = make<decltype(t.work_done_on)>::value(rng);
        t.orbital_elements_acc = any_orbit(rng); t.orbital_elements_grav = any_orbit(rng); t.orbital_elements = any_orbit(rng);
        t.position_of_mass1 = make<binary::location_2d_t>::value(rng); t.position_of_mass2 = make<binary::location_2d_t>::value(rng);
        st.time_series = st.time_series.prepend(t);
    }
    binary::diagnostic_fields_t d { st.run_config, s.time, fill(binary::location_2d_t()), fill(double()), fill(double()), fill(double()),
        make<binary::location_2d_t>::value(rng), make<binary::location_2d_t>::value(rng) };
    {
        auto file = h5::File(path, "w");
        auto g = root(file);
        mara::write(g, rng.chance(0.5) ? "/" : "state", st);
        mara::write(g, "diag", d);
    }
    {
        auto file = h5::File(path, "r");
        auto g = root(file);
        auto where = std::string(file.size() == 2 ? "state" : "/");
        binary::state_t got { {}, {}, {}, st.run_config };
        mara::read(g, where, got);
        auto& q = got.solution;
        bool scalars = same(q.time, s.time) && same(q.iteration, s.iteration) && same(q.mass_ejected, s.mass_ejected) && same(q.angular_momentum_ejected, s.angular_momentum_ejected);
        VP_CHECK(scalars, "disk/scalars", "time, iteration or ejected totals differ");
        bool sums = same(q.mass_accreted_on, s.mass_accreted_on) && same(q.angular_momentum_accreted_on, s.angular_momentum_accreted_on)
            && same(q.integrated_torque_on, s.integrated_torque_on) && same(q.work_done_on, s.work_done_on);
        VP_CHECK(sums, "disk/totals", "accreted, torque or work totals differ");
        VP_CHECK(hash_field(q.conserved_u) == hash_field(s.conserved_u), "disk/conserved_u", "conserved field differs");
        VP_CHECK(hash_field(q.conserved_q) == hash_field(s.conserved_q), "disk/conserved_q", "angular-momentum field differs");
        bool orb = same(q.orbital_elements, s.orbital_elements) && same(q.orbital_elements_acc, s.orbital_elements_acc) && same(q.orbital_elements_grav, s.orbital_elements_grav);
        VP_CHECK(orb, "disk/orbits", "orbital elements differ");
        compare(st.schedule, got.schedule, "state");
        std::vector<binary::time_series_sample_t> a(st.time_series.begin(), st.time_series.end()), b(got.time_series.begin(), got.time_series.end());
        bool series = a.size() == b.size();
        for (std::size_t i = 0; series && i < a.size(); ++i) series = same(a[i], b[i]);
        VP_CHECK(series, "disk/time-series", "a time series of %zu samples reads back different (%zu)", a.size(), b.size());
        compare(st.run_config, mara::read_config((where == "/" ? std::move(g) : g.open_group(where)).open_group("run_config")), "state");

        auto g2 = root(file);
        auto e = binary::diagnostic_fields_t { st.run_config };
        mara::read(g2, "diag", e);
        bool fields = same(e.time, d.time) && hash_field(e.vertices) == hash_field(d.vertices) && hash_field(e.sigma) == hash_field(d.sigma)
            && hash_field(e.radial_velocity) == hash_field(d.radial_velocity) && hash_field(e.phi_velocity) == hash_field(d.phi_velocity);
        VP_CHECK(fields, "disk/diagnostics", "diagnostic fields read back different");
        bool pos = same(e.position_of_mass1, d.position_of_mass1) && same(e.position_of_mass2, d.position_of_mass2);
        VP_CHECK(pos, "disk/diagnostics", "body positions in the diagnostics read back different");
        // what other programs see under the names of the fields
        hid_t f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); auto at = (where == "/" ? "" : "/" + where); auto see = [&] (const std::string& dataset, std::vector<std::string> members, const std::string& want)
        {
            auto label = dataset; for (auto& m : members) label += "." + m; VP_CHECK(same_doubles(named(f, at + dataset, members), want), "disk/by-name", "%s does not hold that field", label.c_str()); vp::observe("member-by-name");
        };
        auto see_orbit = [&] (const std::string& dataset, std::vector<std::string> members, auto get, auto n)
        {
            auto field = [&] (std::vector<std::string> m, auto part) { auto all = members; all.insert(all.end(), m.begin(), m.end()); std::string want; for (std::size_t i = 0; i < n; ++i) want += bytes_of(part(get(i))); see(dataset, all, want); };
            field({"pomega"}, [] (auto& e) { return e.pomega; }); field({"tau"}, [] (auto& e) { return e.tau; }); field({"cm_position_x"}, [] (auto& e) { return e.cm_position_x; }); field({"cm_position_y"}, [] (auto& e) { return e.cm_position_y; }); field({"cm_velocity_x"}, [] (auto& e) { return e.cm_velocity_x; }); field({"cm_velocity_y"}, [] (auto& e) { return e.cm_velocity_y; });
            field({"elements", "separation"}, [] (auto& e) { return e.elements.separation; }); field({"elements", "total_mass"}, [] (auto& e) { return e.elements.total_mass; }); field({"elements", "mass_ratio"}, [] (auto& e) { return e.elements.mass_ratio; }); field({"elements", "eccentricity"}, [] (auto& e) { return e.elements.eccentricity; });
        };
        see("/solution/time", {}, bytes_of(s.time)); see("/solution/mass_accreted_on", {}, bytes_of(s.mass_accreted_on)); see("/solution/angular_momentum_accreted_on", {}, bytes_of(s.angular_momentum_accreted_on)); see("/solution/integrated_torque_on", {}, bytes_of(s.integrated_torque_on)); see("/solution/work_done_on", {}, bytes_of(s.work_done_on)); see("/solution/mass_ejected", {}, bytes_of(s.mass_ejected)); see("/solution/angular_momentum_ejected", {}, bytes_of(s.angular_momentum_ejected));
        see_orbit("/solution/orbital_elements", {}, [&] (auto) -> auto& { return s.orbital_elements; }, 1ul); see_orbit("/solution/orbital_elements_acc", {}, [&] (auto) -> auto& { return s.orbital_elements_acc; }, 1ul); see_orbit("/solution/orbital_elements_grav", {}, [&] (auto) -> auto& { return s.orbital_elements_grav; }, 1ul);
        if (! a.empty())
        {
            std::vector<binary::time_series_sample_t> c(a.rbegin(), a.rend()); auto column = [&] (const char* name, auto part) { std::string want; for (auto& x : c) want += bytes_of(part(x)); see("/time_series", {name}, want); };
            column("time", [] (auto& x) { return x.time; }); column("disk_mass", [] (auto& x) { return x.disk_mass; }); column("disk_angular_momentum", [] (auto& x) { return x.disk_angular_momentum; }); column("mass_ejected", [] (auto& x) { return x.mass_ejected; }); column("angular_momentum_ejected", [] (auto& x) { return x.angular_momentum_ejected; });
            column("mass_accreted_on", [] (auto& x) { return x.mass_accreted_on; }); column("angular_momentum_accreted_on", [] (auto& x) { return x.angular_momentum_accreted_on; }); column("integrated_torque_on", [] (auto& x) { return x.integrated_torque_on; }); column("work_done_on", [] (auto& x) { return x.work_done_on; }); column("position_of_mass1", [] (auto& x) { return x.position_of_mass1; }); column("position_of_mass2", [] (auto& x) { return x.position_of_mass2; });
            see_orbit("/time_series", {"orbital_elements"}, [&] (auto i) -> auto& { return c[i].orbital_elements; }, c.size()); see_orbit("/time_series", {"orbital_elements_acc"}, [&] (auto i) -> auto& { return c[i].orbital_elements_acc; }, c.size()); see_orbit("/time_series", {"orbital_elements_grav"}, [&] (auto i) -> auto& { return c[i].orbital_elements_grav; }, c.size());
        }
        at = "/diag"; see("/time", {}, bytes_of(d.time)); see("/position_of_mass1", {}, bytes_of(d.position_of_mass1)); see("/position_of_mass2", {}, bytes_of(d.position_of_mass2)); H5Fclose(f);
        vp::observe("disk-state");
        vp::signature(vp::fmt("disk %zu leaves %zux%zu series %zu", topology.size(), shape[0], shape[1], a.size()));
    }
    unlink(path.c_str());
}

//-----------------------------------------------------------------------------
// the names of a group's members, of any length: listed complete, each once, or refused
VP_SECTION("member names", 150, 2500)
{
    quiet();
    auto path = scratch();
    std::set<std::string> names, shorter;
    auto letter = [&] { return char("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 _-.:+=#\xc3"[rng.next() % 51]); };
    bool any_long = rng.chance(0.3);
    for (long n = rng.range(0, 12); n > 0; --n)
    {
        auto length = rng.chance(0.5) ? rng.range(1, 40) : any_long && rng.chance(0.5) ? rng.range(1015, 1040) : rng.range(900, 1023);
        std::string name(1, char('a' + rng.next() % 26));
        while (long(name.size()) < length) name += letter();
        names.insert(name);
        if (name.size() < 1024) shorter.insert(name);
    }
    {
        auto file = h5::File(path, "w");
        auto g = file.require_group("members");
        for (auto n : names) { if (rng.chance(0.5)) g.write(n, 1.0); else g.require_group(n); }
    }
    auto cut = path.rfind('/');
    auto prefix = cut == std::string::npos ? std::string() : path.substr(0, cut + 1), spelled = path;
    if (rng.chance(0.4)) for (long target = rng.chance(0.5) ? rng.range(2040, 2056) : rng.range(100, 2040); long(spelled.size()) < target; spelled = prefix + path.substr(cut == std::string::npos ? 0 : cut + 1))
        prefix += (long(spelled.size()) + 1 == target && ! prefix.empty()) ? "/" : "./";
    auto file = h5::File(spelled, "r");
    try
    {
        auto name = file.filename();
        VP_CHECK(name == spelled, "file-name", "a file opened under a name of %zu characters calls itself by one of %zu", spelled.size(), name.size());
        vp::observe("file-name");
    }
    catch (const std::exception&)
    {
        VP_CHECK(spelled.size() >= 2048, "file-name", "a file name of %zu characters was refused", spelled.size());
        vp::observe("file-name-refused");
    }
    auto g = file.open_group("members");
    VP_CHECK(g.size() == names.size(), "member-count", "%zu members are counted as %zu", names.size(), g.size());
    std::vector<std::string> listed;
    long refused = 0;
    for (auto it = g.begin(); it != g.end(); ++it)
    {
        try { listed.push_back(*it); } catch (const std::exception&) { ++refused; }
    }
    bool ok = listed.size() + refused == names.size() && std::set<std::string>(listed.begin(), listed.end()).size() == listed.size();
    for (auto n : listed) ok = ok && names.count(n);
    for (auto n : shorter) ok = ok && std::count(listed.begin(), listed.end(), n) == 1;
    VP_CHECK(ok, "member-names", "the names of %zu members (longest %zu characters) are listed as %zu, %ld refused, not the same ones",
        names.size(), names.empty() ? std::size_t(0) : std::max_element(names.begin(), names.end(), [] (auto& a, auto& b) { return a.size() < b.size(); })->size(), listed.size(), refused);
    vp::observe("member-name", listed.size());
    if (refused) vp::observe("member-name-refused", refused);
    vp::signature(vp::fmt("members %zu refused %ld", names.size(), refused));
    g.close(); file.close();
    unlink(path.c_str());
}

VP_SECTION("numbered file names", 200, 2000)
{
    auto prefix = any_string(rng).substr(0, 50);
    int n = int(rng.range(0, 30000));
    auto a = mara::create_numbered_filename(prefix, n, "h5");
    auto digits = std::to_string(n);
    while (digits.size() < 4) digits = "0" + digits;
    VP_CHECK(a == prefix + "." + digits + ".h5", "numbered-name", "%s for number %d", a.c_str(), n);
}

VP_MAIN()
