// C25: the Fortran interface against the C interface, call by call
#include "capi.h"
#include "tools.h"

#include <fcntl.h>
#include <unistd.h>

#include <memory>

using namespace vf;

extern "C" {
int f_version(char*, int*);
int f_vcs_version(char*, int*);
int f_column_type_name(int, char*, int*);
int f_column_type_count(int*);
void f_error_string(int, char*, int*);
int f_missing_integer(long*);
int f_missing_double(double*);
int f_set_missing_integer(long);
int f_set_missing_double(double);
int f_integer_behaviour(int);
int f_set_failure_handler(long);
void f_handled(int* count, long* ctx, int* err);
int f_reader_open(int, const char*, int);
int f_reader_close(int);
int f_frame_initialise(int, int);
int f_frame_free(int);
int f_frame_copy(int, int);
int f_frame_next(int, int*, long*);
int f_frame_row_count(int, long*);
int f_frame_column_count(int, int*);
int f_frame_column_attributes(int, int, char*, int*, int*, int*, int*, int*);
int f_frame_bitfield_attributes(int, int, int, char*, int*, int*, int*);
int f_frame_properties_count(int, int*);
int f_frame_property_idx(int, int, char*, int*, char*, int*);
int f_frame_property(int, const char*, int, char*, int*, int*);
int f_decoder_initialise(int, int*);
int f_decoder_free(int);
int f_decoder_defaults_from_frame(int, int);
int f_decoder_set_row_count(int, long);
int f_decoder_row_count(int, long*);
int f_decoder_set_data(int, void*, int, int, int, int*);
int f_decoder_data(int, void**, int*, int*, int*);
int f_decoder_add_column(int, const char*, int);
int f_decoder_column_count(int, int*);
int f_decoder_column_set_data_size(int, int, int);
int f_decoder_column_set_data_array(int, int, int*, int*, void*);
int f_decoder_column_data_array(int, int, int*, int*, int*, void**);
int f_decoder_decode(int, int, long*, int*);
int f_encoder_initialise(int);
int f_encoder_free(int);
int f_encoder_set_row_count(int, long);
int f_encoder_set_rows_per_frame(int, long);
int f_encoder_set_data(int, const void*, int, int, int, int*);
int f_encoder_add_column(int, const char*, int, int);
int f_encoder_add_property(int, const char*, int, const char*, int);
int f_encoder_column_set_data_size(int, int, int*, int*);
int f_encoder_column_set_data_array(int, int, int*, int*, int*, const void*);
int f_encoder_column_add_bitfield(int, int, const char*, int, int);
int f_encoder_encode(int, const char*, int, long*, int);
}

namespace {

// One call of a history.  What it means is decided when it is made, from the numbers drawn for it
struct Op {
    int kind = 0;
    std::vector<int> a;
    mutable size_t at = 0;
    int d(int n) const { return n <= 0 || at >= a.size() ? 0 : a[at++] % n; }
    bool chance(int n) const { return d(n) == n - 1; }
    template <class T>
    T pick(std::initializer_list<T> v) const {
        return *(v.begin() + d(int(v.size())));
    }
};

std::vector<Op> genOps(Src& g, size_t lo, size_t hi, const std::vector<int>& weights) {
    std::vector<Op> v;
    size_t n = size_t(g.range(int64_t(lo), int64_t(hi)));
    std::vector<int> w = weights;
    int total = 0;
    for (int x : w)
        total += x;
    for (size_t i = 0; i < n; i++) {
        Op o;
        int64_t k = g.range(0, total - 1);
        while (k >= w[size_t(o.kind)])
            k -= w[size_t(o.kind++)];
        for (int j = 0; j < 14; j++)
            o.a.push_back(int(g.range(0, 5039)));
        v.push_back(o);
    }
    return v;
}

std::string trimmed(std::string s) {
    while (!s.empty() && s.back() == ' ')
        s.pop_back();
    return s;
}

// a string argument, padded with blanks
struct Arg {
    std::string s;
    Arg(const Op& o, const std::string& t) : s(t + std::string(size_t(o.d(4)), ' ')) {}
    const char* p() const { return s.data(); }
    int n() const { return int(s.size()); }
};

// optional argument
template <class T>
struct Opt {
    bool present;
    T v;
    Opt(bool p, T x) : present(p), v(x) {}
    T* ptr() { return present ? &v : nullptr; }
    T operator()(T absent) const { return present ? v : absent; }
};

// receives a string
struct Out {
    std::string buf = std::string(4096, '\1');
    int n           = -1;
    char* p() { return &buf[0]; }
    std::string str() const { return n < 0 ? "(not set)" : quote(buf.substr(0, size_t(n))); }
};

std::string cstr(int rc, const char* s) {
    return rc != 0 ? "(not set)" : s ? quote(s) : "(null)";
}

struct Pair {
    int f = 0;  // Fortran index
    bool freed = false;
};
struct Reader : Pair {
    odc_reader_t* c = nullptr;
    bool closed     = false;
};
struct Frm : Pair {
    odc_frame_t* c = nullptr;
    Reader* reader = nullptr;
    long rows      = 0;
};
struct Mem {
    std::string f, c;
    explicit Mem(size_t n) : f(n, '\x5a'), c(n, '\x5a') {}
};
struct Dec : Pair {
    odc_decoder_t* c = nullptr;
    int threads = 2;
    std::set<int> own;  // columns with their own arrays
};
struct Enc : Pair {
    odc_encoder_t* c = nullptr;
};

struct World {
    std::string log, tmp;
    std::set<std::string> labels;
    std::vector<std::string> paths;
    std::vector<std::unique_ptr<Reader>> readers;
    std::vector<std::unique_ptr<Frm>> frames;
    std::vector<std::unique_ptr<Dec>> decoders;
    std::vector<std::unique_ptr<Mem>> mem;
    size_t succeeded = 0;
    int next = 1;

    [[noreturn]] void fail(const std::string& what) { throw Failure{what + "\nhistory:\n" + log}; }
    void say(const std::string& s) { log += "  " + s + "\n"; }
    template <class A, class B>
    void eq(const A& f, const B& c, const std::string& what) {
        if (!(f == c)) {
            std::ostringstream o;
            o.precision(17);
            o << what << ": " << f << " through Fortran, " << c << " through C";
            fail(o.str());
        }
    }
    void rc(int f, int c, const std::string& what) {
        eq(f, c, what + " returns");
        if (f == 0)
            succeeded++;
        else
            labels.insert("failed call");
    }
    Mem& allocate(size_t n) {
        mem.push_back(std::make_unique<Mem>(n));
        return *mem.back();
    }

    Reader* reader(const Op& o) {
        std::vector<Reader*> v;
        for (auto& r : readers)
            if (!r->closed)
                v.push_back(r.get());
        return v.empty() ? nullptr : v[size_t(o.d(int(v.size())))];
    }
    Frm* frame(const Op& o) {
        std::vector<Frm*> v;
        for (auto& r : frames)
            if (!r->freed && !r->reader->closed)
                v.push_back(r.get());
        return v.empty() ? nullptr : v[size_t(o.d(int(v.size())))];
    }
    Dec* decoder(const Op& o) {
        std::vector<Dec*> v;
        for (auto& r : decoders)
            if (!r->freed)
                v.push_back(r.get());
        return v.empty() ? nullptr : v[size_t(o.d(int(v.size())))];
    }

    // ---------------------------------------------------------------------------------- frames

    Reader* open(const Op& o, const std::string& path) {
        auto r = std::make_unique<Reader>();
        r->f   = next++;
        Arg a(o, path);
        say("reader " + std::to_string(r->f) + ": open " + quote(a.s));
        int rf = f_reader_open(r->f, a.p(), a.n());
        int rb = odc_open_path(&r->c, path.c_str());
        rc(rf, rb, "open_path");
        if (rf != 0)
            return nullptr;
        readers.push_back(std::move(r));
        return readers.back().get();
    }

    Frm* newFrame(Reader* r) {
        auto x    = std::make_unique<Frm>();
        x->f      = next++;
        x->reader = r;
        say("frame " + std::to_string(x->f) + " of reader " + std::to_string(r->f));
        int a = f_frame_initialise(x->f, r->f), b = odc_new_frame(&x->c, r->c);
        rc(a, b, "frame%initialise");
        if (a != 0)
            return nullptr;
        frames.push_back(std::move(x));
        return frames.back().get();
    }

    int advance(const Op& o, Frm* x) {
        Opt<int> agg(o.chance(2), o.d(2));
        Opt<long> max(o.chance(3), o.pick<long>({-1, 1, 2, 3, 5, 10, 100, 0}));
        say("frame " + std::to_string(x->f) + ": next" + (agg.present ? std::string(" aggregated=") + (agg.v ? ".true." : ".false.") : "") +
            (max.present ? " maximum_rows=" + std::to_string(max.v) : ""));
        // documented: aggregated if asked for, or if only a limit is given
        bool aggregated = agg.present ? agg.v != 0 : max.present;
        int a = f_frame_next(x->f, agg.ptr(), max.ptr());
        int b = aggregated ? odc_next_frame_aggregated(x->c, max(-1)) : odc_next_frame(x->c);
        rc(a, b, "frame%next");
        if (aggregated)
            labels.insert("aggregated");
        if (agg.present != max.present)
            labels.insert("one of two optional arguments");
        x->rows = 0;
        if (b == 0)
            odc_frame_row_count(x->c, &x->rows);
        return b;
    }

    void queryFrame(const Op& o, Frm* x) {
        say("frame " + std::to_string(x->f) + ": query");
        long rf = -5, rb = -5;
        int a = f_frame_row_count(x->f, &rf), b = odc_frame_row_count(x->c, &rb);
        rc(a, b, "row_count");
        if (a == 0)
            eq(rf, rb, "row count");
        int cf = -5, cb = -5;
        a = f_frame_column_count(x->f, &cf), b = odc_frame_column_count(x->c, &cb);
        rc(a, b, "column_count");
        if (a == 0)
            eq(cf, cb, "column count");
        else
            cb = 0;
        // calls that fail take their time
        int beyond = o.chance(6) ? 1 : 0;
        for (int k = -beyond; k < cb + beyond; k++) {
            std::string what = "column " + std::to_string(k + 1);
            Out name;
            int t = -7, es = -7, esd = -7, bc = -7;
            bool wn = !o.chance(4), wt = !o.chance(4), we = !o.chance(4), wd = !o.chance(4), wb = !o.chance(4);
            a = f_frame_column_attributes(x->f, k + 1, wn ? name.p() : nullptr, &name.n, wt ? &t : nullptr, we ? &es : nullptr,
                                          wd ? &esd : nullptr, wb ? &bc : nullptr);
            const char* cn = nullptr;
            int ct = -7, ces = -7, cbc = -7;
            b = odc_frame_column_attributes(x->c, k, &cn, &ct, &ces, &cbc);
            rc(a, b, "column_attributes of " + what);
            if (wn)
                eq(name.str(), cstr(b, cn), "name of " + what);
            eq(t, wt ? ct : -7, "type of " + what);
            eq(es, we ? ces : -7, "element size of " + what);
            eq(esd, wd ? (b == 0 ? ces / 8 : -7) : -7, "element size in doubles of " + what);
            eq(bc, wb ? cbc : -7, "number of bitfields of " + what);
            if (b != 0)
                continue;
            for (int m = -beyond; m < cbc + beyond; m++) {
                std::string wm = "bitfield " + std::to_string(m + 1) + " of " + what;
                Out bn;
                int off = -7, sz = -7, coff = -7, csz = -7;
                bool bwn = !o.chance(4), bwo = !o.chance(4), bws = !o.chance(4);
                a = f_frame_bitfield_attributes(x->f, k + 1, m + 1, bwn ? bn.p() : nullptr, &bn.n, bwo ? &off : nullptr,
                                                bws ? &sz : nullptr);
                b = odc_frame_bitfield_attributes(x->c, k, m, &cn, &coff, &csz);
                rc(a, b, "bitfield_attributes of " + wm);
                if (bwn)
                    eq(bn.str(), cstr(b, cn), "name of " + wm);
                eq(off, bwo ? coff : -7, "offset of " + wm);
                eq(sz, bws ? csz : -7, "size of " + wm);
                labels.insert("bitfields");
            }
        }
        int pf = -5, pb = -5;
        a = f_frame_properties_count(x->f, &pf), b = odc_frame_properties_count(x->c, &pb);
        rc(a, b, "properties_count");
        eq(pf, pb, "number of properties");
        if (b != 0)
            pb = 0;
        for (int k = -beyond; k < pb + beyond; k++) {
            Out key, val;
            const char *ck = nullptr, *cv = nullptr;
            a = f_frame_property_idx(x->f, k + 1, key.p(), &key.n, val.p(), &val.n);
            b = odc_frame_property_idx(x->c, k, &ck, &cv);
            rc(a, b, "property_idx " + std::to_string(k + 1));
            eq(key.str(), cstr(b, ck), "key of property " + std::to_string(k + 1));
            eq(val.str(), cstr(b, cv), "value of property " + std::to_string(k + 1));
            if (b == 0 && trimmed(ck) == ck)
                property(o, x, ck);
        }
        property(o, x, "no such property");
        property(o, x, "");
    }

    void property(const Op& o, Frm* x, const std::string& key) {
        Arg k(o, key);
        Out val;
        bool wv = !o.chance(3), we = !o.chance(3);
        const char* v = nullptr;
        int b = odc_frame_property(x->c, key.c_str(), &v);
        // logical results are preset to the wrong answer (odd: true)
        int exists = v ? -8 : -7, before = exists;
        int a = f_frame_property(x->f, k.p(), k.n(), wv ? val.p() : nullptr, &val.n, we ? &exists : nullptr);
        rc(a, b, "property " + quote(key));
        if (b != 0)
            return;
        if (wv)
            eq(val.str(), v ? quote(v) : "(not set)", "property " + quote(key));
        eq(exists, we ? int(v != nullptr) : before, "existence of property " + quote(key));
        if (v)
            labels.insert("properties");
    }

    void freeFrame(Frm* x) {
        say("frame " + std::to_string(x->f) + ": free");
        rc(f_frame_free(x->f), odc_free_frame(x->c), "frame%free");
        x->freed = true;
    }

    // ---------------------------------------------------------------------------------- decoders

    Dec* newDecoder(const Op& o) {
        auto d = std::make_unique<Dec>();
        d->f   = next++;
        Opt<int> cm(o.chance(2), o.d(2));
        say("decoder " + std::to_string(d->f) + (cm.present ? std::string(" column_major=") + (cm.v ? ".true." : ".false.") : ""));
        int a = f_decoder_initialise(d->f, cm.ptr()), b = odc_new_decoder(&d->c);
        if (b == 0)
            b = odc_decoder_set_column_major(d->c, cm(1) != 0);
        rc(a, b, "decoder%initialise");
        decoders.push_back(std::move(d));
        return decoders.back().get();
    }

    void compareDecoder(Dec* d, bool content, int beyond = 0) {
        long rf = -5, rb = -5;
        rc(f_decoder_row_count(d->f, &rf), odc_decoder_row_count(d->c, &rb), "decoder%row_count");
        eq(rf, rb, "row count of the decoder");
        int nf = -5, nb = -5;
        rc(f_decoder_column_count(d->f, &nf), odc_decoder_column_count(d->c, &nb), "decoder%column_count");
        eq(nf, nb, "column count of the decoder");
        void* pf = nullptr;
        const void* pb = nullptr;
        int d1 = -1, d2 = -1;
        long w = -5, h = -5;
        bool bcm = false;
        if (nb == 0 && beyond == 0)
            return;
        int b = odc_decoder_data_array(d->c, &pb, &w, &h, &bcm);
        int cm = bcm ? -8 : -7;
        int a = f_decoder_data(d->f, &pf, &d1, &d2, &cm);
        rc(a, b, "decoder%data");
        if (b == 0) {
            eq(cm, int(bcm), "column major");
            eq(d1, int(bcm ? h : w / 8), "first dimension of the data");
            eq(d2, int(bcm ? w / 8 : h), "second dimension of the data");
            if (content && w > 0 && h > 0)
                compare(pf, pb, size_t(w) * size_t(h), "decoded array");
            int only = bcm ? -8 : -7;
            rc(f_decoder_data(d->f, nullptr, &d1, &d2, &only), 0, "decoder%data(column_major)");
            eq(only, int(bcm), "column major asked for alone");
        }
        for (int k = -beyond; k < nb + beyond; k++) {
            int es = -7, esd = -7, st = -7, ces = -7, cst = -7;
            void* df = nullptr;
            const void* db = nullptr;
            a = f_decoder_column_data_array(d->f, k + 1, &es, &esd, &st, &df);
            b = odc_decoder_column_data_array(d->c, k, &ces, &cst, &db);
            rc(a, b, "column_data_array of column " + std::to_string(k + 1));
            if (b != 0)
                continue;
            eq(es, ces, "element size of column " + std::to_string(k + 1));
            eq(esd, ces / 8, "element size in doubles of column " + std::to_string(k + 1));
            eq(st, cst, "stride of column " + std::to_string(k + 1));
            eq(df != nullptr, db != nullptr, "data of column " + std::to_string(k + 1) + " set");
            if (df) {
                std::string wf = place(df, pf, true), wb = place(db, pb, false);
                eq(wf, wb, "place of column " + std::to_string(k + 1));
            }
        }
    }

    // where a pointer points to
    std::string place(const void* p, const void* base, bool f) {
        auto* q = static_cast<const char*>(p);
        for (size_t i = 0; i < mem.size(); i++) {
            auto& s = f ? mem[i]->f : mem[i]->c;
            if (q >= s.data() && q <= s.data() + s.size())
                return "memory " + std::to_string(i) + " + " + std::to_string(q - s.data());
        }
        return "library + " + std::to_string(q - static_cast<const char*>(base));
    }

    void compare(const void* f, const void* c, size_t n, const std::string& what) {
        if (memcmp(f, c, n) == 0)
            return;
        size_t i = 0;
        while (static_cast<const char*>(f)[i] == static_cast<const char*>(c)[i])
            i++;
        i = i / 8 * 8;
        fail(what + ": byte " + std::to_string(i) + " of " + std::to_string(n) + ": " +
             hex(std::string(static_cast<const char*>(f) + i, std::min<size_t>(8, n - i))) + " through Fortran, " +
             hex(std::string(static_cast<const char*>(c) + i, std::min<size_t>(8, n - i))) + " through C");
    }

    void defaults(Dec* d, Frm* x) {
        say("decoder " + std::to_string(d->f) + ": defaults from frame " + std::to_string(x->f));
        rc(f_decoder_defaults_from_frame(d->f, x->f), odc_decoder_defaults_from_frame(d->c, x->c), "defaults_from_frame");
    }

    void setRows(const Op& o, Dec* d, long n) {
        say("decoder " + std::to_string(d->f) + ": set_row_count " + std::to_string(n));
        rc(f_decoder_set_row_count(d->f, n), odc_decoder_set_row_count(d->c, n), "decoder%set_row_count");
    }

    void addColumn(const Op& o, Dec* d, const std::string& name) {
        Arg a(o, name);
        say("decoder " + std::to_string(d->f) + ": add_column " + quote(a.s));
        rc(f_decoder_add_column(d->f, a.p(), a.n()), odc_decoder_add_column(d->c, name.c_str()), "decoder%add_column");
    }

    void setSize(const Op& o, Dec* d, int cols) {
        int k  = o.d(cols + 2) - 1;
        int es = o.pick({0, 8, 16, 24, 40, 4, -8});
        // the size of the elements of an array, and its stride, are given with the array
        if (d->own.count(k))
            return;
        say("decoder " + std::to_string(d->f) + ": column_set_data_size " + std::to_string(k + 1) + " " + std::to_string(es));
        rc(f_decoder_column_set_data_size(d->f, k + 1, es), odc_decoder_column_set_data_size(d->c, k, es), "column_set_data_size");
        d->threads = 1;
    }

    void setColumnArray(const Op& o, Dec* d, int cols, long maxRows) {
        int k = o.d(cols + 2) - 1;
        int e = o.pick({8, 16, 40, 0, 64});
        Opt<int> es(!o.chance(3), e);
        Opt<int> st(o.chance(2), std::max(es(8), 8) + 8 * o.d(3));
        if (o.chance(12))
            es = Opt<int>(true, 4);
        bool data = !o.chance(4);
        Mem* m    = data ? &allocate(size_t(maxRows + 2) * size_t(std::max(st(0), 64)) + 64) : nullptr;
        say("decoder " + std::to_string(d->f) + ": column_set_data_array " + std::to_string(k + 1) +
            (es.present ? " element_size=" + std::to_string(es.v) : "") + (st.present ? " stride=" + std::to_string(st.v) : "") +
            (data ? " data" : ""));
        rc(f_decoder_column_set_data_array(d->f, k + 1, es.ptr(), st.ptr(), m ? &m->f[0] : nullptr),
           odc_decoder_column_set_data_array(d->c, k, es(0), st(0), m ? &m->c[0] : nullptr), "column_set_data_array");
        if (data)
            d->own.insert(k);
        if (!es.present || !st.present || !data)
            labels.insert("some optional arguments of an array");
    }

    void setData(const Op& o, Dec* d, long rows, long width) {
        Opt<int> cm(o.chance(2), o.d(2));
        bool major = cm(1) != 0;
        int d1 = int(major ? rows : width), d2 = int(major ? width : rows);
        int step = o.chance(6) ? 2 : 1;
        Mem& m   = allocate(size_t(d1) * size_t(d2) * 8);
        say("decoder " + std::to_string(d->f) + ": set_data(" + std::to_string(d1) + ", " + std::to_string(d2) + ")" +
            (cm.present ? std::string(" column_major=") + (cm.v ? ".true." : ".false.") : "") + (step > 1 ? ", every other element" : ""));
        if (step > 1 && (d1 > 2 || (d1 == 2 && d2 > 1))) {
            // an array that is not contiguous can only be refused
            if (f_decoder_set_data(d->f, &m.f[0], d1, d2, step, cm.ptr()) == 0)
                fail("a section of an array is taken for the array");
            labels.insert("array section");
            return;
        }
        rc(f_decoder_set_data(d->f, &m.f[0], d1, d2, 1, cm.ptr()),
           odc_decoder_set_data_array(d->c, &m.c[0], long(major ? d2 : d1) * 8, major ? d1 : d2, major), "decoder%set_data");
        labels.insert(major ? "column-major array" : "row-major array");
    }

    void decode(const Op& o, Dec* d, Frm* x) {
        Opt<int> n(o.chance(2), o.chance(8) ? 0 : 1 + o.d(d->threads));
        say("decoder " + std::to_string(d->f) + ": decode frame " + std::to_string(x->f) +
            (n.present ? " nthreads=" + std::to_string(n.v) : ""));
        long rf = -5, rb = -5;
        int a = f_decoder_decode(d->f, x->f, &rf, n.ptr());
        int b = n.present ? odc_decode_threaded(d->c, x->c, &rb, n.v) : odc_decode(d->c, x->c, &rb);
        rc(a, b, "decode");
        if (b == 0) {
            eq(rf, rb, "rows decoded");
            for (size_t i = 0; i < mem.size(); i++)
                compare(mem[i]->f.data(), mem[i]->c.data(), mem[i]->f.size(), "memory " + std::to_string(i));
            labels.insert("decoded");
        }
        else {
            // what a failed decode leaves behind is not compared
            for (auto& m : mem)
                m->f.assign(m->f.size(), '\x5a'), m->c.assign(m->c.size(), '\x5a');
        }
        long rows = -1;
        odc_decoder_row_count(d->c, &rows);
        compareDecoder(d, b == 0 && rb == rows);
    }

    void freeDecoder(Dec* d) {
        say("decoder " + std::to_string(d->f) + ": free");
        rc(f_decoder_free(d->f), odc_free_decoder(d->c), "decoder%free");
        d->freed = true;
    }

    std::vector<std::string> names(Frm* x) {
        std::vector<std::string> v;
        int n = 0;
        if (odc_frame_column_count(x->c, &n) != 0)
            return v;
        for (int k = 0; k < n; k++) {
            const char* s = nullptr;
            odc_frame_column_attributes(x->c, k, &s, nullptr, nullptr, nullptr);
            v.push_back(s);
        }
        return v;
    }
};

// outcome of a history run in a child
void outcome(Ctx& c, const std::string& s) {
    std::istringstream in(s);
    std::string line;
    size_t n = 0;
    in >> n;
    std::getline(in, line);
    while (std::getline(in, line))
        c.label(line);
    c.nontrivial = n >= 10;
}

std::string outcome(const World& w) {
    std::string s = std::to_string(w.succeeded) + "\n";
    for (auto& l : w.labels)
        s += l + "\n";
    return s;
}

std::string genFile(Ctx& c, const gen::Opts& o, long& maxRows, long& width, const std::string& name) {
    std::string bytes;
    ref::Frame last;
    size_t n = size_t(c.g.range(1, 4));
    long total = 0;
    for (size_t i = 0; i < n; i++) {
        ref::Frame f = i == 0 || c.g.chance(1, 4) ? gen::genTable(c.g, o) : gen::genLike(c.g, last, o);
        f.props      = gen::genProps(c.g);
        bytes += gen::encodeAny(c.g, f);
        last = f;
        total += long(f.nrows);
        long w = 0;
        for (auto& x : f.cols)
            w += long(std::max<size_t>(x.width, 8)) / 8;
        width = std::max(width, w);
        c.note(gen::describe(f, 3));
    }
    maxRows = std::max(maxRows, total);
    std::string path = c.tmp + "/" + name;
    writeFile(path, bytes);
    c.artifact(name, bytes);
    return path;
}

void reading(Ctx& c, const gen::Opts& o, size_t most) {
    long maxRows = 0, width = 0;
    std::vector<std::string> paths{genFile(c, o, maxRows, width, "a.odb")};
    if (c.g.chance(1, 3))
        paths.push_back(genFile(c, o, maxRows, width, "b.odb"));
    bool longs = c.g.chance(1, 3);
    auto ops   = genOps(c.g, 4, most, {2, 3, 10, 6, 2, 1, 1,   // open frame next query copy free close
                                     9, 4, 3, 3, 2, 3, 4, 10, 1});  // new-decoder defaults rows add size array data decode free
    outcome(c, tools::lib(c.tmp, [&] {
        World w;
        // the same setting through either interface
        if (f_integer_behaviour(longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES) != 0)
            throw Failure{"odc_integer_behaviour fails"};
        Op first;
        Reader* r0 = w.open(first, paths[0]);
        if (!r0)
            throw Failure{"opening a file fails"};
        w.newFrame(r0);
        w.advance(first, w.frames[0].get());
        for (auto& op : ops) {
            Frm* x = w.frame(op);
            Dec* d = w.decoder(op);
            int nc = 0;
            if (d)
                odc_decoder_column_count(d->c, &nc);
            switch (op.kind) {
                case 0:
                    w.open(op, op.chance(6) ? c.tmp + "/none.odb" : paths[size_t(op.d(int(paths.size())))]);
                    break;
                case 1:
                    if (Reader* r = w.reader(op))
                        w.newFrame(r);
                    break;
                case 2:
                    if (x)
                        w.advance(op, x);
                    break;
                case 3:
                    if (x)
                        w.queryFrame(op, x);
                    break;
                case 4:
                    if (x) {
                        auto y    = std::make_unique<Frm>();
                        y->f      = w.next++;
                        y->reader = x->reader;
                        y->rows   = x->rows;
                        w.say("frame " + std::to_string(y->f) + ": copy of frame " + std::to_string(x->f));
                        w.rc(f_frame_copy(x->f, y->f), odc_copy_frame(x->c, &y->c), "frame%copy");
                        w.frames.push_back(std::move(y));
                    }
                    break;
                case 5:
                    if (x)
                        w.freeFrame(x);
                    break;
                case 6:
                    if (Reader* r = w.reader(op)) {
                        for (auto& y : w.frames)
                            if (y->reader == r && !y->freed)
                                w.freeFrame(y.get());
                        w.say("reader " + std::to_string(r->f) + ": close");
                        w.rc(f_reader_close(r->f), odc_close(r->c), "reader%close");
                        r->closed = true;
                        // a closed reader is as one that was never opened
                        int k = w.next++;
                        if (f_frame_initialise(k, r->f) == 0)
                            w.fail("a frame of a closed reader");
                    }
                    break;
                case 7: {
                    Dec* e = w.newDecoder(op);
                    if (x && !op.chance(3)) {
                        w.defaults(e, x);
                        if (!op.chance(3))
                            w.setData(op, e, std::max<long>(1, x->rows + op.d(3)), width + op.d(3));
                        else
                            w.setRows(op, e, x->rows + op.d(2));
                        w.decode(op, e, x);
                    }
                    break;
                }
                case 8:
                    if (d && x)
                        w.defaults(d, x);
                    break;
                case 9:
                    if (d)
                        w.setRows(op, d, op.pick<long>({x ? x->rows : 1, x ? x->rows + 1 : 0, maxRows, 1, 0, -1}));
                    break;
                case 10:
                    if (d) {
                        auto v = x ? w.names(x) : std::vector<std::string>{};
                        w.addColumn(op, d, v.empty() || op.chance(10) ? "no_such_column" : v[size_t(op.d(int(v.size())))]);
                    }
                    break;
                case 11:
                    if (d)
                        w.setSize(op, d, nc);
                    break;
                case 12:
                    if (d)
                        w.setColumnArray(op, d, nc, maxRows);
                    break;
                case 13:
                    if (d)
                        w.setData(op, d, std::max<long>(1, x ? x->rows + op.d(2) : op.d(5)), 1 + op.d(int(width) + 2));
                    break;
                case 14:
                    if (d && x) {
                        w.decode(op, d, x);
                        // other sizes than what has been laid out
                        if (op.chance(3)) {
                            w.setSize(op, d, nc);
                            w.decode(op, d, x);
                        }
                    }
                    break;
                case 15:
                    if (d)
                        w.freeDecoder(d);
                    break;
            }
        }
        for (auto& d : w.decoders)
            if (!d->freed)
                w.compareDecoder(d.get(), false, 1), w.freeDecoder(d.get());
        for (auto& x : w.frames)
            if (!x->freed && !x->reader->closed)
                w.freeFrame(x.get());
        for (auto& r : w.readers)
            if (!r->closed)
                w.rc(f_reader_close(r->f), odc_close(r->c), "reader%close");
        return outcome(w);
    }));
}

long sink(void* p, const void* b, long n) {
    static_cast<std::string*>(p)->append(static_cast<const char*>(b), size_t(n));
    return n;
}

void encoding(Ctx& c, const gen::Opts& o) {
    std::vector<ref::Frame> v;
    size_t n = size_t(c.g.range(1, 3));
    for (size_t i = 0; i < n; i++) {
        v.push_back(gen::genTable(c.g, o));
        v.back().props = gen::genProps(c.g);
        c.note(gen::describe(v.back(), 3));
    }
    bool longs = c.g.chance(1, 2);
    auto ops   = genOps(c.g, n, n, {1});
    for (auto& op : ops)
        for (int j = 0; j < 120; j++)
            op.a.push_back(int(c.g.range(0, 5039)));
    outcome(c, tools::lib(c.tmp, [&] {
        World w;
        capi::setLongs(longs);
        for (size_t i = 0; i < n; i++) {
            auto& op = ops[i];
            auto& f  = v[i];
            Enc e;
            e.f = w.next++;
            w.say("encoder " + std::to_string(e.f));
            w.rc(f_encoder_initialise(e.f), odc_new_encoder(&e.c), "encoder%initialise");
            // columns
            bool exact = !op.chance(12);
            for (size_t k = 0; k < f.cols.size(); k++) {
                auto& x = f.cols[k];
                Arg name(op, x.name);
                w.rc(f_encoder_add_column(e.f, name.p(), name.n(), x.type), odc_encoder_add_column(e.c, x.name.c_str(), x.type),
                     "encoder%add_column");
                for (auto& b : x.bits) {
                    Arg bn(op, b.name);
                    int size = op.chance(60) ? 33 : b.size;
                    w.rc(f_encoder_column_add_bitfield(e.f, int(k) + 1, bn.p(), bn.n(), size),
                         odc_encoder_column_add_bitfield(e.c, int(k), b.name.c_str(), size), "column_add_bitfield");
                    w.labels.insert("bitfields");
                }
            }
            int kind = op.d(3);
            // sizes
            size_t doubles = 0;
            for (size_t k = 0; k < f.cols.size(); k++) {
                auto& x   = f.cols[k];
                int width = int(x.width);
                doubles += x.width / 8;
                if (kind == 2 || (width == 8 && op.chance(2)))
                    continue;
                Opt<int> es(op.chance(2), width), esd(!es.present || op.chance(4), width / 8);
                if (!exact && op.chance(4))
                    es.present = esd.present = false;
                // the second takes precedence
                if (es.present && esd.present && op.chance(2))
                    es.v = 8 * (1 + op.d(3));
                w.say("column " + std::to_string(k + 1) + ": size" + (es.present ? " element_size=" + std::to_string(es.v) : "") +
                      (esd.present ? " element_size_doubles=" + std::to_string(esd.v) : ""));
                int want = esd.present ? 8 * esd.v : es(0);
                w.rc(f_encoder_column_set_data_size(e.f, int(k) + 1, es.ptr(), esd.ptr()),
                     odc_encoder_column_set_data_size(e.c, int(k), want), "column_set_data_size");
            }
            int bad = op.pick({0, -1, int(f.cols.size()) + 1, 1000});
            Opt<int> eight(true, 8);
            w.rc(f_encoder_column_set_data_size(e.f, bad, eight.ptr(), nullptr), odc_encoder_column_set_data_size(e.c, bad - 1, 8),
                 "column_set_data_size of a column that is not there");
            for (auto& p : f.props) {
                Arg a(op, trimmed(p.first)), b(op, trimmed(p.second));
                w.rc(f_encoder_add_property(e.f, a.p(), a.n(), b.p(), b.n()),
                     odc_encoder_add_property(e.c, trimmed(p.first).c_str(), trimmed(p.second).c_str()), "add_property");
                w.labels.insert("properties");
            }
            // source
            std::vector<std::unique_ptr<std::string>> src;
            auto cell = [&](size_t k, size_t r) {
                std::string s(f.cols[k].width, '\0');
                capi::putCell(f.cols[k], f.cols[k].cells[r], &s[0], s.size());
                return s;
            };
            if (kind < 2) {
                bool major   = kind == 0;
                size_t extra = size_t(op.d(3)), rows = f.nrows + (op.chance(4) ? size_t(1 + op.d(3)) : 0);
                size_t width = doubles + extra;
                src.push_back(std::make_unique<std::string>(width * rows * 8, '\x33'));
                size_t col = 0;
                for (size_t k = 0; k < f.cols.size(); k++) {
                    for (size_t r = 0; r < f.nrows; r++) {
                        std::string s = cell(k, r);
                        for (size_t d = 0; d < s.size() / 8; d++)
                            memcpy(&(*src.back())[(major ? (col + d) * rows + r : r * width + col + d) * 8], &s[d * 8], 8);
                    }
                    col += f.cols[k].width / 8;
                }
                Opt<int> cm(!major || op.chance(2), int(major));
                if (rows != f.nrows || op.chance(3)) {
                    w.say("set_row_count " + std::to_string(f.nrows));
                    w.rc(f_encoder_set_row_count(e.f, long(f.nrows)), odc_encoder_set_row_count(e.c, long(f.nrows)), "set_row_count");
                }
                int d1 = int(major ? rows : width), d2 = int(major ? width : rows);
                if (op.chance(5) && d1 > 2) {
                    if (f_encoder_set_data(e.f, src.back()->data(), d1, d2, 2, cm.ptr()) == 0)
                        w.fail("a section of an array is taken for the array");
                    w.labels.insert("array section");
                }
                w.say("set_data(" + std::to_string(d1) + ", " + std::to_string(d2) + ")" +
                      (cm.present ? std::string(" column_major=") + (cm.v ? ".true." : ".false.") : ""));
                w.rc(f_encoder_set_data(e.f, src.back()->data(), d1, d2, 1, cm.ptr()),
                     odc_encoder_set_data_array(e.c, src.back()->data(), long(width) * 8, long(rows), major ? 8 : 0), "encoder%set_data");
                w.labels.insert(major ? "column-major array" : "row-major array");
            }
            else {
                w.rc(f_encoder_set_row_count(e.f, long(f.nrows)), odc_encoder_set_row_count(e.c, long(f.nrows)), "set_row_count");
                for (size_t k = 0; k < f.cols.size(); k++) {
                    int width = int(f.cols[k].width);
                    bool none = width == 8 && op.chance(2);
                    Opt<int> es(!none && op.chance(2), width), esd(!none && (!es.present || op.chance(4)), width / 8);
                    Opt<int> st(op.chance(2), width + 8 * op.d(3));
                    if (es.present && esd.present && op.chance(2))
                        es.v = 8 * (1 + op.d(3));
                    size_t stride = st.present ? size_t(st.v) : size_t(width);
                    bool data = exact || !op.chance(4);
                    src.push_back(std::make_unique<std::string>(stride * f.nrows + 64, '\x33'));
                    for (size_t r = 0; r < f.nrows; r++)
                        memcpy(&(*src.back())[r * stride], cell(k, r).data(), size_t(width));
                    w.say("column " + std::to_string(k + 1) + ": array" + (es.present ? " element_size=" + std::to_string(es.v) : "") +
                          (esd.present ? " element_size_doubles=" + std::to_string(esd.v) : "") +
                          (st.present ? " stride=" + std::to_string(st.v) : "") + (data ? " data" : ""));
                    const void* p = data ? src.back()->data() : nullptr;
                    w.rc(f_encoder_column_set_data_array(e.f, int(k) + 1, es.ptr(), esd.ptr(), st.ptr(), p),
                         odc_encoder_column_set_data_array(e.c, int(k), esd.present ? 8 * esd.v : es(0), st(0), p), "column_set_data_array");
                    if (!st.present || none)
                        w.labels.insert("some optional arguments of an array");
                }
                w.labels.insert("arrays per column");
            }
            if (op.chance(2)) {
                long m = op.pick<long>({1, 2, 3, 7, 100000, 0});
                w.say("set_rows_per_frame " + std::to_string(m));
                w.rc(f_encoder_set_rows_per_frame(e.f, m), odc_encoder_set_rows_per_frame(e.c, m), "set_rows_per_frame");
            }
            std::vector<std::string> before;
            for (auto& s : src)
                before.push_back(*s);
            Arg path(op, c.tmp + "/f" + std::to_string(e.f) + ".odb");
            // a unit that cannot be written to
            if (op.chance(6)) {
                writeFile(trimmed(path.s), "");
                long bytes = -5;
                w.say("encode to a unit that cannot be written to");
                if (f_encoder_encode(e.f, path.p(), path.n(), &bytes, 1) == 0) {
                    std::string out;
                    long cb = -5;
                    if (odc_encode_to_stream(e.c, &out, sink, &cb) != 0 || !out.empty())
                        w.fail("encoding to a unit that cannot be written to succeeds");
                }
                w.labels.insert("unit that cannot be written to");
            }
            int times = 1 + op.d(2);
            for (int t = 0; t < times; t++) {
                long bf = -5, bb = -5;
                w.say("encode");
                std::string out;
                int a = f_encoder_encode(e.f, path.p(), path.n(), &bf, 0);
                int b = odc_encode_to_stream(e.c, &out, sink, &bb);
                w.rc(a, b, "encode");
                std::string got = readFile(trimmed(path.s));
                if (b == 0) {
                    w.eq(bf, bb, "bytes encoded");
                    w.eq(got.size(), out.size(), "size of the output");
                    w.compare(got.data(), out.data(), got.size(), "output");
                    w.labels.insert("encoded");
                }
            }
            for (size_t k = 0; k < src.size(); k++)
                if (*src[k] != before[k])
                    w.fail("encoding changes its source");
            w.rc(f_encoder_free(e.f), odc_free_encoder(e.c), "encoder%free");
        }
        return outcome(w);
    }));
}

void settings(Ctx& c) {
    std::vector<double> doubles;
    std::vector<long> longs;
    for (int i = 0; i < 4; i++) {
        doubles.push_back(c.g.pick({-2147483647.0, 0.0, -1e30, 0.1, 1e-300, double(INFINITY)}));
        longs.push_back(long(c.g.edgy(-2147483648LL, 2147483647LL)));
    }
    std::vector<int> ints;
    for (int i = 0; i < 6; i++)
        ints.push_back(int(c.g.range(-3, 12)));
    long context = long(c.g.edgy(-9000000000000LL, 9000000000000LL));
    outcome(c, tools::lib(c.tmp, [&] {
        World w;
        Out s;
        const char* cs = nullptr;
        int a = f_version(s.p(), &s.n), b = odc_version(&cs);
        w.rc(a, b, "odc_version");
        w.eq(s.str(), cstr(b, cs), "version");
        a = f_vcs_version(s.p(), &s.n), b = odc_vcs_version(&cs);
        w.rc(a, b, "odc_vcs_version");
        w.eq(s.str(), cstr(b, cs), "vcs version");
        int nf = -5, nb = -5;
        w.rc(f_column_type_count(&nf), odc_column_type_count(&nb), "odc_column_type_count");
        w.eq(nf, nb, "number of column types");
        for (int t : ints) {
            Out x;
            cs = nullptr;
            a = f_column_type_name(t, x.p(), &x.n), b = odc_column_type_name(t, &cs);
            w.rc(a, b, "odc_column_type_name");
            w.eq(x.str(), cstr(b, cs), "name of type " + std::to_string(t));
            Out y;
            f_error_string(t, y.p(), &y.n);
            w.eq(y.str(), cstr(0, odc_error_string(t)), "text of error " + std::to_string(t));
            w.rc(f_integer_behaviour(t), odc_integer_behaviour(t), "odc_integer_behaviour");
        }
        for (size_t i = 0; i < longs.size(); i++) {
            long lf = 0, lb = 0;
            double df = 0, db = 0;
            a = f_set_missing_integer(longs[i]);
            w.rc(f_missing_integer(&lf), odc_missing_integer(&lb), "odc_missing_integer");
            w.eq(lf, lb, "missing integer");
            w.eq(a == 0 ? lf : longs[i], longs[i], "missing integer set");
            a = f_set_missing_double(doubles[i]);
            w.rc(f_missing_double(&df), odc_missing_double(&db), "odc_missing_double");
            w.eq(df, db, "missing double");
            w.eq(a == 0 ? df : doubles[i], doubles[i], "missing double set");
        }
        // the failure handler is told of every failed call
        int count = 0, err = 0;
        long ctx = 0;
        w.eq(f_set_failure_handler(context), 0, "odc_set_failure_handler");
        int rc = f_reader_open(1, "/nonexistent/file", 17);
        f_handled(&count, &ctx, &err);
        w.eq(rc == 0, false, "a file that does not exist opened");
        w.eq(count, 1, "calls of the failure handler");
        w.eq(ctx, context, "context given to the failure handler");
        w.eq(err, rc, "error given to the failure handler");
        Out x;
        rc = f_column_type_name(ints[0], x.p(), &x.n);
        f_handled(&count, &ctx, &err);
        w.eq(count, rc == 0 ? 1 : 2, "calls of the failure handler after another call");
        odc_set_failure_handler(nullptr, nullptr);
        return outcome(w);
    }));
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C25";
    s.rule =
        "histories of calls made through the Fortran interface and, with the arguments its documentation maps them to, "
        "through the C interface: opening, advancing, copying and querying readers and frames, configuring decoders "
        "(defaults, rows, columns, sizes, arrays, with every combination of optional arguments) and decoding, encoding "
        "tables from row-major, column-major and per-column arrays, settings and the failure handler; return codes, "
        "results, decoded memory and encoded bytes must be the same; non-trivial: at least 10 calls that succeed";
    gen::Opts o;
    o.maxRows = 10, o.maxCols = 5, o.edgeShape = false;
    s.subs.push_back({"reading", [=](Ctx& c) { reading(c, o, 25); }, 2200, 100000});
    s.subs.push_back({"long histories", [=](Ctx& c) { reading(c, o, 80); }, 250, 30000});
    s.subs.push_back({"encoding", [=](Ctx& c) { encoding(c, o); }, 1300, 80000});
    s.subs.push_back({"settings", [=](Ctx& c) { settings(c); }, 40, 1000});
    s.assumptions = {"handles are not used after they have been freed",
                     "what a failed decode leaves in memory is not compared"};
    return vf::main(argc, argv, s);
}
