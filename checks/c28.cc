// C28: encoding and rewriting are deterministic and leave their input alone
#include "capi.h"
#include "rows.h"

#include <alloca.h>
#include <fcntl.h>
#include <malloc.h>
#include <unistd.h>

#include <thread>

#include "eckit/io/MemoryHandle.h"
#include "odc/Reader.h"
#include "odc/Writer.h"

using namespace vf;

namespace {

// What memory which is not initialised holds is made to differ from one encoding to the next
__attribute__((noinline)) void dirtyStack(int byte) {
    volatile char* p = static_cast<volatile char*>(alloca(96 * 1024));
    for (size_t i = 0; i < 96 * 1024; i++)
        p[i] = char(byte);
}
void dirty(Ctx& c) {
    int byte = int(c.g.range(0, 255));
    mallopt(M_PERTURB, byte);
    std::vector<char*> v;
    for (size_t n : {16, 24, 32, 48, 64, 100, 200, 500, 1000, 5000, 70000})
        for (int i = 0; i < 6; i++) {
            char* p = static_cast<char*>(malloc(n));
            memset(p, byte ^ 0x55, n);
            v.push_back(p);
        }
    for (char* p : v)
        free(p);
    dirtyStack(byte);
}

std::string where(const std::string& a, const std::string& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        i++;
    std::ostringstream o;
    o << a.size() << " and " << b.size() << " bytes, differing from byte " << i << " on: "
      << hex(a.substr(i, 24)) << " / " << hex(b.substr(i, 24));
    return o.str();
}

// something else that happens in the process
void disturb(Ctx& c, const gen::Opts& o, const std::string& bytes) {
    switch (c.g.index(7)) {
        case 0: {
            c.note("another table is encoded");
            ref::Frame f = gen::genTable(c.g, o);
            capi::encode(f, capi::genLayout(c.g, f));
            break;
        }
        case 1: {
            c.note("the data is read");
            capi::readAll(bytes);
            break;
        }
        case 2: {
            c.note("the data is read by rows");
            bool longs = capi::longs();
            rows::read(bytes);
            capi::setLongs(longs);
            break;
        }
        case 3: {
            c.note("an encoding fails");
            ref::Frame f = gen::genTable(c.g, o);
            capi::Encoding e;
            e.setup(f, capi::Layout());
            // a table with a column that is already there
            if (odc_encoder_add_column(e.enc, "extra", ODC_INTEGER) == ODC_SUCCESS) {
                std::string sink;
                odc_encode_to_stream(
                    e.enc, &sink, [](void*, const void*, long) -> long { return -1; }, nullptr);
            }
            break;
        }
        case 4: {
            c.note("missing values are configured and restored");
            OK(odc_set_missing_integer(5));
            OK(odc_set_missing_double(7));
            ref::Frame f = gen::genTable(c.g, o);
            for (auto& x : f.cols)
                x.missing = ref::defaultMissing(x.type);
            std::string sink;
            capi::Encoding e;
            e.setup(f, capi::Layout());
            odc_encode_to_stream(
                e.enc, &sink, [](void*, const void*, long n) -> long { return n; }, nullptr);
            OK(odc_set_missing_integer(long(ref::MISSING_INT)));
            OK(odc_set_missing_double(ref::MISSING_REAL));
            break;
        }
        case 5: {
            c.note("integers are exchanged the other way meanwhile");
            bool longs = capi::longs();
            capi::setLongs(!longs);
            ref::Frame f = gen::genTable(c.g, o);
            capi::readAll(capi::encode(f));
            capi::setLongs(longs);
            break;
        }
        default: {
            c.note("data that is not valid is read");
            std::string bad = bytes.substr(0, bytes.size() / 2);
            odc_reader_t* r = nullptr;
            odc_frame_t* f  = nullptr;
            OK(odc_open_buffer(&r, bad.data(), long(bad.size())));
            OK(odc_new_frame(&f, r));
            for (int i = 0; i < 3; i++)
                if (odc_next_frame(f) != ODC_SUCCESS)
                    break;
            odc_free_frame(f);
            odc_close(r);
        }
    }
}

capi::Layout another(Ctx& c, const ref::Frame& f, long rowsPerFrame) {
    capi::Layout l = capi::genLayout(c.g, f);
    l.rowsPerFrame = rowsPerFrame;
    if (c.g.chance(1, 3))
        l.padding = char(c.g.range(1, 255));
    return l;
}

std::string encodeToFd(Ctx& c, capi::Encoding& e) {
    std::string path = c.tmp + "/fd.odb";
    int fd           = ::open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    long n           = -1;
    int rc           = odc_encode_to_file_descriptor(e.enc, fd, &n);
    ::close(fd);
    capi::ok(rc, "odc_encode_to_file_descriptor");
    std::string s = readFile(path);
    VF_CHECK(c, n == long(s.size()), "reported " << n << " bytes, wrote " << s.size());
    return s;
}

std::string encodeToBuffer(capi::Encoding& e, size_t size) {
    std::string buf(size + 100, '\x33');
    long n = -1;
    OK(odc_encode_to_buffer(e.enc, &buf[0], long(buf.size()), &n));
    buf.resize(size_t(n));
    return buf;
}

void deterministic(Ctx& c, const gen::Opts& o) {
    capi::setLongs(c.g.chance(1, 2));
    ref::Frame f      = gen::genTable(c.g, o);
    long rowsPerFrame = capi::genLayout(c.g, f).rowsPerFrame;
    capi::Layout first = another(c, f, rowsPerFrame);
    c.note(gen::describe(f, 6));
    c.note(first.text());
    dirty(c);
    std::string want = capi::encode(f, first);
    c.artifact("first.odb", want);
    size_t n    = size_t(c.g.range(1, 5));
    size_t hist = 0;
    std::set<int> kinds{first.kind};
    for (size_t i = 0; i < n; i++) {
        while (c.g.chance(1, 2) && hist < 6) {
            disturb(c, o, want);
            hist++;
        }
        capi::Layout l = another(c, f, rowsPerFrame);
        kinds.insert(l.kind);
        dirty(c);
        capi::Encoding e;
        e.setup(f, l);
        size_t times = size_t(c.g.range(1, 2));
        for (size_t t = 0; t < times; t++) {
            std::string got;
            std::string how;
            switch (c.g.index(3)) {
                case 0:
                    how = "stream";
                    got = capi::drain(e.enc);
                    break;
                case 1:
                    how = "file descriptor";
                    got = encodeToFd(c, e);
                    break;
                default:
                    how = "buffer";
                    got = encodeToBuffer(e, want.size());
            }
            c.note(l.text() + " to a " + how);
            VF_CHECK(c, e.sourceUntouched(), "encoding changed the source");
            VF_CHECK(c, got == want, "the same table encoded again (" << l.text() << ", to a " << how << (t ? ", same encoder" : "")
                                                                     << "): " << where(want, got));
            dirty(c);
        }
    }
    c.labelIf(kinds.size() > 1, "several layouts");
    c.labelIf(hist > 0, "other things happened");
    c.nontrivial = f.nrows > 1 && (kinds.size() > 1 || hist > 0);
}

// joined table of all frames, with REAL values as they have been read
ref::Frame decodeTable(const std::string& bytes) {
    auto v = capi::readAll(bytes);
    ref::Frame f = gen::join(v);
    f.props = v.at(0).props;
    f.props.erase("encoder");
    return f;
}

bool single(const ref::Frame& f) {
    for (auto& x : f.cols) {
        // negative zeros equal zero, which they may become
        if (x.isReal())
            for (auto& y : x.cells)
                if (!y.missing && y.d == 0 && std::signbit(y.d))
                    return false;
        if (x.type == ref::REAL)
            for (auto& y : x.cells)
                if (!y.missing && double(ref::f32(y.d)) != y.d)
                    return false;
    }
    return true;
}

// element sizes of strings are those the strings need
bool tight(const ref::Frame& f) {
    for (auto& x : f.cols)
        if (x.type == ref::STRING) {
            size_t n = 0;
            for (auto& y : x.cells)
                n = std::max(n, y.s.size());
            if (x.width != std::max<size_t>(8, (n + 7) / 8 * 8))
                return false;
        }
    return true;
}

void again(Ctx& c, const gen::Opts& o) {
    capi::setLongs(c.g.chance(1, 2));
    ref::Frame f = gen::genTable(c.g, o);
    if (c.g.chance(2, 3))
        for (auto& x : f.cols)
            if (x.type == ref::REAL)
                for (auto& y : x.cells)
                    y.d = double(ref::f32(y.d));
    if (c.g.chance(2, 3))
        for (auto& x : f.cols)
            if (x.type == ref::STRING) {
                size_t n = 0;
                for (auto& y : x.cells)
                    n = std::max(n, y.s.size());
                x.width = std::max<size_t>(8, (n + 7) / 8 * 8);
            }
    c.note(gen::describe(f, 6));
    capi::Layout l = capi::genLayout(c.g, f);
    std::string b0 = capi::encode(f, l);
    auto reencode  = [&](const std::string& bytes) {
        ref::Frame g = decodeTable(bytes);
        capi::Layout m = another(c, g, l.rowsPerFrame);
        dirty(c);
        return capi::encode(g, m);
    };
    std::string b1 = reencode(b0);
    std::string b2 = reencode(b1);
    c.artifact("b0.odb", b0);
    c.artifact("b1.odb", b1);
    c.artifact("b2.odb", b2);
    VF_CHECK(c, b1 == b2, "re-encoding what was decoded twice: " << where(b1, b2));
    bool exact = single(f) && tight(f);
    if (exact)
        VF_CHECK(c, b0 == b1, "re-encoding what was decoded: " << where(b0, b1));
    c.labelIf(exact, "values exact, sizes tight");
    c.labelIf(b0 != b1, "first and second encoding differ");
    c.nontrivial = f.nrows > 1 && exact;
}

std::string copyRows(const std::string& bytes, const std::string& path, size_t buffer) {
    bool longs = capi::longs();
    capi::setLongs(false);
    try {
        eckit::MemoryHandle h(bytes.data(), bytes.size());
        odc::Reader in(h);
        odc::Writer<> out{eckit::PathName(path)};
        out.rowsBufferSize(buffer);
        odc::Writer<>::iterator o     = out.begin();
        odc::Reader::iterator it      = in.begin();
        const odc::Reader::iterator e = in.end();
        o->pass1(it, e);
    }
    catch (std::exception& e) {
        throw Failure{std::string("copying rows failed: ") + e.what()};
    }
    capi::setLongs(longs);
    return readFile(path);
}

void rewrite(Ctx& c, const gen::Opts& o) {
    size_t n = size_t(c.g.range(1, 3));
    std::vector<ref::Frame> v;
    std::string bytes;
    for (size_t i = 0; i < n; i++) {
        ref::Frame f = i == 0 || c.g.chance(1, 3) ? gen::genTable(c.g, o) : gen::genLike(c.g, v.back(), o);
        bytes += gen::encodeAny(c.g, f);
        v.push_back(f);
        c.note(gen::describe(f, 4));
    }
    c.artifact("input.odb", bytes);
    size_t buffer = size_t(c.g.range(1, 40));
    const std::string before = bytes;
    dirty(c);
    std::string a = copyRows(bytes, c.tmp + "/a.odb", buffer);
    if (c.g.chance(1, 2))
        disturb(c, o, a.empty() ? bytes : a);
    dirty(c);
    std::string b = copyRows(bytes, c.tmp + "/b.odb", buffer);
    VF_CHECK(c, a == b, "copying the same rows twice: " << where(a, b));
    VF_CHECK(c, bytes == before, "copying rows changed its input");
    dirty(c);
    std::string d = copyRows(a, c.tmp + "/d.odb", buffer);
    dirty(c);
    std::string e = copyRows(d, c.tmp + "/e.odb", buffer);
    VF_CHECK(c, d == e, "copying a copy of a copy: " << where(d, e));
    size_t rows = 0;
    for (auto& f : v)
        rows += f.nrows;
    c.labelIf(rows > buffer, "several buffers");
    c.nontrivial = rows > 1;

    // the same rows written one by one
    std::vector<rows::Step> steps;
    for (auto& f : v) {
        ref::Frame g = f;
        for (auto& x : g.cols) {
            if (x.type == ref::STRING) {
                size_t w = 8;
                for (auto& y : x.cells)
                    w = std::max(w, (y.s.size() + 7) / 8 * 8);
                x.width = w;
            }
            x.missing = x.type == ref::BITFIELD ? ref::MISSING_INT : ref::defaultMissing(x.type);
            for (auto& y : x.cells)
                if (y.missing && x.type == ref::BITFIELD)
                    y.missing = false, y.i = 0;
        }
        if (!steps.empty())
            steps.push_back({rows::Step::FLUSH, {}, {}});
        steps.push_back({rows::Step::HEADER, g, {}});
        steps.push_back({rows::Step::ROWS, g, {}});
    }
    bool longs = capi::longs();
    dirty(c);
    rows::write(c.tmp + "/x.odb", steps, buffer, false);
    dirty(c);
    rows::write(c.tmp + "/y.odb", steps, buffer, false);
    capi::setLongs(longs);
    std::string x = readFile(c.tmp + "/x.odb"), y = readFile(c.tmp + "/y.odb");
    VF_CHECK(c, x == y, "writing the same rows twice: " << where(x, y));
}

// several threads encode at the same time
void concurrent(Ctx& c, const gen::Opts& o) {
    bool longs = c.g.chance(1, 2);
    capi::setLongs(longs);
    size_t n = size_t(c.g.range(2, 4));
    std::vector<ref::Frame> tables;
    std::vector<std::string> want;
    std::vector<std::unique_ptr<capi::Encoding>> enc;
    for (size_t i = 0; i < n; i++) {
        ref::Frame f   = gen::genTable(c.g, o);
        capi::Layout l = capi::genLayout(c.g, f);
        want.push_back(capi::encode(f, l));
        enc.emplace_back(new capi::Encoding());
        enc.back()->setup(f, l);
        c.note(gen::describe(f, 3));
    }
    std::vector<std::string> trouble(n);
    std::vector<std::thread> threads;
    for (size_t i = 0; i < n; i++)
        threads.emplace_back([&, i] {
            odc_integer_behaviour(longs ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES);
            for (int k = 0; k < 5 && trouble[i].empty(); k++) {
                std::string got;
                long size = -1;
                int rc    = odc_encode_to_stream(
                    enc[i]->enc, &got,
                    [](void* ctx, const void* p, long len) -> long {
                        static_cast<std::string*>(ctx)->append(static_cast<const char*>(p), size_t(len));
                        return len;
                    },
                    &size);
                if (rc != ODC_SUCCESS)
                    trouble[i] = "encoding failed";
                else if (got != want[i])
                    trouble[i] = where(want[i], got);
            }
        });
    for (auto& t : threads)
        t.join();
    for (size_t i = 0; i < n; i++) {
        VF_CHECK(c, trouble[i].empty(), "table " << i << " encoded while others are: " << trouble[i]);
        VF_CHECK(c, enc[i]->sourceUntouched(), "encoding changed the source");
    }
    c.nontrivial = true;
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C28";
    s.rule =
        "a table encoded first in one memory layout, then 1-5 times in others (row-major, column-major, per column with "
        "strides, padding), to a stream, a file descriptor and a buffer, with the same and new encoders, after other "
        "encodings (successful and failed), readings (of good and bad data) and setting changes, with the heap and the "
        "stack filled with different bytes each time; encodings in concurrent threads; decoded tables encoded again, "
        "and rows written and copied twice: bytes are compared; non-trivial: several layouts or an intervening event "
        "(re-encoding: REAL values exact in single precision and string sizes as small as possible)";
    s.init = capi::init;
    gen::Opts o;
    o.maxRows = 25, o.maxCols = 5;
    s.subs.push_back({"same bytes", [=](Ctx& c) { deterministic(c, o); }, 8000, 300000});
    s.subs.push_back({"encode again", [=](Ctx& c) { again(c, o); }, 8000, 300000});
    s.subs.push_back({"rewriting rows", [=](Ctx& c) { rewrite(c, o); }, 4000, 150000});
    s.subs.push_back({"concurrent encoders", [=](Ctx& c) { concurrent(c, o); }, 1000, 40000});
    s.assumptions = {"what is not initialised in memory is varied by M_PERTURB, heap and stack filling; memory which happens to "
                     "hold the same bytes every time is not noticed",
                     "the first re-encoding may narrow string columns to the longest string, round the limits of REAL columns and turn negative zeros to zeros"};
    return vf::main(argc, argv, s);
}
