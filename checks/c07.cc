// C07: parallel decoding gives the sequential result
// Built with ThreadSanitizer: an unsynchronised access in the library ends the process.
#include "capi.h"

#include <atomic>
#include <memory>
#include <thread>

#include "eckit/exception/Exceptions.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "odc/api/Odb.h"

using namespace vf;

namespace {

struct Opened {
    odc_reader_t* rd = nullptr;
    odc_frame_t* fr  = nullptr;
    ~Opened() {
        if (fr)
            odc_free_frame(fr);
        if (rd)
            odc_close(rd);
    }
};

struct Outcome {
    int rc    = 0;
    long rows = -1;
    std::string bytes;
};

}  // namespace

// n compatible frames
static std::vector<ref::Frame> makeFrames(Ctx& c, const gen::Opts& o, size_t n, std::vector<std::string>& parts) {
    ref::Frame first = gen::genTable(c.g, o);
    std::vector<ref::Frame> v;
    for (size_t i = 0; i < n; i++) {
        ref::Frame f = i ? gen::genLike(c.g, first, o) : first;
        if (i && c.g.chance(1, 3) && f.cols.size() > 1) {  // another column order
            std::vector<int> order;
            for (size_t k = 0; k < f.cols.size(); k++)
                order.push_back(int(k));
            c.g.shuffle(order);
            ref::Frame p = f;
            for (size_t k = 0; k < order.size(); k++)
                p.cols[k] = f.cols[size_t(order[k])];
            f = p;
        }
        std::string b = gen::encodeAny(c.g, f, true);
        ref::Frame d  = ref::decodeAll(b).at(0);
        bool same     = true;
        for (size_t k = 0; k < f.cols.size(); k++) {
            f.cols[k].width     = d.cols[k].width;
            const ref::Col* was = v.empty() ? nullptr : v[0].find(f.cols[k].name);
            same                = same && (!was || was->width == f.cols[k].width);
        }
        if (!same)
            continue;
        parts.push_back(b);
        v.push_back(f);
    }
    return v;
}

static Outcome decodeOnce(odc_frame_t* fr, const std::vector<std::string>& names, size_t width, size_t rows, bool colMajor,
                          int threads) {
    Outcome r;
    odc_decoder_t* dec = nullptr;
    OK(odc_new_decoder(&dec));
    r.bytes.assign(width * rows, '\x5a');
    for (auto& n : names)
        OK(odc_decoder_add_column(dec, n.c_str()));
    OK(odc_decoder_set_data_array(dec, &r.bytes[0], long(width), long(rows), colMajor));
    r.rc = odc_decode_threaded(dec, fr, &r.rows, threads);
    odc_free_decoder(dec);
    return r;
}

static void sameAsOneThread(Ctx& c, const gen::Opts& o) {
    capi::setLongs(c.g.chance(1, 2));
    std::vector<std::string> parts;
    auto v = makeFrames(c, o, size_t(c.g.range(2, 9)), parts);
    std::string bytes;
    bool damaged = false;
    size_t damagedFrame = 0;
    if (c.g.chance(1, 3)) {
        // one constituent whose rows cannot be decoded: a row refers to a string that is not in its table
        for (size_t i = 0; i < parts.size() && !damaged; i++) {
            size_t at    = (i * 7 + c.caseNo) % parts.size();
            ref::Frame d = ref::decodeAll(parts[at]).at(0);
            if (d.nrows < 1 || d.cols.size() != 1 || d.cols[0].codec != "int8_string")
                continue;
            auto pt = ref::parts(parts[at], 0);
            if (d.markers.at(0) != 0)  // the first row does not store its string
                continue;
            parts[at][pt.data + 2] = char(0xff);
            damaged                = true;
            damagedFrame           = at;
        }
    }
    for (auto& p : parts)
        bytes += p;
    ref::Frame j = gen::join(v);
    c.artifact("stream.odb", bytes);
    c.note(gen::describe(j, 4) + " in " + std::to_string(v.size()) + " frames" + (damaged ? ", one of them damaged" : ""));

    std::vector<std::string> names;
    size_t width = 0;
    std::vector<int> order;
    for (size_t k = 0; k < j.cols.size(); k++)
        order.push_back(int(k));
    c.g.shuffle(order);
    order.resize(size_t(c.g.range(1, int64_t(order.size()))));
    for (int k : order) {
        names.push_back(j.cols[size_t(k)].name);
        width += j.cols[size_t(k)].width;
    }
    bool unknown = c.g.chance(1, 12);
    if (unknown)
        names.push_back("no_such_column");
    bool colMajor = c.g.chance(1, 2);
    Opened h;
    OK(odc_open_buffer(&h.rd, bytes.data(), long(bytes.size())));
    OK(odc_new_frame(&h.fr, h.rd));
    OK(odc_next_frame_aggregated(h.fr, -1));
    Outcome one = decodeOnce(h.fr, names, width + (unknown ? 8 : 0), j.nrows, colMajor, 1);
    for (int k = 0; k < 2; k++) {
        int threads   = int(c.g.pick({2, 3, 4, 8, 16}));
        Outcome other = decodeOnce(h.fr, names, width + (unknown ? 8 : 0), j.nrows, colMajor, threads);
        VF_CHECK(c, other.rc == one.rc, threads << " threads: returned " << other.rc << ", one thread " << one.rc);
        VF_CHECK(c, one.rc != 0 || other.rows == one.rows, threads << " threads decoded " << other.rows << " rows, one " << one.rows);
        VF_CHECK(c, one.rc != 0 || other.bytes == one.bytes, threads << " threads gave other bytes than one");
        c.label("threads=" + std::to_string(threads));
    }
    VF_CHECK(c, one.rc == 0 || damaged || unknown, "decoding failed: " << capi::errorText(one.rc));
    VF_CHECK(c, one.rc != 0 || !unknown, "an unknown column was decoded");
    if (damaged) {
        VF_CHECK(c, one.rc != 0, "frame " << damagedFrame << " refers to a string it does not have, and was decoded");
        c.label("a constituent cannot be decoded");
    }
    if (one.rc == 0) {
        // and it is the data
        ref::Frame g = capi::readFrame(h.fr, {colMajor, int(c.g.range(1, 6)), true});
        std::string d = gen::diff(j, g);
        VF_CHECK(c, d.empty(), d);
    }
    c.labelIf(v.size() > 4, "more than 4 constituents");
    c.nontrivial = v.size() > 1;
}

// handles used concurrently
static void concurrent(Ctx& c, const gen::Opts& o) {
    capi::setLongs(c.g.chance(1, 2));
    std::vector<ref::Frame> v;
    std::string bytes;
    size_t n = size_t(c.g.range(1, 5));
    for (size_t i = 0; i < n; i++) {
        ref::Frame f = gen::genTable(c.g, o);
        bytes += gen::encodeAny(c.g, f, true);
        v.push_back(f);
    }
    {
        auto d = ref::decodeAll(bytes);
        for (size_t i = 0; i < v.size(); i++)
            for (size_t k = 0; k < v[i].cols.size(); k++)
                v[i].cols[k].width = d[i].cols[k].width;
    }
    c.artifact("stream.odb", bytes);
    std::string path = c.tmp + "/stream.odb";
    bool file        = c.g.chance(1, 2);
    if (file)
        writeFile(path, bytes);
    c.label(file ? "file" : "memory");

    struct Handle {
        odc_frame_t* fr;
        size_t frame;
    };
    std::vector<Handle> handles;
    std::vector<odc_reader_t*> readers;
    auto open = [&]() {
        odc_reader_t* rd = nullptr;
        if (file)
            OK(odc_open_path(&rd, path.c_str()));
        else
            OK(odc_open_buffer(&rd, bytes.data(), long(bytes.size())));
        readers.push_back(rd);
        return rd;
    };
    struct Free {
        std::vector<Handle>& h;
        std::vector<odc_reader_t*>& r;
        ~Free() {
            for (auto& x : h)
                odc_free_frame(x.fr);
            for (auto x : r)
                odc_close(x);
        }
    } guard{handles, readers};

    // copies of the frames of one reader (some before, some after their attributes have been looked at)
    bool longs       = capi::longs();
    odc_reader_t* rd = open();
    odc_frame_t* fr  = nullptr;
    OK(odc_new_frame(&fr, rd));
    struct FreeF {
        odc_frame_t* f;
        ~FreeF() { odc_free_frame(f); }
    } guardF{fr};
    size_t stop = c.g.index(n);  // the reader is left in this frame; another thread may go on from there
    for (size_t i = 0; i <= stop; i++) {
        OK(odc_next_frame(fr));
        size_t copies = size_t(c.g.range(0, 2)) + (i == stop);
        for (size_t k = 0; k < copies; k++) {
            if (c.g.chance(1, 3)) {
                ref::Frame x;
                capi::readAttributes(fr, x);
            }
            odc_frame_t* cp = nullptr;
            OK(odc_copy_frame(fr, &cp));
            handles.push_back({cp, i});
        }
    }
    size_t shared = handles.size();
    // frames of other readers
    size_t others = size_t(c.g.range(0, 2));
    for (size_t k = 0; k < others; k++) {
        odc_reader_t* r2 = open();
        odc_frame_t* f2  = nullptr;
        OK(odc_new_frame(&f2, r2));
        size_t at = c.g.index(n);
        handles.push_back({f2, at});
        for (size_t i = 0; i <= at; i++)
            OK(odc_next_frame(f2));
    }
    bool advance   = c.g.chance(1, 2);
    bool openToo   = c.g.chance(1, 2);
    size_t repeats = 3;
    c.note(std::to_string(n) + " frames, " + std::to_string(shared) + " copies from one reader, " + std::to_string(others) +
           " other readers" + (advance ? ", one thread reads on" : "") + (openToo ? ", one thread opens and reads all" : ""));
    for (auto& f : v)
        c.note(gen::describe(f, 3));

    std::vector<std::string> errors(handles.size() + 2);
    std::atomic<bool> go(false);
    std::vector<std::thread> threads;
    auto guarded = [&](size_t slot, std::function<void()> fn) {
        threads.emplace_back([&, slot, fn] {
            while (!go)
                std::this_thread::yield();
            try {
                fn();
            }
            catch (Failure& f) {
                errors[slot] = f.msg;
            }
            catch (std::exception& e) {
                errors[slot] = e.what();
            }
        });
    };
    for (size_t h = 0; h < handles.size(); h++)
        guarded(h, [&, h] {
            capi::setLongs(longs);  // the integer behaviour is a setting of the thread
            for (size_t r = 0; r < repeats; r++) {
                ref::Frame g  = capi::readFrame(handles[h].fr);
                std::string d = gen::diff(v[handles[h].frame], g);
                if (!d.empty())
                    throw Failure{"handle on frame " + std::to_string(handles[h].frame) + ": " + d};
            }
        });
    if (advance)
        guarded(handles.size(), [&] {
            capi::setLongs(longs);
            for (size_t i = stop + 1; i < n; i++) {
                OK(odc_next_frame(fr));
                std::string d = gen::diff(v[i], capi::readFrame(fr));
                if (!d.empty())
                    throw Failure{"advancing to frame " + std::to_string(i) + ": " + d};
            }
        });
    if (openToo)
        guarded(handles.size() + 1, [&] {
            capi::setLongs(longs);
            auto all = capi::readAll(bytes);
            if (all.size() != n)
                throw Failure{"independent reader saw another number of frames"};
            for (size_t i = 0; i < n; i++) {
                std::string d = gen::diff(v[i], all[i]);
                if (!d.empty())
                    throw Failure{"independent reader, frame " + std::to_string(i) + ": " + d};
            }
        });
    go = true;
    for (auto& t : threads)
        t.join();
    for (size_t i = 0; i < errors.size(); i++)
        VF_CHECK(c, errors[i].empty(), "thread " << i << ": " << errors[i]);
    c.labelIf(advance, "reader advanced meanwhile");
    c.labelIf(shared > 2, "more than two copies");
    c.nontrivial = threads.size() > 1;
}

// A data handle that is not synchronised: two accesses to it that the library does not order are a race, which
// ThreadSanitizer reports whether or not they happen to overlap. It also gives way between calls, so that calls that
// belong together are interleaved if nothing keeps them together.
struct Watched : public eckit::DataHandle {
    const std::string& bytes;
    size_t pos      = 0;
    size_t accesses = 0;
    bool yields;
    Watched(const std::string& b, bool y) : bytes(b), yields(y) {}
    void print(std::ostream& s) const override { s << "Watched"; }
    void touch() {
        accesses++;
        if (yields)
            std::this_thread::yield();
    }
    eckit::Length openForRead() override {
        pos = 0;
        touch();
        return bytes.size();
    }
    void openForWrite(const eckit::Length&) override { throw eckit::NotImplemented("openForWrite", Here()); }
    void openForAppend(const eckit::Length&) override { throw eckit::NotImplemented("openForAppend", Here()); }
    void close() override { touch(); }
    eckit::Length size() override { return bytes.size(); }
    eckit::Length estimate() override { return bytes.size(); }
    eckit::Offset position() override { return pos; }
    eckit::Offset seek(const eckit::Offset& o) override {
        pos = size_t((long long)o);
        touch();
        return o;
    }
    bool canSeek() const override { return true; }
    void skip(const eckit::Length& n) override {
        pos += size_t((long long)n);
        touch();
    }
    long write(const void*, long) override { throw eckit::NotImplemented("write", Here()); }
    long read(void* p, long n) override {
        touch();
        size_t m = std::min(size_t(n), bytes.size() - std::min(pos, bytes.size()));
        memcpy(p, bytes.data() + pos, m);
        pos += m;
        touch();
        return long(m);
    }
};

// all columns of a frame, column by column
static std::string decodeAll(const odc::api::Frame& f, size_t threads, size_t repeat = 1) {
    std::vector<std::string> names;
    size_t width = 0;
    for (auto& i : f.columnInfo())
        width += i.decodedSize;
    std::string out(width * f.rowCount(), '\x5a');
    std::vector<odc::api::StridedData> strides;
    size_t at = 0;
    for (auto& i : f.columnInfo()) {
        names.push_back(i.name);
        strides.emplace_back(&out[at], f.rowCount(), i.decodedSize, i.decodedSize);
        at += i.decodedSize * f.rowCount();
    }
    odc::api::Decoder d(names, strides);
    while (repeat--)
        d.decode(f, threads);
    return out;
}

// the frames of one reader used by several threads, which share the data handle it was given
static void sharedHandle(Ctx& c, const gen::Opts& o) {
    capi::setLongs(c.g.chance(1, 2));
    bool longs      = capi::longs();
    bool aggregated = c.g.chance(1, 2);
    std::vector<std::string> parts;
    std::string bytes;
    size_t logical = 0;
    size_t kinds   = size_t(c.g.range(1, 3));
    for (size_t i = 0; i < kinds; i++)
        makeFrames(c, o, size_t(c.g.range(1, 5)), parts);
    for (auto& p : parts)
        bytes += p;
    c.artifact("stream.odb", bytes);
    bool yields = c.g.chance(2, 3);
    // what one thread makes of it
    std::vector<std::string> expected;
    {
        odc::api::Reader r(new Watched(bytes, false), aggregated);
        while (odc::api::Frame f = r.next())
            expected.push_back(decodeAll(f, 1));
        logical = expected.size();
    }
    VF_CHECK(c, logical > 0, "no frames");
    odc::api::Reader reader(new Watched(bytes, yields), aggregated);
    struct Task {
        odc::api::Frame f;
        size_t index, threads;
    };
    std::vector<Task> tasks;
    size_t stop = c.g.index(logical);
    for (size_t i = 0; i <= stop; i++) {
        odc::api::Frame f = reader.next();
        for (size_t k = size_t(c.g.range(0, 2)) + (i == stop); k > 0; k--)
            tasks.push_back({f, i, size_t(c.g.pick({1, 1, 2, 4, 8, 0}))});
    }
    bool advance = c.g.chance(1, 2);
    bool encoded = c.g.chance(1, 4);
    odc::api::Frame copy = tasks.back().f;
    c.note(std::to_string(parts.size()) + " frames" + (aggregated ? " read as " + std::to_string(logical) : "") + ", " +
           std::to_string(tasks.size()) + " threads with copies of frames" + (advance ? ", one reads on" : "") + (encoded ? ", one takes the encoded data" : ""));
    std::vector<std::string> errors(tasks.size() + 2);
    std::vector<std::thread> threads;
    auto guarded = [&](size_t slot, std::function<void()> fn) {
        threads.emplace_back([&, slot, fn] {
            try {
                capi::setLongs(longs);
                fn();
            }
            catch (Failure& f) {
                errors[slot] = f.msg;
            }
            catch (std::exception& e) {
                errors[slot] = e.what();
            }
        });
    };
    for (size_t t = 0; t < tasks.size(); t++)
        guarded(t, [&, t] {
            for (int r = 0; r < 2; r++)
                if (decodeAll(tasks[t].f, tasks[t].threads, r + 1) != expected[tasks[t].index])
                    throw Failure{"frame " + std::to_string(tasks[t].index) + " decodes to other bytes than with one thread"};
        });
    if (advance)
        guarded(tasks.size(), [&] {
            for (size_t i = stop + 1; i < logical; i++)
                if (decodeAll(reader.next(), 1) != expected[i])
                    throw Failure{"reading on to frame " + std::to_string(i) + " gives other bytes than with one thread"};
        });
    if (encoded)
        guarded(tasks.size() + 1, [&] {
            eckit::Buffer b = copy.encodedData();
            if (b.size() != size_t((long long)copy.length()))
                throw Failure{"the encoded data of a frame has another size than its length"};
        });
    for (auto& t : threads)
        t.join();
    for (size_t i = 0; i < errors.size(); i++)
        VF_CHECK(c, errors[i].empty(), "thread " << i << ": " << errors[i]);
    c.labelIf(yields, "the shared handle gives way");
    c.labelIf(aggregated && parts.size() > logical, "aggregated frames");
    c.nontrivial = threads.size() > 1 || tasks[0].threads > 1;
}

int main(int argc, char** argv) {
    Suite s;
    s.property = "C07";
    s.rule =
        "logical frames of 2-9 constituents decoded with 1 and with 2-16 threads (bytes, row count and return code compared; "
        "some with a constituent that cannot be decoded); copies of frames of one reader and frames of other readers decoded "
        "by one thread each, with another thread reading on or opening the stream, all results compared to the tables encoded; "
        "the same over a data handle of the harness whose unordered use is itself a race; all under ThreadSanitizer; non-trivial: more than one constituent or thread";
    s.init = capi::init;
    gen::Opts o;
    o.maxRows = 12;
    o.maxCols = 5;
    gen::Opts one = o;  // single string columns, whose decoding can be made to fail
    one.minCols = one.maxCols = 1;
    one.integers = one.reals = one.doubles = one.bitfields = false;
    s.subs.push_back({"threads", [=](Ctx& c) { sameAsOneThread(c, o); }, 9000, 200000});
    s.subs.push_back({"threads, failing constituent", [=](Ctx& c) { sameAsOneThread(c, one); }, 4000, 100000});
    s.subs.push_back({"concurrent handles", [=](Ctx& c) { concurrent(c, o); }, 9000, 200000});
    s.subs.push_back({"shared data handle", [=](Ctx& c) { sharedHandle(c, o); }, 6000, 150000});
    s.assumptions.push_back(
        "ThreadSanitizer sees the accesses of the odc library; eckit is a prebuilt library whose own accesses are not "
        "instrumented. Schedules are those the operating system produced.");
    s.assumptions.push_back("odc_integer_behaviour() applies to the calling thread, and a frame keeps the behaviour it was opened with.");
    return vf::main(argc, argv, s);
}
