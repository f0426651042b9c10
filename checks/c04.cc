// C04: concatenated streams read as the concatenation of their frames
#include "capi.h"
#include "rows.h"

#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "odc/api/Odb.h"

using namespace vf;

struct Part {
    std::string bytes;
    std::vector<ref::Frame> frames;
    std::vector<size_t> sizes;
};

static Part genPart(Ctx& c, const gen::Opts& o, const std::vector<ref::Frame>& before) {
    Part p;
    switch (c.g.weighted({3, 2, 1})) {
        case 0: {  // reference encoder, any legal encoding
            ref::Frame f = !before.empty() && c.g.chance(1, 3) ? gen::genLike(c.g, before.back(), o) : gen::genTable(c.g, o);
            if (c.g.chance(1, 10))
                f = gen::rows(f, 0, 0);
            p.bytes = gen::encodeAny(c.g, f);
            p.frames.push_back(f);
            p.sizes.push_back(p.bytes.size());
            break;
        }
        case 1: {  // the library's encoder
            ref::Frame f   = gen::genTable(c.g, o);
            capi::Layout l = capi::genLayout(c.g, f);
            p.bytes        = capi::encode(f, l);
            for (auto& x : ref::decodeAll(p.bytes)) {
                p.frames.push_back(x);
                p.sizes.push_back(x.length);
            }
            break;
        }
        default: {  // the row writer
            ref::Frame f = gen::genTable(c.g, o);
            rows::write(c.tmp + "/w.odb", {{rows::Step::HEADER, f, {}}, {rows::Step::ROWS, f, {}}},
                        size_t(c.g.range(1, 40)), false, f.props);
            p.bytes = readFile(c.tmp + "/w.odb");
            for (auto& x : ref::decodeAll(p.bytes)) {
                p.frames.push_back(x);
                p.sizes.push_back(x.length);
            }
        }
    }
    return p;
}

static void concat(Ctx& c, const gen::Opts& o) {
    size_t n = size_t(c.g.range(1, 5));
    std::vector<ref::Frame> want;
    std::vector<size_t> sizes;
    std::string bytes;
    for (size_t i = 0; i < n; i++) {
        capi::setLongs(false);
        Part p = genPart(c, o, want);
        bytes += p.bytes;
        want.insert(want.end(), p.frames.begin(), p.frames.end());
        sizes.insert(sizes.end(), p.sizes.begin(), p.sizes.end());
    }
    for (auto& f : want)
        c.note(gen::describe(f, 2));
    c.artifact("stream.odb", bytes);
    capi::setLongs(c.g.chance(1, 2));
    c.nontrivial = want.size() > 1;

    auto same = [&](const ref::Frame& w, const ref::Frame& g, const std::string& what) {
        std::string d = gen::diff(w, g);
        VF_CHECK(c, d.empty(), what << ": " << d);
        auto p = g.props;
        VF_CHECK(c, p == w.props, what << ": properties differ");
    };

    // C interface
    odc_reader_t* rd = nullptr;
    odc_frame_t* fr  = nullptr;
    struct Free {
        odc_reader_t*& r;
        odc_frame_t*& f;
        ~Free() {
            if (f)
                odc_free_frame(f);
            if (r)
                odc_close(r);
        }
    } guard{rd, fr};
    std::string path = c.tmp + "/cat.odb";
    bool viaFile     = c.g.chance(1, 2);
    if (viaFile)
        writeFile(path, bytes);
    if (viaFile)
        OK(odc_open_path(&rd, path.c_str()));
    else
        OK(odc_open_buffer(&rd, bytes.data(), long(bytes.size())));
    OK(odc_new_frame(&fr, rd));
    // which frames to decode, so that skipping is exercised as well
    for (size_t i = 0; i < want.size(); i++) {
        int rc = odc_next_frame(fr);
        VF_CHECK(c, rc == ODC_SUCCESS, "frame " << i << ": " << capi::errorText(rc));
        if (c.g.chance(3, 4))
            same(want[i], capi::readFrame(fr), "frame " + std::to_string(i));
        else
            c.label("skipped a frame");
    }
    size_t again = size_t(c.g.range(1, 4));
    for (size_t i = 0; i < again; i++) {
        int rc = odc_next_frame(fr);
        VF_CHECK(c, rc == ODC_ITERATION_COMPLETE, "after the last frame, call " << i << " returns " << rc);
    }

    // C++ interface: positions and raw data
    try {
        eckit::MemoryHandle mh(bytes.data(), bytes.size());
        mh.openForRead();
        std::unique_ptr<odc::api::Reader> reader;
        bool agg = c.g.chance(1, 4);
        if (viaFile)
            reader.reset(new odc::api::Reader(path, agg));
        else
            reader.reset(new odc::api::Reader(mh, agg));
        size_t pos = 0, i = 0;
        std::vector<odc::api::Frame> kept;
        while (odc::api::Frame f = reader->next()) {
            // an aggregated frame covers as many constituents as its rows
            VF_CHECK(c, i < want.size(), "more frames than written");
            size_t len = 0, first = i, rows = 0;
            do {
                len += sizes[i];
                rows += want[i].nrows;
                i++;
            } while (agg && i < want.size() && len < size_t(f.length()));
            VF_CHECK(c, f.rowCount() == rows, "frame at " << pos << " has " << f.rowCount() << " rows, not " << rows);
            VF_CHECK(c, size_t(f.offset()) == pos, "frame " << first << " reported at offset " << f.offset() << ", not " << pos);
            VF_CHECK(c, size_t(f.length()) == len, "frame " << first << " reported length " << f.length() << ", not " << len);
            if (c.g.chance(2, 3)) {
                eckit::Buffer b = f.encodedData();
                std::string raw(static_cast<const char*>(b.data()), b.size());
                VF_CHECK(c, raw == bytes.substr(pos, len), "raw data of frame " << first << " is not its bytes ("
                                                                                << raw.size() << " bytes of " << len << ")");
                auto alone = capi::readAll(raw);
                VF_CHECK(c, alone.size() == i - first, "raw data holds " << alone.size() << " frames");
                for (size_t k = first; k < i; k++)
                    same(want[k], alone[k - first], "raw data of frame " + std::to_string(k));
            }
            kept.push_back(f);
            pos += len;
        }
        VF_CHECK(c, i == want.size() && pos == bytes.size(), "frames end at byte " << pos << " of " << bytes.size());
        for (int k = 0; k < 2; k++)
            VF_CHECK(c, !reader->next(), "a frame after the last one");
        // handles kept from before still give their bytes
        pos = 0;
        for (auto& f : kept) {
            eckit::Buffer b = f.encodedData();
            std::string raw(static_cast<const char*>(b.data()), b.size());
            VF_CHECK(c, raw == bytes.substr(pos, raw.size()) && raw.size() == size_t(f.length()),
                     "raw data of an earlier frame at " << pos);
            pos += raw.size();
        }
        c.labelIf(agg, "aggregated");
    }
    catch (std::exception& e) {
        c.fail(std::string("exception: ") + e.what());
    }

    // row reader
    auto rr   = rows::read(bytes);
    size_t at = 0;
    capi::setLongs(false);
    for (size_t i = 0; i < want.size(); i++) {
        if (want[i].nrows == 0)
            continue;
        VF_CHECK(c, at < rr.size(), "row reader stops early");
        same(want[i], rr[at++], "row reader, frame " + std::to_string(i));
    }
    VF_CHECK(c, at == rr.size(), "row reader shows more frames");
    c.label(viaFile ? "file" : "buffer");
}

// many small frames
static void many(Ctx& c, gen::Opts o) {
    o.maxRows = 3, o.maxCols = 2, o.edgeShape = false, o.props = false;
    size_t n = size_t(c.g.range(20, 150));
    ref::Frame f = gen::genTable(c.g, o);
    std::string bytes;
    std::vector<ref::Frame> want;
    for (size_t i = 0; i < n; i++) {
        ref::Frame x = gen::genLike(c.g, f, o);
        bytes += gen::encodeAny(c.g, x);
        want.push_back(x);
    }
    c.note(std::to_string(n) + " frames of " + gen::schemaText(f));
    capi::setLongs(c.g.chance(1, 2));
    auto got = capi::readAll(bytes);
    VF_CHECK(c, got.size() == n, got.size() << " frames of " << n);
    for (size_t i = 0; i < n; i++) {
        std::string d = gen::diff(want[i], got[i]);
        VF_CHECK(c, d.empty(), "frame " << i << ": " << d);
    }
    c.nontrivial = true;
}

int main(int argc, char** argv) {
    Suite s;
    s.property = "C04";
    s.rule =
        "concatenations of 1-5 valid streams, each from the reference encoder (any legal encoding, both byte orders, "
        "also frames without rows), odc_encode or odc::Writer, and of 20-150 small frames; read through the C interface (some "
        "frames skipped), the C++ interface (offset, length, encodedData, kept copies, aggregated or not) and the row reader; "
        "non-trivial: more than one frame";
    s.init = capi::init;
    gen::Opts o;
    o.maxRows = 20;
    s.subs.push_back({"concatenation", [=](Ctx& c) { concat(c, o); }, 16000, 400000});
    s.subs.push_back({"many frames", [=](Ctx& c) { many(c, o); }, 800, 20000});
    return vf::main(argc, argv, s);
}
