// C03: every valid ODB-2 stream decodes to the values it denotes
#include "capi.h"
#include "rows.h"

using namespace vf;


// compares by value: a missing cell is delivered as the missing value the file declares
static std::string sameValues(const ref::Frame& want, const ref::Frame& got) {
    ref::Frame a = want, b = got;
    for (size_t k = 0; k < a.cols.size() && k < b.cols.size(); k++) {
        double m = a.cols[k].missing;
        for (auto& x : a.cols[k].cells)
            if (x.missing)
                x.missing = false, x.i = int64_t(m), x.d = m;
        for (auto& x : b.cols[k].cells)
            if (x.missing)
                x.missing = false, x.i = int64_t(b.cols[k].missing), x.d = b.cols[k].missing;
    }
    return gen::diff(a, b);
}

static ref::Frame genFrame(Ctx& c, const gen::Opts& o, bool declaredMissing) {
    ref::Frame f = gen::genTable(c.g, o);
    if (c.g.chance(1, 15))
        f = gen::rows(f, 0, 0);  // a frame without rows is valid
    if (declaredMissing)
        for (auto& col : f.cols) {
            if (col.type == ref::STRING || !c.g.chance(1, 3))
                continue;
            // another missing value, which no cell holds by accident
            double m = c.g.pick({-1.0, 999.0, -999.0, 0.0, 32767.0, -32768.0, 2147483646.0});
            bool used = false;
            for (auto& x : col.cells)
                used = used || (!x.missing && (col.isInt() ? double(x.i) : double(float(x.d))) == m);
            if (!used)
                col.missing = m;
        }
    return f;
}

static void stream(Ctx& c, const gen::Opts& o) {
    bool longs = c.g.chance(1, 2);
    capi::setLongs(longs);
    size_t n = size_t(c.g.weighted({4, 2, 1, 1}) + 1);
    std::vector<ref::Frame> want;
    std::string bytes;
    bool declaredMissing = c.g.chance(1, 2);
    for (size_t i = 0; i < n; i++) {
        ref::Frame f = i > 0 && c.g.chance(1, 2) ? gen::genLike(c.g, want[0], o) : genFrame(c, o, declaredMissing);
        bytes += gen::encodeAny(c.g, f, true);
        c.note(gen::describe(f) + " minor " + std::to_string(f.minor));
        for (auto& col : f.cols)
            c.label((f.swapped ? "swapped " : "native ") + col.codec);
        want.push_back(f);
    }
    c.artifact("stream.odb", bytes);
    // the harness' own decoder agrees (guards against a harness error)
    {
        auto v = ref::decodeAll(bytes);
        for (size_t i = 0; i < n; i++) {
            std::string d = sameValues(want[i], v[i]);
            if (!d.empty())
                throw std::logic_error("reference encoder and decoder disagree: " + d);
        }
    }

    // frame API, and a copy of each frame
    odc_reader_t* rd = nullptr;
    odc_frame_t *fr = nullptr, *cp = nullptr;
    struct Free {
        odc_reader_t*& r;
        odc_frame_t *&f, *&c;
        ~Free() {
            if (c)
                odc_free_frame(c);
            if (f)
                odc_free_frame(f);
            if (r)
                odc_close(r);
        }
    } guard{rd, fr, cp};
    OK(odc_open_buffer(&rd, bytes.data(), long(bytes.size())));
    OK(odc_new_frame(&fr, rd));
    auto compare = [&](const ref::Frame& w, ref::Frame got, const std::string& what) {
        for (size_t k = 0; k < w.cols.size() && k < got.cols.size(); k++)
            if (w.cols[k].type == ref::STRING)
                VF_CHECK(c, got.cols[k].width == w.cols[k].width || w.cols[k].codec == "chars",
                         what << ": element size of " << w.cols[k].name << " is " << got.cols[k].width << ", not "
                              << w.cols[k].width);
        std::string d = sameValues(w, got);
        VF_CHECK(c, d.empty(), what << ": " << d);
        VF_CHECK(c, got.props == w.props, what << ": properties differ");
    };
    for (size_t i = 0; i < n; i++) {
        int rc = odc_next_frame(fr);
        VF_CHECK(c, rc == ODC_SUCCESS, "frame " << i << ": " << capi::errorText(rc));
        compare(want[i], capi::readFrame(fr), "frame " + std::to_string(i));
        OK(odc_copy_frame(fr, &cp));
        compare(want[i], capi::readFrame(cp), "copy of frame " + std::to_string(i));
        OK(odc_free_frame(cp));
        cp = nullptr;
    }
    VF_CHECK(c, odc_next_frame(fr) == ODC_ITERATION_COMPLETE, "more frames than encoded");

    // row iterator
    auto rows = rows::read(bytes);
    size_t at = 0;
    for (size_t i = 0; i < n; i++) {
        if (want[i].nrows == 0) {
            c.label("frame without rows");
            continue;
        }
        VF_CHECK(c, at < rows.size(), "row iterator shows only " << rows.size() << " frames");
        compare(want[i], rows[at++], "row iterator, frame " + std::to_string(i));
    }
    VF_CHECK(c, at == rows.size(), "row iterator shows " << rows.size() << " frames instead of " << at);
    size_t total = 0;
    for (auto& f : want)
        total += f.nrows;
    c.nontrivial = total > 1;
    c.labelIf(declaredMissing, "declared missing values");
}

int main(int argc, char** argv) {
    gen::unusedMayBeLonger = true;
    Suite s;
    s.property = "C03";
    s.rule =
        "streams of 1-4 frames written by a reference encoder with random legal codecs for every column, random row "
        "markers, both byte orders, minor versions 4 and 5 and random declared missing values, read through the frame "
        "API, copies of frames and the row iterator; non-trivial: more than one row";
    s.init = capi::init;
    gen::Opts o;
    o.nan = true;
    gen::Opts big = o;
    big.minRows = 200, big.maxRows = 1500, big.maxCols = 3, big.edgeShape = false;
    s.subs.push_back({"stream", [=](Ctx& c) { stream(c, o); }, 20000, 500000});
    s.subs.push_back({"long frames", [=](Ctx& c) { stream(c, big); }, 1000, 20000});
    gen::Opts wide = o;
    wide.wide = true, wide.maxCols = 4, wide.minRows = 2, wide.maxRows = 8, wide.edgeShape = false;
    s.subs.push_back({"wide frames", [=](Ctx& c) { stream(c, wide); }, 300, 10000});
    s.assumptions = {"version 0.4 and 0.5 frames; integers within int32; strings without NUL"};
    return vf::main(argc, argv, s);
}
