// C02: encoded output conforms to the documented file format
#include "capi.h"
#include "rows.h"

using namespace vf;

// statistics and metadata every frame header must state truthfully
static void checkHeader(Ctx& c, const ref::Frame& f, size_t no) {
    VF_CHECK(c, !f.swapped, "frame " << no << " is not in native byte order");
    VF_CHECK(c, f.minor == 5, "frame " << no << " has minor version " << f.minor);
    for (auto& col : f.cols) {
        if (!col.isInt() && !col.isReal())
            continue;
        bool miss = false, nan = false, first = true;
        double mn = 0, mx = 0;
        for (auto& x : col.cells) {
            if (x.missing) {
                miss = true;
                continue;
            }
            double v = col.isInt() ? double(x.i) : x.d;
            nan      = nan || std::isnan(v);
            if (first || v < mn)
                mn = v;
            if (first || v > mx)
                mx = v;
            first = false;
        }
        VF_CHECK(c, (col.hasMissing != 0) == miss, "frame " << no << " column " << col.name << " (" << col.codec
                                                            << "): header says hasMissing=" << col.hasMissing
                                                            << " but missing cells are " << (miss ? "present" : "absent"));
        if (first || nan)
            continue;
        bool ok = col.type == ref::REAL ? (float(col.min) == float(mn) && float(col.max) == float(mx))
                                        : (col.min == mn && col.max == mx);
        VF_CHECK(c, ok, "frame " << no << " column " << col.name << " (" << col.codec << "): header says [" << col.min
                                 << ", " << col.max << "], the values span [" << mn << ", " << mx << "]");
    }
}

static std::vector<ref::Frame> decode(Ctx& c, const std::string& bytes) {
    c.artifact("encoded.odb", bytes);
    std::vector<ref::Frame> v;
    try {
        v = ref::decodeAll(bytes);
    }
    catch (ref::FormatError& e) {
        c.fail(std::string("output is not valid ODB-2: ") + e.what());
    }
    size_t pos = 0;
    for (size_t i = 0; i < v.size(); i++) {
        VF_CHECK(c, v[i].offset == pos, "frames do not tile the stream");
        pos += v[i].length;
        checkHeader(c, v[i], i);
    }
    VF_CHECK(c, pos == bytes.size(), "bytes after the last frame");
    return v;
}

static void viaEncoder(Ctx& c, const gen::Opts& o) {
    capi::setLongs(c.g.chance(1, 2));
    ref::Frame f      = gen::genTable(c.g, o);
    capi::Layout l    = capi::genLayout(c.g, f);
    c.note(l.text() + " " + gen::describe(f));
    std::string bytes = capi::encode(f, l);
    auto v            = decode(c, bytes);
    size_t per        = l.rowsPerFrame > 0 ? size_t(l.rowsPerFrame) : 10000;
    size_t want       = (f.nrows + per - 1) / per;
    VF_CHECK(c, v.size() == want, v.size() << " frames instead of " << want);
    for (size_t i = 0; i < v.size(); i++) {
        std::string d = gen::diff(gen::rows(f, i * per, std::min(per, f.nrows - i * per)), v[i]);
        VF_CHECK(c, d.empty(), "frame " << i << " differs from the rows it encodes: " << d);
        auto p = v[i].props;
        VF_CHECK(c, p.count("encoder") == 1, "no encoder property");
        if (!f.props.count("encoder"))
            p.erase("encoder");
        VF_CHECK(c, p == f.props, "properties differ in frame " << i);
        for (auto& col : v[i].cols)
            c.label("codec " + col.codec);
    }
    c.labelIf(v.size() > 1, "several frames");
    c.nontrivial = f.nrows > 1;
}

// the row writer: random buffer size and flushes
static void viaWriter(Ctx& c, const gen::Opts& o) {
    ref::Frame f   = gen::genTable(c.g, o);
    size_t buffer  = size_t(c.g.range(1, 50));
    std::string p  = c.tmp + "/w.odb";
    std::vector<rows::Step> steps;
    steps.push_back({rows::Step::HEADER, f, {}});
    size_t at = 0;
    std::vector<size_t> sizes;
    while (at < f.nrows) {
        size_t n = size_t(c.g.range(1, int64_t(f.nrows - at)));
        if (c.g.chance(1, 3))
            n = f.nrows - at;
        steps.push_back({rows::Step::ROWS, gen::rows(f, at, n), {}});
        steps.push_back({rows::Step::FLUSH, {}, {}});
        for (size_t k = 0; k < n; k += buffer)
            sizes.push_back(std::min(buffer, n - k));
        at += n;
    }
    c.note("buffer " + std::to_string(buffer) + " " + gen::describe(f));
    rows::write(p, steps, buffer, false, f.props);
    auto v = decode(c, readFile(p));
    VF_CHECK(c, v.size() == sizes.size(), v.size() << " frames instead of " << sizes.size());
    for (size_t i = 0; i < v.size(); i++)
        VF_CHECK(c, v[i].nrows == sizes[i], "frame " << i << " has " << v[i].nrows << " rows instead of " << sizes[i]);
    std::string d = gen::diff(f, gen::join(v));
    VF_CHECK(c, d.empty(), "rows written differ from the table: " << d);
    for (auto& fr : v)
        for (auto& pr : f.props) {
            auto it = fr.props.find(pr.first);
            VF_CHECK(c, it != fr.props.end() && it->second == pr.second, "property " << pr.first << " lost");
        }
    c.nontrivial = f.nrows > 1 && v.size() > 1;
}

int main(int argc, char** argv) {
    Suite s;
    s.property = "C02";
    s.rule =
        "random tables encoded by odc_encode (random layouts and rows per frame) or by odc::Writer (random row buffer and "
        "flushes); the bytes are decoded by a decoder written from the format reference, which checks magic, version, "
        "MD5, lengths, tables and row data, and compared to the table, the frame row counts asked for, the properties, "
        "and the stated min/max/hasMissing; non-trivial: more than one row (encoder), more than one frame (writer)";
    s.init = capi::init;
    gen::Opts o;
    o.nan = true;
    gen::Opts big = o;
    big.minRows = 200, big.maxRows = 2500, big.maxCols = 3, big.edgeShape = false;
    s.subs.push_back({"encoder", [=](Ctx& c) { viaEncoder(c, o); }, 20000, 500000});
    s.subs.push_back({"encoder, long tables", [=](Ctx& c) { viaEncoder(c, big); }, 1500, 20000});
    s.subs.push_back({"row writer", [=](Ctx& c) { viaWriter(c, o); }, 8000, 200000});
    gen::Opts wide = o;
    wide.wide = true, wide.maxCols = 4, wide.minRows = 2, wide.maxRows = 8, wide.edgeShape = false;
    s.subs.push_back({"encoder, wide tables", [=](Ctx& c) { viaEncoder(c, wide); }, 300, 10000});
    s.subs.push_back({"row writer, wide tables", [=](Ctx& c) { viaWriter(c, wide); }, 150, 5000});
    s.assumptions = {"integers lie within int32; strings contain no NUL",
                     "min/max are only checked for numeric columns without NaN that have a value"};
    return vf::main(argc, argv, s);
}
