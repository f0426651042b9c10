// C05: aggregated frames equal their constituent frames joined
#include "capi.h"

#include "eckit/io/MemoryHandle.h"
#include "odc/api/Odb.h"

using namespace vf;

// A frame derived from an earlier one: same columns, reordered, or changed in a way that makes it incompatible
static ref::Frame derive(Ctx& c, const ref::Frame& f, const gen::Opts& o) {
    ref::Frame h = gen::genLike(c.g, f, o);
    h.props      = c.g.chance(1, 2) ? gen::genProps(c.g) : f.props;
    switch (c.g.weighted({5, 5, 1, 1, 1, 1, 1, 1})) {
        case 0:
            break;
        case 1: {
            std::vector<int> order;
            for (size_t k = 0; k < h.cols.size(); k++)
                order.push_back(int(k));
            c.g.shuffle(order);
            ref::Frame p = h;
            for (size_t k = 0; k < order.size(); k++)
                p.cols[k] = h.cols[size_t(order[k])];
            h = p;
            break;
        }
        case 2: {  // one column fewer
            if (h.cols.size() > 1)
                h.cols.erase(h.cols.begin() + long(c.g.index(h.cols.size())));
            break;
        }
        case 3: {  // one more
            ref::Col x = gen::genColumn(c.g, o);
            if (!h.find(x.name)) {
                gen::fill(c.g, x, h.nrows, o);
                h.cols.push_back(x);
            }
            break;
        }
        case 4: {  // another type
            auto& x = h.cols[c.g.index(h.cols.size())];
            std::string name = x.name;
            x                = gen::genColumn(c.g, o);
            x.name           = name;
            gen::fill(c.g, x, h.nrows, o);
            break;
        }
        case 5: {  // another name
            auto& x = h.cols[c.g.index(h.cols.size())];
            std::string n = x.name + "x";
            if (!h.find(n))
                x.name = n;
            break;
        }
        case 6: {  // wider strings
            for (auto& x : h.cols)
                if (x.type == ref::STRING) {
                    x.width += 8;
                    gen::fill(c.g, x, h.nrows, o);
                }
            break;
        }
        default:
            return gen::genTable(c.g, o);
    }
    return h;
}

static bool compatible(const ref::Frame& a, const ref::Frame& b) {
    if (a.cols.size() != b.cols.size())
        return false;
    for (auto& x : a.cols) {
        const ref::Col* y = b.find(x.name);
        if (!y || y->type != x.type || y->width != x.width)
            return false;
    }
    return true;
}

static void aggregate(Ctx& c, const gen::Opts& o, int maxFrames) {
    size_t n = size_t(c.g.range(1, maxFrames));
    std::vector<ref::Frame> in;
    std::string bytes;
    size_t largest = 0, total = 0;
    for (size_t i = 0; i < n; i++) {
        ref::Frame f = i == 0 ? gen::genTable(c.g, o) : derive(c, in[c.g.chance(1, 5) ? 0 : i - 1], o);
        if (c.g.chance(1, 25))
            f = gen::rows(f, 0, 0);
        std::string b = gen::encodeAny(c.g, f);
        // element sizes are those the stream implies
        ref::Frame g = ref::decodeAll(b).at(0);
        for (size_t k = 0; k < f.cols.size(); k++)
            f.cols[k].width = g.cols[k].width;
        bytes += b;
        c.note(gen::describe(f, 3));
        largest = std::max(largest, f.nrows);
        total += f.nrows;
        in.push_back(f);
    }
    c.artifact("stream.odb", bytes);
    long limit = -1;
    switch (c.g.weighted({2, 2, 1})) {
        case 0:
            break;
        case 1:
            limit = c.g.range(int64_t(largest), int64_t(total));
            break;
        default:
            limit = c.g.range(int64_t(largest), int64_t(largest) + 5);
    }
    c.note("limit " + std::to_string(limit));
    capi::setLongs(c.g.chance(1, 2));

    // the partition the property asks for
    std::vector<std::vector<ref::Frame>> want;
    for (auto& f : in) {
        bool join = false;
        if (!want.empty()) {
            size_t rows = f.nrows;
            for (auto& g : want.back())
                rows += g.nrows;
            join = compatible(want.back().front(), f) && (limit < 0 || rows <= size_t(limit));
        }
        if (!join)
            want.emplace_back();
        want.back().push_back(f);
    }

    capi::Read r;
    r.columnMajor = c.g.chance(1, 4);
    r.threads     = int(c.g.chance(1, 4) ? c.g.range(2, 5) : 1);
    auto got      = capi::readAll(bytes, &limit, r);
    bool joined = false, permuted = false;
    VF_CHECK(c, got.size() == want.size(), got.size() << " logical frames instead of " << want.size());
    for (size_t i = 0; i < got.size(); i++) {
        ref::Frame w  = gen::join(want[i]);
        std::string d = gen::diff(w, got[i]);
        VF_CHECK(c, d.empty(), "logical frame " << i << " of " << want[i].size() << " constituents: " << d);
        for (size_t k = 0; k < w.cols.size(); k++)
            VF_CHECK(c, got[i].cols[k].width == w.cols[k].width, "element size of " << w.cols[k].name);
        for (auto& f : want[i]) {
            joined = joined || (&f != &want[i][0]);
            for (size_t k = 0; k < f.cols.size(); k++)
                permuted = permuted || f.cols[k].name != w.cols[k].name;
            for (auto& p : f.props)
                VF_CHECK(c, got[i].props.count(p.first), "property " << p.first << " of a constituent is lost");
        }
        for (auto& p : got[i].props) {
            bool found = false;
            for (auto& f : want[i]) {
                auto it = f.props.find(p.first);
                found   = found || (it != f.props.end() && it->second == p.second);
            }
            VF_CHECK(c, found, "property " << p.first << " is not that of a constituent");
        }
    }

    // single columns, in another order, of the logical frames through the C++ interface
    try {
        eckit::MemoryHandle mh(bytes.data(), bytes.size());
        mh.openForRead();
        odc::api::Reader reader(mh, true, limit);
        size_t i = 0;
        while (odc::api::Frame f = reader.next()) {
            VF_CHECK(c, i < want.size(), "more logical frames through the C++ interface");
            ref::Frame w = gen::join(want[i]);
            VF_CHECK(c, f.rowCount() == w.nrows && f.columnCount() == w.cols.size(), "shape of logical frame " << i);
            size_t k = c.g.index(w.cols.size());
            auto& col = w.cols[k];
            std::string mem(col.width * (w.nrows + 1), '\x5a');
            if (w.nrows > 0) {
                std::vector<odc::api::StridedData> sd{
                    odc::api::StridedData(&mem[0], w.nrows, col.width, col.width)};
                odc::api::Decoder dec({col.name}, sd);
                dec.decode(f, size_t(c.g.range(1, 3)));
            }
            for (size_t q = 0; q < w.nrows; q++) {
                ref::Col gc = col;
                gc.missing  = ref::defaultMissing(col.type);
                ref::Cell x = capi::getCell(gc, &mem[q * col.width], col.width);
                ref::Frame a, b;
                a.nrows = b.nrows = 1;
                a.cols.push_back(col);
                b.cols.push_back(gc);
                a.cols[0].cells = {col.cells[q]};
                b.cols[0].cells = {x};
                std::string d   = gen::diff(a, b);
                VF_CHECK(c, d.empty(), "column " << col.name << " of logical frame " << i << ", row " << q << ": " << d);
            }
            VF_CHECK(c, mem.substr(w.nrows * col.width) == std::string(col.width, '\x5a'), "bytes after the column changed");
            i++;
        }
        VF_CHECK(c, i == want.size(), "fewer logical frames through the C++ interface");
    }
    catch (std::exception& e) {
        c.fail(std::string("exception: ") + e.what());
    }
    c.labelIf(joined, "joined");
    c.labelIf(permuted, "columns reordered");
    c.labelIf(limit >= 0, "row limit");
    c.labelIf(want.size() > 1, "several logical frames");
    c.nontrivial = joined;
}

// a limit below the size of a frame: an error or frames within the limit, never more rows than asked for
static void tooSmall(Ctx& c, const gen::Opts& o) {
    ref::Frame f = gen::genTable(c.g, o);
    std::string bytes = gen::encodeAny(c.g, f);
    long limit = c.g.range(0, int64_t(f.nrows) - 1);
    c.note(gen::describe(f, 2) + " limit " + std::to_string(limit));
    odc_reader_t* rd = nullptr;
    odc_frame_t* fr  = nullptr;
    OK(odc_open_buffer(&rd, bytes.data(), long(bytes.size())));
    OK(odc_new_frame(&fr, rd));
    for (int i = 0; i < 3; i++) {
        int rc = odc_next_frame_aggregated(fr, limit);
        if (rc != ODC_SUCCESS)
            break;
        long n = 0;
        OK(odc_frame_row_count(fr, &n));
        VF_CHECK(c, n <= limit, "a logical frame has " << n << " rows, the limit is " << limit);
    }
    odc_free_frame(fr);
    odc_close(rd);
    c.nontrivial = true;
}

int main(int argc, char** argv) {
    gen::unusedMayBeLonger = true;
    Suite s;
    s.property = "C05";
    s.rule =
        "streams of 1-8 frames where most frames share columns with the one before (reordered, re-encoded with other "
        "codecs or byte order) and some differ in one name, type, element size or number of columns, aggregated without "
        "limit or with a random row limit no smaller than the largest frame; compared to the greedy partition of the "
        "reference model; non-trivial: at least two frames are joined";
    s.init = capi::init;
    gen::Opts o;
    o.maxRows = 15, o.maxCols = 5, o.edgeShape = false;
    gen::Opts few = o;
    few.maxCols = 2, few.maxRows = 4;
    s.subs.push_back({"aggregation", [=](Ctx& c) { aggregate(c, o, 8); }, 12000, 400000});
    s.subs.push_back({"many frames", [=](Ctx& c) { aggregate(c, few, 40); }, 3000, 100000});
    s.subs.push_back({"limit below a frame", [=](Ctx& c) { tooSmall(c, few); }, 300, 3000});
    s.assumptions = {"frames with the same column names give a bitfield column the same members"};
    return vf::main(argc, argv, s);
}
