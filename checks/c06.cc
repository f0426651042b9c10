// C06: decoded values do not depend on target layout or column subset
#include "capi.h"

#include <memory>

#include "eckit/io/MemoryHandle.h"
#include "odc/api/Odb.h"

using namespace vf;

namespace {

struct Opened {
    odc_reader_t* rd   = nullptr;
    odc_frame_t* fr    = nullptr;
    odc_decoder_t* dec = nullptr;
    ~Opened() {
        if (dec)
            odc_free_decoder(dec);
        if (fr)
            odc_free_frame(fr);
        if (rd)
            odc_close(rd);
    }
};

// One requested column
struct Want {
    size_t col;  // in the frame
    std::string name;
    size_t elem = 0, stride = 0;  // as requested; 0: default
    bool own = false;
    std::string mem;  // own memory
};

const char GUARD = '\x5a';

}  // namespace

static ref::Frame makeFrame(Ctx& c, const gen::Opts& o, std::string& bytes) {
    size_t n = c.g.chance(1, 3) ? size_t(c.g.range(2, 4)) : 1;
    ref::Frame first = gen::genTable(c.g, o);
    std::vector<ref::Frame> v;
    for (size_t i = 0; i < n; i++) {
        ref::Frame f = i ? gen::genLike(c.g, first, o) : first;
        std::string b = gen::encodeAny(c.g, f, true);
        ref::Frame d  = ref::decodeAll(b).at(0);
        for (size_t k = 0; k < f.cols.size(); k++)
            f.cols[k].width = d.cols[k].width;
        if (i > 0) {
            bool same = true;
            for (size_t k = 0; k < f.cols.size(); k++)
                same = same && f.cols[k].width == v[0].cols[k].width;
            if (!same)
                continue;
        }
        bytes += b;
        v.push_back(f);
    }
    ref::Frame j = gen::join(v);
    c.labelIf(v.size() > 1, "aggregated");
    return j;
}

static std::vector<Want> chooseColumns(Ctx& c, const ref::Frame& f) {
    std::vector<int> order;
    for (size_t k = 0; k < f.cols.size(); k++)
        order.push_back(int(k));
    c.g.shuffle(order);
    size_t n = size_t(c.g.range(1, int64_t(order.size())));
    std::vector<Want> v;
    for (size_t i = 0; i < n; i++) {
        Want w;
        w.col          = size_t(order[i]);
        w.name         = f.cols[w.col].name;
        std::string sn = gen::shortName(w.name);
        size_t uses    = 0;
        for (auto& x : f.cols)
            uses += gen::shortName(x.name) == sn;
        if (uses == 1 && sn != w.name && c.g.chance(1, 2)) {
            w.name = sn;
            c.label("short name");
        }
        v.push_back(w);
    }
    return v;
}

static void checkCell(Ctx& c, const ref::Frame& f, size_t k, size_t r, const char* cell, size_t elem) {
    ref::Frame a, b;
    a.nrows = b.nrows = 1;
    a.cols.push_back(f.cols[k]);
    b.cols.push_back(f.cols[k]);
    b.cols[0].missing = ref::defaultMissing(f.cols[k].type);
    a.cols[0].cells   = {f.cols[k].cells[r]};
    b.cols[0].cells   = {capi::getCell(b.cols[0], cell, elem)};
    // the file's declared missing value is what is delivered
    std::string d = gen::diff(a, b);
    VF_CHECK(c, d.empty(), "row " << r << " of column " << f.cols[k].name << ": " << d);
    if (f.cols[k].type == ref::STRING)
        for (size_t i = f.cols[k].cells[r].s.size(); i < elem; i++)
            VF_CHECK(c, cell[i] == 0, "row " << r << " of column " << f.cols[k].name << ": byte " << i
                                             << " after the string is not zero");
}

static void layouts(Ctx& c, const gen::Opts& o) {
    capi::setLongs(c.g.chance(1, 2));
    std::string bytes;
    ref::Frame f = makeFrame(c, o, bytes);
    c.artifact("stream.odb", bytes);
    auto want = chooseColumns(c, f);

    Opened h;
    OK(odc_open_buffer(&h.rd, bytes.data(), long(bytes.size())));
    OK(odc_new_frame(&h.fr, h.rd));
    OK(odc_next_frame_aggregated(h.fr, -1));
    OK(odc_new_decoder(&h.dec));
    int kind      = int(c.g.index(4));  // library memory, supplied array, per column, mixed
    bool supplied = kind == 1 || (kind == 3 && c.g.chance(1, 2));
    bool colMajor = c.g.chance(1, 2);
    for (auto& w : want)
        OK(odc_decoder_add_column(h.dec, w.name.c_str()));
    bool anyShared = false;
    for (size_t i = 0; i < want.size(); i++) {
        auto& w      = want[i];
        size_t width = f.cols[w.col].width;
        w.own        = kind == 2 || (kind == 3 && c.g.chance(1, 2));
        anyShared    = anyShared || !w.own;
        w.elem       = c.g.chance(1, 3) ? width + 8 * size_t(c.g.range(0, 2)) : 0;
        if (f.cols[w.col].type != ref::STRING && w.elem)
            w.elem = 8;
        if (w.own) {
            if (w.elem == 0 && width > 8)
                w.elem = width;  // the default for supplied memory is 8 bytes
            size_t e = w.elem ? w.elem : 8;
            w.stride = c.g.chance(1, 2) ? e + 8 * size_t(c.g.range(0, 3)) : 0;
            w.mem.assign((w.stride ? w.stride : e) * f.nrows + 24, GUARD);
            OK(odc_decoder_column_set_data_array(h.dec, int(i), int(w.elem), int(w.stride), &w.mem[0]));
        }
        else if (w.elem)
            OK(odc_decoder_column_set_data_size(h.dec, int(i), int(w.elem)));
    }
    size_t sharedWidth = 0;
    for (auto& w : want)
        if (!w.own)
            sharedWidth += w.elem ? w.elem : f.cols[w.col].width;
    size_t height = f.nrows;
    std::string array;
    size_t arrayWidth = sharedWidth;
    if (supplied) {
        arrayWidth = sharedWidth + (c.g.chance(1, 3) ? 8 * size_t(c.g.range(1, 3)) : 0);
        if (arrayWidth == 0)
            arrayWidth = 8;
        height = f.nrows + (c.g.chance(1, 3) ? size_t(c.g.range(1, 4)) : 0);
        array.assign(arrayWidth * height + 24, GUARD);
        OK(odc_decoder_set_data_array(h.dec, &array[0], long(arrayWidth), long(height), colMajor));
        if (height > f.nrows && c.g.chance(1, 3)) {
            // only some of the rows of the array are to be used
            OK(odc_decoder_set_row_count(h.dec, c.g.range(int64_t(f.nrows), int64_t(height))));
            c.label("row count below the height");
        }
    }
    else {
        OK(odc_decoder_set_column_major(h.dec, colMajor));
        // (without a row count odc_decode refuses: it must be set, or come from an array)
        height = f.nrows + (c.g.chance(1, 3) ? size_t(c.g.range(1, 3)) : 0);
        OK(odc_decoder_set_row_count(h.dec, long(height)));
    }
    c.note(std::string(kind == 0   ? "library memory"
                       : kind == 1 ? "supplied array"
                       : kind == 2 ? "per column"
                                   : "mixed") +
           (supplied ? " array" : "") + (colMajor ? " column-major" : " row-major") + " height " +
           std::to_string(height) + " width " + std::to_string(arrayWidth));
    for (auto& w : want)
        c.note("  " + w.name + " elem=" + std::to_string(w.elem) + (w.own ? " own stride=" + std::to_string(w.stride) : ""));
    c.note(gen::describe(f, 4));
    c.label(kind == 0 ? "library" : kind == 1 ? "array" : kind == 2 ? "per column" : supplied ? "mixed with array" : "mixed");

    size_t times = c.g.chance(1, 4) ? 2 : 1;
    std::string array2;
    for (size_t t = 0; t < times; t++) {
        if (t == 1 && supplied && c.g.chance(1, 2)) {
            // decode again into another array; the first one must stay as it is
            array2.assign(array.size(), GUARD);
            OK(odc_decoder_set_data_array(h.dec, &array2[0], long(arrayWidth), long(height), colMajor));
            c.label("decoder reused with another array");
        }
        std::string& target  = array2.empty() ? array : array2;
        std::string previous = array2.empty() ? std::string() : array;
        long rows            = -1;
        OK(odc_decode_threaded(h.dec, h.fr, &rows, int(c.g.chance(1, 4) ? c.g.range(2, 3) : 1)));
        VF_CHECK(c, rows == long(f.nrows), "decoded " << rows << " rows of " << f.nrows);
        VF_CHECK(c, array2.empty() || previous == array, "decoding into a new array changed the previous one");

        const char* base = nullptr;
        size_t aw = 0, ah = 0;
        if (anyShared) {
            const void* p = nullptr;
            long w = 0, hh = 0;
            bool cm = !colMajor;
            OK(odc_decoder_data_array(h.dec, &p, &w, &hh, &cm));
            base = static_cast<const char*>(p);
            aw = size_t(w), ah = size_t(hh);
            VF_CHECK(c, aw == arrayWidth && ah == height && cm == colMajor,
                     "array reported as " << aw << "x" << ah << ", expected " << arrayWidth << "x" << height);
            VF_CHECK(c, !supplied || base == &target[0], "another array is reported than the one supplied");
        }
        size_t offset = 0;
        std::vector<char> usedArray(target.size(), 0);
        for (size_t i = 0; i < want.size(); i++) {
            auto& w        = want[i];
            const auto& cl = f.cols[w.col];
            int elem = -1, stride = -1;
            const void* p = nullptr;
            OK(odc_decoder_column_data_array(h.dec, int(i), &elem, &stride, &p));
            const char* d = static_cast<const char*>(p);
            size_t expect = w.elem ? w.elem : w.own ? 8 : cl.width;
            VF_CHECK(c, size_t(elem) == expect, "element size of " << w.name << " reported as " << elem << ", not " << expect);
            if (w.own) {
                size_t s = w.stride ? w.stride : expect;
                VF_CHECK(c, d == &w.mem[0], "another location is reported for " << w.name);
                VF_CHECK(c, size_t(stride) == s, "stride of " << w.name << " reported as " << stride << ", not " << s);
                std::vector<char> used(w.mem.size(), 0);
                for (size_t r = 0; r < f.nrows; r++) {
                    checkCell(c, f, w.col, r, d + r * s, expect);
                    memset(&used[r * s], 1, expect);
                }
                for (size_t b = 0; b < used.size(); b++)
                    VF_CHECK(c, used[b] || w.mem[b] == GUARD, "byte " << b << " outside the cells of " << w.name << " changed");
                continue;
            }
            size_t at = size_t(d - base);
            if (!colMajor) {
                VF_CHECK(c, at == offset && size_t(stride) == arrayWidth,
                         "column " << w.name << " is at offset " << at << " with stride " << stride << ", expected offset "
                                   << offset << " with stride " << arrayWidth);
                for (size_t r = 0; r < f.nrows; r++) {
                    checkCell(c, f, w.col, r, d + r * size_t(stride), expect);
                    if (supplied)
                        memset(&usedArray[at + r * size_t(stride)], 1, expect);
                }
            }
            else {
                VF_CHECK(c, at == offset * height, "column " << w.name << " is at offset " << at << ", expected " << offset * height);
                std::vector<char> cell(expect);
                for (size_t r = 0; r < f.nrows; r++) {
                    // 8-byte elements of a cell are in separate array columns
                    for (size_t e = 0; e < expect / 8; e++) {
                        memcpy(&cell[e * 8], d + (e * height + r) * 8, 8);
                        if (supplied)
                            memset(&usedArray[at + (e * height + r) * 8], 1, 8);
                    }
                    checkCell(c, f, w.col, r, cell.data(), expect);
                }
            }
            offset += expect;
        }
        if (supplied)
            for (size_t b = 0; b < target.size(); b++)
                VF_CHECK(c, usedArray[b] || target[b] == GUARD, "byte " << b << " outside the requested cells of the array changed");
    }
    c.labelIf(colMajor && (kind != 2), "column-major");
    c.nontrivial = f.nrows > 1 && (want.size() < f.cols.size() || want.size() > 1);
}

// C++ interface: strided targets, slices of a decoder
static void cxx(Ctx& c, const gen::Opts& o) {
    capi::setLongs(c.g.chance(1, 2));
    std::string bytes;
    ref::Frame f = makeFrame(c, o, bytes);
    auto want    = chooseColumns(c, f);
    try {
        eckit::MemoryHandle mh(bytes.data(), bytes.size());
        mh.openForRead();
        odc::api::Reader reader(mh, true);
        odc::api::Frame fr = reader.next();
        size_t before      = c.g.chance(1, 2) ? size_t(c.g.range(1, 3)) : 0;
        size_t after       = c.g.chance(1, 2) ? size_t(c.g.range(1, 3)) : 0;
        size_t total       = before + f.nrows + after;
        std::vector<std::string> names;
        std::vector<odc::api::StridedData> sd;
        for (auto& w : want) {
            w.elem   = f.cols[w.col].width + (f.cols[w.col].type == ref::STRING ? 8 * size_t(c.g.range(0, 1)) : 0);
            w.stride = w.elem + 8 * size_t(c.g.range(0, 3));
            w.mem.assign(w.stride * total + 16, GUARD);
            names.push_back(w.name);
            sd.emplace_back(&w.mem[0], total, w.elem, w.stride);
        }
        c.note("C++ " + gen::describe(f, 4) + " rows before " + std::to_string(before) + " after " + std::to_string(after));
        odc::api::Decoder whole(names, sd);
        size_t threads = size_t(c.g.range(1, 3));
        if (before || after) {
            odc::api::Decoder part = whole.slice(before, f.nrows + (c.g.chance(1, 2) ? after : 0));
            part.decode(fr, threads);
            c.label("slice");
        }
        else
            whole.decode(fr, threads);
        for (auto& w : want) {
            std::vector<char> used(w.mem.size(), 0);
            for (size_t r = 0; r < f.nrows; r++) {
                checkCell(c, f, w.col, r, &w.mem[(before + r) * w.stride], w.elem);
                memset(&used[(before + r) * w.stride], 1, w.elem);
            }
            for (size_t b = 0; b < used.size(); b++)
                VF_CHECK(c, used[b] || w.mem[b] == GUARD, "byte " << b << " outside the cells of " << w.name << " changed");
        }
    }
    catch (std::exception& e) {
        c.fail(std::string("exception: ") + e.what());
    }
    c.nontrivial = f.nrows > 1;
}

// one decoder used for frame after frame, with its settings changed in between
static void reuse(Ctx& c, const gen::Opts& o) {
    capi::setLongs(c.g.chance(1, 2));
    ref::Frame first = gen::genTable(c.g, o);
    std::vector<ref::Frame> v;
    std::string bytes;
    size_t n = size_t(c.g.range(2, 4));
    for (size_t i = 0; i < n; i++) {
        ref::Frame f  = i ? gen::genLike(c.g, first, o) : first;
        std::string b = gen::encodeAny(c.g, f, true);
        ref::Frame d  = ref::decodeAll(b).at(0);
        bool same     = true;
        for (size_t k = 0; k < f.cols.size(); k++) {
            f.cols[k].width = d.cols[k].width;
            same            = same && (v.empty() || v[0].cols[k].width == f.cols[k].width);
        }
        if (!same)
            continue;
        bytes += b;
        v.push_back(f);
        c.note(gen::describe(f, 3));
    }
    c.artifact("stream.odb", bytes);
    auto want = chooseColumns(c, v[0]);
    Opened h;
    OK(odc_open_buffer(&h.rd, bytes.data(), long(bytes.size())));
    OK(odc_new_frame(&h.fr, h.rd));
    OK(odc_new_decoder(&h.dec));
    for (auto& w : want)
        OK(odc_decoder_add_column(h.dec, w.name.c_str()));
    bool colMajor = false;
    size_t rows   = 0;
    std::vector<std::string> arrays(v.size());
    bool mine = false;
    for (size_t i = 0; i < v.size(); i++) {
        ref::Frame& f = v[i];
        OK(odc_next_frame(h.fr));
        if (i == 0 || c.g.chance(1, 2)) {
            bool cm = c.g.chance(1, 2);
            c.labelIf(i > 0 && cm != colMajor, "orientation changed");
            colMajor = cm;
            OK(odc_decoder_set_column_major(h.dec, colMajor));
        }
        if (c.g.chance(1, 3)) {
            size_t width = 0;
            for (auto& w : want)
                width += f.cols[w.col].width;
            rows = f.nrows + size_t(c.g.range(0, 2));
            arrays[i].assign(width * rows + 16, GUARD);
            OK(odc_decoder_set_data_array(h.dec, &arrays[i][0], long(width), long(rows), colMajor));
            mine = true;
            c.labelIf(i > 0, "array changed");
        }
        else if (rows < f.nrows || c.g.chance(1, 2)) {
            if (mine)  // an array stays in use until another is given
                c.discard();
            c.labelIf(i > 0, "row count changed");
            rows = f.nrows + size_t(c.g.range(0, 2));
            OK(odc_decoder_set_row_count(h.dec, long(rows)));
        }
        std::vector<std::string> before = arrays;
        long got                        = -1;
        OK(odc_decode(h.dec, h.fr, &got));
        VF_CHECK(c, got == long(f.nrows), "decoded " << got << " rows of " << f.nrows);
        const void* p = nullptr;
        long w = 0, hh = 0;
        bool cm = !colMajor;
        OK(odc_decoder_data_array(h.dec, &p, &w, &hh, &cm));
        VF_CHECK(c, cm == colMajor, "orientation reported wrongly");
        VF_CHECK(c, size_t(hh) == rows, "height reported as " << hh << ", not " << rows);
        size_t offset = 0;
        for (size_t j = 0; j < want.size(); j++) {
            int elem = 0, stride = 0;
            const void* q = nullptr;
            OK(odc_decoder_column_data_array(h.dec, int(j), &elem, &stride, &q));
            const char* d   = static_cast<const char*>(q);
            size_t width    = f.cols[want[j].col].width;
            VF_CHECK(c, size_t(elem) == width, "element size " << elem << ", not " << width);
            VF_CHECK(c, d == static_cast<const char*>(p) + (colMajor ? offset * rows : offset), "column " << j << " is misplaced");
            std::vector<char> cell(width);
            for (size_t r = 0; r < f.nrows; r++) {
                for (size_t e = 0; e < width / 8; e++)
                    memcpy(&cell[e * 8], colMajor ? d + (e * rows + r) * 8 : d + r * size_t(stride) + e * 8, 8);
                checkCell(c, f, want[j].col, r, cell.data(), width);
            }
            offset += width;
        }
        VF_CHECK(c, size_t(w) == offset, "width reported as " << w << ", not " << offset);
        for (size_t k = 0; k < arrays.size(); k++) {
            if (k < i && !arrays[i].empty())
                VF_CHECK(c, arrays[k] == before[k], "an array given earlier changed");
            if (!arrays[k].empty())
                VF_CHECK(c, arrays[k].substr(arrays[k].size() - 16) == std::string(16, GUARD), "bytes after an array changed");
        }
    }
    c.nontrivial = v.size() > 1;
}

// cells too small for a column: an error, never a write beyond the cell
static void tooSmall(Ctx& c, gen::Opts o) {
    o.integers = o.reals = o.doubles = o.bitfields = false;
    o.strings = true;
    capi::setLongs(false);
    ref::Frame f = gen::genTable(c.g, o);
    std::string bytes = gen::encodePlain(f);
    f = ref::decodeAll(bytes).at(0);
    size_t k = c.g.index(f.cols.size());
    if (f.cols[k].width <= 8)
        c.discard();
    Opened h;
    OK(odc_open_buffer(&h.rd, bytes.data(), long(bytes.size())));
    OK(odc_new_frame(&h.fr, h.rd));
    OK(odc_next_frame(h.fr));
    OK(odc_new_decoder(&h.dec));
    OK(odc_decoder_add_column(h.dec, f.cols[k].name.c_str()));
    size_t elem = 8 * size_t(c.g.range(1, int64_t(f.cols[k].width / 8) - 1));
    size_t stride = c.g.chance(1, 2) ? elem : f.cols[k].width + 8;
    std::string mem(stride * f.nrows, GUARD);
    OK(odc_decoder_column_set_data_array(h.dec, 0, int(elem), int(stride), &mem[0]));
    long rows = 0;
    int rc    = odc_decode(h.dec, h.fr, &rows);
    c.note("cells of " + std::to_string(elem) + " bytes " + gen::describe(f, 3));
    for (size_t r = 0; r < f.nrows; r++)
        for (size_t b = elem; b < stride; b++)
            VF_CHECK(c, mem[r * stride + b] == GUARD, "byte outside a cell changed (" << capi::errorText(rc) << ")");
    c.nontrivial = true;
}

int main(int argc, char** argv) {
    gen::unusedMayBeLonger = true;
    Suite s;
    s.property = "C06";
    s.rule =
        "random frames (single or aggregated), random subsets and orders of their columns by full or unambiguous short "
        "name, decoded into library memory, a supplied array (row or column major, wider and higher than needed), per-column "
        "strided memory or a mixture, with default or wider cells; every cell compared to the reference decoder's value, every "
        "other byte compared to a guard pattern; non-trivial: several rows and more than one column involved";
    s.init = capi::init;
    gen::Opts o;
    o.maxRows = 25;
    o.dupShort = true;
    s.subs.push_back({"layouts", [=](Ctx& c) { layouts(c, o); }, 24000, 800000});
    s.subs.push_back({"C++ decoder", [=](Ctx& c) { cxx(c, o); }, 8000, 200000});
    s.subs.push_back({"decoder reused", [=](Ctx& c) { reuse(c, o); }, 8000, 200000});
    s.subs.push_back({"cells too small", [=](Ctx& c) { tooSmall(c, o); }, 2000, 20000});
    return vf::main(argc, argv, s);
}
