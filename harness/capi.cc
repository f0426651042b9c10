#include "capi.h"
#include <algorithm>

namespace capi {

static thread_local bool g_longs = false;
static bool g_init  = false;

void init() {
    if (!g_init) {
        odc_initialise_api();
        odc_set_failure_handler(nullptr, nullptr);
        g_init = true;
    }
}

std::string errorText(int rc) {
    const char* s = odc_error_string(rc);
    return s ? s : "(null)";
}

void ok(int rc, const char* what) {
    if (rc != ODC_SUCCESS)
        throw vf::Failure{std::string("unexpected error from ") + what + ": " + errorText(rc)};
}

void setLongs(bool l) {
    OK(odc_integer_behaviour(l ? ODC_INTEGERS_AS_LONGS : ODC_INTEGERS_AS_DOUBLES));
    g_longs = l;
}
bool longs() {
    return g_longs;
}

void putCell(const ref::Col& c, const ref::Cell& x, char* p, size_t width) {
    memset(p, 0, width);
    if (c.type == ref::STRING)
        memcpy(p, x.s.data(), std::min(width, x.s.size()));
    else if (c.isInt()) {
        if (g_longs) {
            int64_t v = x.missing ? int64_t(c.missing) : x.i;
            memcpy(p, &v, 8);
        }
        else {
            double v = x.missing ? c.missing : double(x.i);
            memcpy(p, &v, 8);
        }
    }
    else {
        double v = x.missing ? c.missing : x.d;
        memcpy(p, &v, 8);
    }
}

ref::Cell getCell(const ref::Col& c, const char* p, size_t width) {
    ref::Cell x;
    if (c.type == ref::STRING) {
        size_t n = 0;
        while (n < width && p[n])
            n++;
        x.s.assign(p, n);
        return x;
    }
    double d;
    int64_t i;
    memcpy(&d, p, 8);
    memcpy(&i, p, 8);
    if (c.isInt()) {
        if (g_longs) {
            x.i       = i;
            x.missing = i == int64_t(c.missing);
        }
        else {
            x.missing = d == c.missing;
            if (!(d > -9e18 && d < 9e18) || d != std::floor(d))
                throw vf::Failure{"integer column " + c.name + " decoded to a non-integral value " + std::to_string(d)};
            x.i = int64_t(d);
        }
        x.d = double(x.i);
    }
    else {
        x.d       = d;
        x.missing = d == c.missing;
    }
    return x;
}

std::string Layout::text() const {
    std::ostringstream o;
    o << (kind == 0 ? "row-major" : kind == 1 ? "column-major" : "per-column");
    if (extraWidth)
        o << " pad=" << extraWidth;
    if (extraRows)
        o << " extrarows=" << extraRows;
    if (rowsPerFrame)
        o << " rows/frame=" << rowsPerFrame;
    for (auto s : stride)
        o << " s" << s;
    if (propsTwice)
        o << " properties set twice";
    if (padding)
        o << " padding=" << int(padding);
    return o.str();
}

Layout genLayout(vf::Src& g, const Frame& f) {
    Layout l;
    l.kind             = int(g.index(3));
    l.extraWidth       = g.chance(1, 3) ? 8 * size_t(g.range(1, 3)) : 0;
    l.extraRows        = l.kind != 2 && g.chance(1, 4) ? size_t(g.range(1, 5)) : 0;
    l.rowCountExplicit = l.extraRows > 0 || l.kind == 2 || g.chance(1, 2);
    l.setSizes         = true;
    for (auto& c : f.cols)
        l.stride.push_back(g.chance(1, 2) ? 0 : c.width + 8 * size_t(g.range(0, 4)));
    switch (g.weighted({3, 2, 1, 1})) {
        case 0:
            break;
        case 1:
            l.rowsPerFrame = g.range(1, std::max<int64_t>(1, int64_t(f.nrows)));
            break;
        case 2:
            l.rowsPerFrame = int64_t(f.nrows) + g.range(-1, 1);
            break;
        default:
            l.rowsPerFrame = g.range(1, 3);
    }
    if (l.rowsPerFrame < 0)
        l.rowsPerFrame = 1;
    if (l.rowsPerFrame > 0 && f.nrows / size_t(l.rowsPerFrame) > 60)
        l.rowsPerFrame = long(f.nrows / 10);
    return l;
}

Encoding::~Encoding() {
    if (enc)
        odc_free_encoder(enc);
}

void Encoding::setup(const Frame& f, const Layout& l) {
    init();
    if (!enc)
        OK(odc_new_encoder(&enc));
    for (auto& p : f.props)
        if (l.propsTwice)
            OK(odc_encoder_add_property(enc, p.first.c_str(), ("not " + p.second).c_str()));
    for (auto& p : f.props)
        OK(odc_encoder_add_property(enc, p.first.c_str(), p.second.c_str()));
    if (l.rowCountExplicit)
        OK(odc_encoder_set_row_count(enc, long(f.nrows)));
    if (l.rowsPerFrame)
        OK(odc_encoder_set_rows_per_frame(enc, l.rowsPerFrame));
    for (size_t k = 0; k < f.cols.size(); k++) {
        auto& c = f.cols[k];
        OK(odc_encoder_add_column(enc, c.name.c_str(), c.type));
        for (auto& b : c.bits)
            OK(odc_encoder_column_add_bitfield(enc, int(k), b.name.c_str(), b.size));
        if (l.kind != 2 && (c.width != 8 || l.setSizes))
            OK(odc_encoder_column_set_data_size(enc, int(k), int(c.width)));
    }
    size_t rw = f.rowWidth(), h = f.nrows + l.extraRows;
    auto putCell = [&](const ref::Col& c, const ref::Cell& x, char* p, size_t width) {
        capi::putCell(c, x, p, width);
        size_t len = strnlen(p, width);
        if (c.type == ref::STRING && l.padding && len + 1 < width)
            memset(p + len + 1, l.padding, width - len - 1);
    };
    mem.clear();
    if (l.kind == 0) {
        size_t w = rw + l.extraWidth;
        std::string m(w * h, '\x5a');
        for (size_t r = 0; r < f.nrows; r++) {
            size_t off = 0;
            for (auto& c : f.cols) {
                putCell(c, c.cells[r], &m[r * w + off], c.width);
                off += c.width;
            }
        }
        mem.push_back(std::move(m));
        OK(odc_encoder_set_data_array(enc, mem[0].data(), long(w), long(h), 0));
    }
    else if (l.kind == 1) {
        size_t w = rw + l.extraWidth;
        std::string m(w * h, '\x5a');
        size_t base = 0;
        std::vector<char> cell;
        for (auto& c : f.cols) {
            cell.resize(c.width);
            for (size_t r = 0; r < f.nrows; r++) {
                putCell(c, c.cells[r], cell.data(), c.width);
                for (size_t e = 0; e < c.width / 8; e++)
                    memcpy(&m[base + (e * h + r) * 8], &cell[e * 8], 8);
            }
            base += c.width * h;
        }
        mem.push_back(std::move(m));
        OK(odc_encoder_set_data_array(enc, mem[0].data(), long(w), long(h), 8));
    }
    else {
        for (size_t k = 0; k < f.cols.size(); k++) {
            auto& c  = f.cols[k];
            size_t s = k < l.stride.size() && l.stride[k] ? l.stride[k] : c.width;
            std::string m(s * f.nrows, '\x5a');
            for (size_t r = 0; r < f.nrows; r++)
                putCell(c, c.cells[r], &m[r * s], c.width);
            mem.push_back(std::move(m));
        }
        for (size_t k = 0; k < f.cols.size(); k++)
            OK(odc_encoder_column_set_data_array(enc, int(k), int(f.cols[k].width),
                                                 k < l.stride.size() ? int(l.stride[k]) : 0, mem[k].data()));
    }
    before = mem;
}

static long writeCb(void* ctx, const void* p, long n) {
    static_cast<std::string*>(ctx)->append(static_cast<const char*>(p), size_t(n));
    return n;
}

std::string drain(odc_encoder_t* enc, long* reported) {
    std::string out;
    long n = -1;
    OK(odc_encode_to_stream(enc, &out, writeCb, &n));
    if (reported)
        *reported = n;
    if (n != long(out.size()))
        throw vf::Failure{"encode reported " + std::to_string(n) + " bytes but wrote " + std::to_string(out.size())};
    return out;
}

std::string encode(const Frame& f, const Layout& l) {
    Encoding e;
    e.setup(f, l);
    std::string s = drain(e.enc);
    if (!e.sourceUntouched())
        throw vf::Failure{"encoding changed the source arrays"};
    return s;
}
std::string encode(const Frame& f) {
    return encode(f, Layout());
}

void readAttributes(odc_frame_t* fr, Frame& f) {
    long nrows = -1;
    int ncols  = -1;
    OK(odc_frame_row_count(fr, &nrows));
    OK(odc_frame_column_count(fr, &ncols));
    if (nrows < 0 || ncols < 0)
        throw vf::Failure{"negative row or column count"};
    f.nrows = size_t(nrows);
    f.cols.clear();
    for (int k = 0; k < ncols; k++) {
        const char* name = nullptr;
        int type = -1, size = -1, nbits = -1;
        OK(odc_frame_column_attributes(fr, k, &name, &type, &size, &nbits));
        ref::Col c;
        c.name    = name;
        c.type    = type;
        c.width   = size_t(size);
        c.missing = ref::defaultMissing(type);
        int expect = 0;
        for (int b = 0; b < nbits; b++) {
            const char* bn = nullptr;
            int off = -1, bs = -1;
            OK(odc_frame_bitfield_attributes(fr, k, b, &bn, &off, &bs));
            if (off != expect)
                throw vf::Failure{"bitfield " + std::string(bn) + " of " + c.name + " has offset " + std::to_string(off) +
                                  ", expected " + std::to_string(expect)};
            expect += bs;
            c.bits.push_back(ref::Bit{bn, bs});
        }
        f.cols.push_back(c);
    }
    int np = -1;
    OK(odc_frame_properties_count(fr, &np));
    f.props.clear();
    for (int k = 0; k < np; k++) {
        const char *key = nullptr, *val = nullptr;
        OK(odc_frame_property_idx(fr, k, &key, &val));
        f.props[key]    = val;
        const char* v2 = nullptr;
        OK(odc_frame_property(fr, key, &v2));
        if (!v2 || std::string(v2) != val)
            throw vf::Failure{"property looked up by name differs from the one listed"};
    }
    if (int(f.props.size()) != np)
        throw vf::Failure{"properties listed more than once"};
}

void readValues(odc_frame_t* fr, Frame& f, const Read& r) {
    odc_decoder_t* dec = nullptr;
    OK(odc_new_decoder(&dec));
    struct Free {
        odc_decoder_t* d;
        ~Free() { odc_free_decoder(d); }
    } guard{dec};
    OK(odc_decoder_defaults_from_frame(dec, fr));
    if (r.columnMajor)
        OK(odc_decoder_set_column_major(dec, true));
    long rows = -1;
    OK(odc_decode_threaded(dec, fr, &rows, r.threads));
    if (rows != long(f.nrows))
        throw vf::Failure{"decoded " + std::to_string(rows) + " rows of " + std::to_string(f.nrows)};
    if (f.nrows == 0)
        return;
    const void* data = nullptr;
    long w = 0, h = 0;
    bool cm = false;
    OK(odc_decoder_data_array(dec, &data, &w, &h, &cm));
    size_t rw = f.rowWidth();
    if (size_t(w) != rw || size_t(h) != f.nrows || cm != r.columnMajor)
        throw vf::Failure{"decoded array is " + std::to_string(w) + "x" + std::to_string(h) + ", expected " +
                          std::to_string(rw) + "x" + std::to_string(f.nrows)};
    const char* p = static_cast<const char*>(data);
    size_t off    = 0;
    std::vector<char> cell;
    for (auto& c : f.cols) {
        c.cells.clear();
        cell.resize(c.width);
        for (size_t k = 0; k < f.nrows; k++) {
            if (r.columnMajor) {
                for (size_t e = 0; e < c.width / 8; e++)
                    memcpy(&cell[e * 8], p + off * f.nrows + (e * f.nrows + k) * 8, 8);
                c.cells.push_back(getCell(c, cell.data(), c.width));
            }
            else
                c.cells.push_back(getCell(c, p + k * size_t(w) + off, c.width));
        }
        off += c.width;
    }
}

Frame readFrame(odc_frame_t* fr, const Read& r) {
    Frame f;
    readAttributes(fr, f);
    if (r.decode)
        readValues(fr, f, r);
    return f;
}

std::vector<Frame> readAll(const std::string& bytes, const long* maxRows, const Read& r) {
    init();
    std::vector<Frame> v;
    odc_reader_t* rd = nullptr;
    OK(odc_open_buffer(&rd, bytes.data(), long(bytes.size())));
    odc_frame_t* fr = nullptr;
    struct Free {
        odc_reader_t* r;
        odc_frame_t*& f;
        ~Free() {
            if (f)
                odc_free_frame(f);
            odc_close(r);
        }
    } guard{rd, fr};
    OK(odc_new_frame(&fr, rd));
    while (true) {
        int rc = maxRows ? odc_next_frame_aggregated(fr, *maxRows) : odc_next_frame(fr);
        if (rc == ODC_ITERATION_COMPLETE)
            break;
        ok(rc, "odc_next_frame");
        v.push_back(readFrame(fr, r));
    }
    return v;
}

}  // namespace capi
