// C10: hostile input is rejected without memory errors, hangs or aborts
//
// The process runs under AddressSanitizer, with a limit on single allocations far beyond what inputs of this size can
// need; the engine kills a case that does not come back in time.  What is checked here is that every entry point either
// delivers data or reports an error.
#include <sstream>
#include "capi.h"
#include "rows.h"

#include <fcntl.h>
#include <sanitizer/allocator_interface.h>
#include <unistd.h>

#include "eckit/exception/Exceptions.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "odc/Reader.h"
#include "odc/Select.h"
#include "odc/api/Odb.h"
#include "odc/core/MetaData.h"
#include "odc/core/TablesReader.h"
extern "C" {
#include "odc/odccapi.h"
}

using namespace vf;

namespace hostile {

const std::vector<std::string> CODECS = {"constant",      "constant_string",      "real_constant_or_missing",
                                         "constant_or_missing", "chars",           "int8_string",
                                         "int16_string",  "long_constant_string", "int8",
                                         "int8_missing",  "int16",                "int16_missing",
                                         "int32",         "short_real",           "short_real2",
                                         "long_real",     "int64",                ""};

void put(std::string& b, size_t pos, size_t n, int64_t v, bool swap) {
    char t[8];
    memcpy(t, &v, 8);
    for (size_t i = 0; i < n && pos + i < b.size(); i++)
        b[pos + i] = t[swap ? n - 1 - i : i];
}

int64_t evil(Src& g, int64_t old) {
    switch (g.weighted({3, 3, 2, 2, 2, 1})) {
        case 0:
            return old + g.range(-2, 2);
        case 1:
            return g.pick<int64_t>({-1, 0, 1, 2, 0x7fffffff, -0x7fffffff - 1, 0x7fffffffffffffff, -0x7fffffffffffffff - 1,
                                    0xffffffff, 0x10000, 0xffff, 255, 256, 0x80000000, 1 << 20, 1ll << 32, 1ll << 40, 0x3fffffff});
        case 2:
            return g.range(0, 300);
        case 3:
            return int64_t(1) << g.range(0, 62);
        case 4:
            return old * g.range(2, 9);
        default:
            return int64_t(g.draw(~0ull));
    }
}

double evilDouble(Src& g) {
    switch (g.weighted({1, 1, 1})) {
        case 0:
            return g.pick<double>({0, -1, 1, 1e300, -1e300, INFINITY, -INFINITY, NAN, 2147483647., 2147483648., -2147483648., 9.3e18, -9.3e18,
                                   4294967295., 65535, 5e-324, 1.5});
        case 1:
            return double(g.range(-1000, 1000));
        default: {
            uint64_t u = g.draw(~0ull);
            double d;
            memcpy(&d, &u, 8);
            return d;
        }
    }
}

// Turns a valid frame into an invalid (or merely odd) one
std::string corrupt(Ctx& c, const std::string& frame) {
    Src& g      = c.g;
    auto fields = ref::fields(frame);
    auto p      = ref::parts(frame, 0);
    std::string b = frame;
    std::vector<std::pair<size_t, std::pair<size_t, std::string>>> edits;  // splice: position -> (length, replacement)
    std::vector<size_t> hf, df;
    for (size_t i = 0; i < fields.size(); i++) {
        if (fields[i].pos >= p.data)
            df.push_back(i);
        else if (fields[i].pos >= p.varHeader)
            hf.push_back(i);
    }
    size_t n = c.g.chance(2, 3) ? 1 : size_t(g.range(2, 5));
    for (size_t k = 0; k < n; k++) {
        switch (g.weighted({8, 3, 4, 4, 2, 1, 2})) {
            case 0: {  // a number in the header
                auto& f = fields[g.pick(hf)];
                if (f.kind == 's') {
                    if (f.size)
                        b[f.pos + g.index(f.size)] = char(g.range(0, 255));
                    break;
                }
                if (f.kind == 'd' && g.chance(2, 3)) {
                    double d = evilDouble(g);
                    int64_t v;
                    memcpy(&v, &d, 8);
                    put(b, f.pos, 8, v, p.swapped);
                    break;
                }
                int64_t old = 0;
                for (size_t i = 0; i < f.size; i++)
                    old |= int64_t(uint8_t(b[f.pos + (p.swapped ? f.size - 1 - i : i)])) << (8 * i);
                if (f.size == 4)
                    old = int32_t(old);
                put(b, f.pos, f.size, evil(g, old), p.swapped);
                c.label("number in the header");
                break;
            }
            case 1: {  // another codec
                std::vector<size_t> at;
                for (size_t i : hf)
                    if (fields[i].kind == 's')
                        for (auto& s : CODECS)
                            if (!s.empty() && frame.compare(fields[i].pos, fields[i].size, s) == 0)
                                at.push_back(i);
                if (at.empty())
                    break;
                size_t i      = g.pick(at);
                std::string s = g.pick(CODECS);
                std::string len(4, 0);
                put(len, 0, 4, int64_t(s.size()), p.swapped);
                edits.push_back({fields[i].pos - 4, {fields[i].size + 4, len + s}});
                c.label("another codec");
                break;
            }
            case 2: {  // row data
                if (p.dataLen == 0)
                    break;
                size_t m = size_t(g.range(1, 8));
                for (size_t i = 0; i < m; i++)
                    b[p.data + g.index(p.dataLen)] = char(g.chance(1, 2) ? g.range(0, 255) : g.pick<int>({0, 1, 0xff, 0x7f, 0x80}));
                c.label("row data");
                break;
            }
            case 3: {  // a marker or an index
                if (df.empty())
                    break;
                auto& f = fields[g.pick(df)];
                for (size_t i = 0; i < f.size; i++)
                    b[f.pos + i] = char(g.pick<int>({0, 1, 0xff, 0x7f, 0x80, 5}));
                break;
            }
            case 4: {  // remove or repeat a stretch of the header
                size_t i = g.index(hf.size()), j = std::min(hf.size() - 1, i + size_t(g.range(0, 8)));
                size_t from = fields[hf[i]].pos, to = fields[hf[j]].pos + fields[hf[j]].size;
                std::string s = frame.substr(from, to - from);
                edits.push_back({from, {to - from, g.chance(1, 2) ? "" : s + s}});
                c.label("header fields removed or repeated");
                break;
            }
            case 6: {  // the members of a bitfield, as lists that can be read but do not belong together
                auto num = [&](size_t i) {
                    int32_t v = 0;
                    if (i < hf.size() && fields[hf[i]].kind == 'i' && fields[hf[i]].size == 4)
                        for (size_t n = 0; n < 4; n++)
                            v |= int32_t(uint32_t(uint8_t(frame[fields[hf[i]].pos + (p.swapped ? 3 - n : n)])) << (8 * n));
                    else
                        v = -1;
                    return v;
                };
                std::vector<std::pair<size_t, size_t>> lists;  // where, members
                for (size_t a = 0; a < hf.size(); a++) {
                    int32_t m = num(a);
                    bool ok   = m > 0 && m <= 64 && a + 1 + 3 * size_t(m) < hf.size() && num(a + 1 + 2 * size_t(m)) == m;
                    for (int32_t i = 0; ok && i < m; i++)
                        ok = num(a + 1 + 2 * size_t(i)) >= 0 && fields[hf[a + 2 + 2 * size_t(i)]].kind == 's';
                    if (ok)
                        lists.push_back({a, size_t(m)});
                }
                if (lists.empty())
                    break;
                auto l        = g.pick(lists);
                bool names    = g.chance(1, 2);
                size_t other  = g.chance(1, 4) ? size_t(g.range(0, 40000)) : size_t(g.range(0, int64_t(l.second) + 2));
                std::string r = std::string(4, 0);
                put(r, 0, 4, int64_t(other), p.swapped);
                for (size_t i = 0; i < other; i++) {
                    std::string e(4, 0);
                    put(e, 0, 4, names ? 0 : g.range(0, 3), p.swapped);
                    r += e;
                }
                size_t first = l.first + (names ? 0 : 1 + 2 * l.second), last = l.first + (names ? 2 * l.second : 1 + 3 * l.second);
                size_t from  = fields[hf[first]].pos, to = fields[hf[last]].pos + fields[hf[last]].size;
                edits.push_back({from, {to - from, r}});
                c.label("bitfield members");
                break;
            }
            default: {  // the type of a column as any small number
                auto& f = fields[g.pick(hf)];
                if (f.kind == 'i')
                    put(b, f.pos, f.size, g.range(0, 6), p.swapped);
            }
        }
    }
    size_t headerEnd = p.data;
    std::string head = b.substr(p.varHeader, p.data - p.varHeader), data = b.substr(p.data);
    std::sort(edits.begin(), edits.end());
    for (size_t k = edits.size(); k-- > 0;) {
        if (k + 1 < edits.size() && edits[k].first + edits[k].second.first > edits[k + 1].first)
            continue;
        head.replace(edits[k].first - p.varHeader, edits[k].second.first, edits[k].second.second);
    }
    (void)headerEnd;
    if (g.chance(1, 8))
        data.resize(size_t(g.range(0, int64_t(data.size()) + 20)));
    if (g.chance(1, 3) && head.size() >= 8)
        put(head, 0, 8, int64_t(data.size()), p.swapped);
    if (g.chance(1, 30)) {  // digest left wrong
        std::string r = b.substr(0, p.varHeader) + head + data;
        return r;
    }
    return ref::assemble(head, data, p.swapped, int(g.chance(1, 10) ? g.range(-1, 9) : 5), int(g.chance(1, 30) ? g.range(-1, 2) : 0));
}

struct Use {
    uint64_t delivered = 0, errors = 0;
};

// calls of the C API: either success or an error code with a description
void tick(Ctx& c, Use& u, int rc, const char* what) {
    if (rc == ODC_SUCCESS)
        u.delivered++;
    else {
        VF_CHECK(c, rc == ODC_ITERATION_COMPLETE || rc == ODC_ERROR_GENERAL_EXCEPTION, what << " returned the code " << rc);
        const char* s = odc_error_string(rc);
        VF_CHECK(c, s && *s, what << ": no error description");
        u.errors++;
    }
}

void useFrame(Ctx& c, Use& u, odc_frame_t* fr, Src& g) {
    long nrows = -1;
    int ncols  = -1;
    tick(c, u, odc_frame_row_count(fr, &nrows), "odc_frame_row_count");
    int rc = odc_frame_column_count(fr, &ncols);
    tick(c, u, rc, "odc_frame_column_count");
    if (rc || ncols < 0)
        return;
    uint64_t sum = 0;
    std::vector<std::string> names;
    for (int k = 0; k < ncols; k++) {
        const char* name = nullptr;
        int type = 0, size = 0, nb = 0;
        rc = odc_frame_column_attributes(fr, k, &name, &type, &size, &nb);
        tick(c, u, rc, "odc_frame_column_attributes");
        if (rc)
            continue;
        names.push_back(name);
        for (int b = 0; b < nb; b++) {
            const char* bn = nullptr;
            int off = 0, bs = 0;
            rc = odc_frame_bitfield_attributes(fr, k, b, &bn, &off, &bs);
            tick(c, u, rc, "odc_frame_bitfield_attributes");
            if (!rc)
                sum += strlen(bn);
        }
    }
    int np = 0;
    if (odc_frame_properties_count(fr, &np) == 0)
        for (int k = 0; k < np; k++) {
            const char *key = nullptr, *val = nullptr;
            if (odc_frame_property_idx(fr, k, &key, &val) == 0)
                sum += strlen(key) + strlen(val);
        }
    for (int pass = 0; pass < 2; pass++) {
        odc_decoder_t* d = nullptr;
        rc               = odc_new_decoder(&d);
        tick(c, u, rc, "odc_new_decoder");
        if (rc)
            return;
        if (pass == 0)
            tick(c, u, odc_decoder_defaults_from_frame(d, fr), "odc_decoder_defaults_from_frame");
        else {
            odc_decoder_set_row_count(d, nrows);
            for (auto& nm : names)
                if (g.chance(1, 2))
                    odc_decoder_add_column(d, nm.c_str());
        }
        odc_decoder_set_column_major(d, g.chance(1, 2));
        long rows = 0;
        rc        = odc_decode_threaded(d, fr, &rows, int(g.range(1, 3)));
        tick(c, u, rc, "odc_decode");
        if (rc == 0 && rows > 0) {
            const void* data = nullptr;
            long w = 0, h = 0;
            bool cm = false;
            rc      = odc_decoder_data_array(d, &data, &w, &h, &cm);
            tick(c, u, rc, "odc_decoder_data_array");
            if (rc == 0 && data) {
                // uninitialised or out of range memory would show in ASan only if it is read
                for (long i = 0; i < w * h; i++)
                    sum += static_cast<const unsigned char*>(data)[i];
            }
        }
        odc_free_decoder(d);
    }
    static volatile uint64_t sink;
    sink = sum;
}

void viaApi(Ctx& c, Use& u, const std::string& bytes, const std::string& path, int kind, Src& g) {
    odc_reader_t* rd = nullptr;
    odc_frame_t* fr  = nullptr;
    int fd           = -1, rc;
    if (kind == 0)
        rc = odc_open_buffer(&rd, bytes.data(), long(bytes.size()));
    else if (kind == 1)
        rc = odc_open_path(&rd, path.c_str());
    else {
        fd = open(path.c_str(), O_RDONLY);
        rc = odc_open_file_descriptor(&rd, fd);
    }
    tick(c, u, rc, "odc_open");
    if (rc == 0) {
        rc = odc_new_frame(&fr, rd);
        tick(c, u, rc, "odc_new_frame");
        bool agg = g.chance(1, 2);
        for (int n = 0; rc == 0; n++) {
            VF_CHECK(c, n < 2000, "more frames than bytes allow");
            rc = agg ? odc_next_frame_aggregated(fr, -1) : odc_next_frame(fr);
            tick(c, u, rc, "odc_next_frame");
            if (rc)
                break;
            useFrame(c, u, fr, g);
            odc_frame_t* cp = nullptr;
            if (g.chance(1, 3) && odc_copy_frame(fr, &cp) == 0) {
                useFrame(c, u, cp, g);
                odc_free_frame(cp);
            }
        }
        if (fr)
            odc_free_frame(fr);
        odc_close(rd);
    }
    if (fd >= 0)
        close(fd);
}

template <typename F>
void guarded(Ctx& c, Use& u, const char* what, F fn) {
    try {
        fn();
        u.delivered++;
    }
    catch (Failure&) {
        throw;
    }
    catch (std::exception& e) {
        VF_CHECK(c, *e.what(), what << ": an error without description");
        u.errors++;
    }
}

void viaCpp(Ctx& c, Use& u, const std::string& bytes, Src& g) {
    guarded(c, u, "odc::api::Reader", [&] {
        eckit::MemoryHandle h(bytes.data(), bytes.size());
        h.openForRead();
        odc::api::Reader rd(h, g.chance(1, 2));
        odc::api::Frame f;
        for (int n = 0; (f = rd.next()); n++) {
            VF_CHECK(c, n < 2000, "more frames than bytes allow");
            guarded(c, u, "encodedData", [&] { (void)f.encodedData(); });
            std::vector<std::string> names;
            for (auto& i : f.columnInfo())
                names.push_back(i.name);
            guarded(c, u, "span", [&] { (void)f.span(names, false); });
            guarded(c, u, "span", [&] { (void)f.span(names, true); });
            guarded(c, u, "filter", [&] { (void)f.filter("select * where 1 = 1"); });
        }
    });
}

void viaRows(Ctx& c, Use& u, const std::string& bytes, const std::string& path) {
    auto go = [&](odc::Reader& rd) {
        odc::Reader::iterator it        = rd.begin();
        const odc::Reader::iterator end = rd.end();
        volatile double sum             = 0;
        size_t n                        = 0;
        for (; it != end; ++it) {
            if (it->isNewDataset()) {
                std::ostringstream os;
                os << it->columns();
                sum += double(os.str().size());
            }
            size_t nc = it->columns().size();
            for (size_t k = 0; k < nc; k++) {
                sum += it->data(k);
                (void)it->isMissing(k);
                if (it->columns()[k]->type() == odc::api::STRING)
                    sum += double(it->string(k).size());
            }
            VF_CHECK(c, ++n <= bytes.size(), "more rows than bytes");
        }
    };
    guarded(c, u, "odc::Reader", [&] {
        eckit::MemoryHandle h(bytes.data(), bytes.size());
        odc::Reader rd(h);
        go(rd);
    });
    guarded(c, u, "odc::Reader", [&] {
        odc::Reader rd(path);
        go(rd);
    });
}

void viaSelect(Ctx& c, Use& u, const std::string& bytes, Src& g) {
    static const std::vector<std::string> SQL = {"select *", "select * where 1=1", "select distinct *", "select count(*)",
                                                 "select * order by 1", "select x", "select min(x), max(x)"};
    std::string sql                          = g.pick(SQL);
    guarded(c, u, "odc::Select", [&] {
        eckit::MemoryHandle h(bytes.data(), bytes.size());
        h.openForRead();
        odc::Select s(sql, h);
        volatile double sum = 0;
        size_t n            = 0;
        for (odc::Select::iterator it = s.begin(), end = s.end(); it != end; ++it) {
            size_t nc = it->columns().size();
            for (size_t k = 0; k < nc; k++) {
                sum += it->data(k);
                if (it->columns()[k]->type() == odc::api::STRING)
                    sum += double(it->string(k).size());
            }
            VF_CHECK(c, ++n <= bytes.size() + 1, "more rows than bytes");
        }
    });
}

void viaLegacy(Ctx& c, Use& u, const std::string& bytes, const std::string& path) {
    int err     = 0;
    oda_ptr oda = odb_read_create("", &err);
    if (err || !oda)
        return;
    // errors are reported by exceptions
    struct Guard {
        oda_ptr o;
        oda_read_iterator_ptr it;
        ~Guard() {
            if (it)
                odb_read_iterator_destroy(it);
            odb_read_destroy(o);
        }
    } guard{oda, nullptr};
    oda_read_iterator_ptr it = odb_create_read_iterator(oda, path.c_str(), &err);
    guard.it                 = err ? nullptr : it;
    if (!err && it) {
        u.delivered++;
        int nc = 0, sz = 0;
        if (odb_read_iterator_get_no_of_columns(it, &nc) == 0 && odb_read_iterator_get_row_buffer_size_doubles(it, &sz) == 0) {
            for (int k = 0; k < nc; k++) {
                int t, o, w, ns;
                char* nm;
                double mv;
                odb_read_iterator_get_column_type(it, k, &t);
                odb_read_iterator_get_column_name(it, k, &nm, &ns);
                odb_read_iterator_get_column_offset(it, k, &o);
                odb_read_iterator_get_column_size_doubles(it, k, &w);
                odb_read_iterator_get_missing_value(it, k, &mv);
            }
            // The interface cannot tell a caller in advance that the next row is wider
            std::vector<double> row(std::max(size_t(sz), bytes.size() * 4) + 1);
            int isNew  = 0;
            size_t n   = 0;
            while (odb_read_iterator_get_next_row(it, nc, row.data(), &isNew) == 0) {
                VF_CHECK(c, ++n <= bytes.size(), "more rows than bytes");
                if (isNew) {
                    odb_read_iterator_get_row_buffer_size_doubles(it, &sz);
                    odb_read_iterator_get_no_of_columns(it, &nc);
                }
            }
        }
    }
    else
        u.errors++;
}

void viaBlocks(Use& u, const std::string& path) {
    // another reader of headers
    size_t n      = 0;
    off_t* off    = nullptr;
    size_t* sizes = nullptr;
    if (get_blocks_offsets(path.c_str(), &n, &off, &sizes) == 0) {
        u.delivered++;
        release_blocks_offsets(&off);
        release_blocks_sizes(&sizes);
    }
    else
        u.errors++;
}

void consume(Ctx& c, const std::string& bytes, int only, Src& g) {
    std::string path = c.tmp + "/in.odb";
    writeFile(path, bytes);
    c.artifact("in.odb", bytes);
    Use u;
    for (int k = 0; k < 8; k++) {
        if (only >= 0 && only != k)
            continue;
        capi::setLongs(g.chance(1, 2));
        if (k < 3)
            viaApi(c, u, bytes, path, k, g);
        else if (k == 3)
            viaCpp(c, u, bytes, g);
        else if (k == 4)
            viaRows(c, u, bytes, path);
        else if (k == 5)
            viaSelect(c, u, bytes, g);
        else if (k == 6)
            guarded(c, u, "legacy", [&] { viaLegacy(c, u, bytes, path); });
        else
            guarded(c, u, "get_blocks_offsets", [&] { viaBlocks(u, path); });
    }
    capi::setLongs(false);
    c.labelIf(u.errors > 0, "rejected somewhere");
    c.labelIf(u.delivered > 20, "data delivered");
}

void forged(Ctx& c, const gen::Opts& o) {
    std::string bytes;
    size_t n = size_t(c.g.range(1, 3)), bad = c.g.index(n);
    gen::Opts oo = o;
    for (size_t i = 0; i < n; i++) {
        ref::Frame f  = gen::genTable(c.g, oo);
        std::string b = gen::encodeAny(c.g, f);
        if (i == bad) {
            c.note(gen::describe(f, 2));
            b = corrupt(c, b);
        }
        bytes += b;
    }
    consume(c, bytes, -1, c.g);
    c.nontrivial = true;
}

void junk(Ctx& c, const gen::Opts& o) {
    ref::Frame f      = gen::genTable(c.g, o);
    std::string b     = gen::encodeAny(c.g, f);
    std::string bytes;
    switch (c.g.weighted({1, 2, 2})) {
        case 0: {
            size_t n = size_t(c.g.range(0, 200));
            for (size_t i = 0; i < n; i++)
                bytes += char(c.g.range(0, 255));
            break;
        }
        case 1: {  // any bytes of a valid stream changed
            bytes    = b;
            size_t n = size_t(c.g.range(1, 20));
            for (size_t i = 0; i < n; i++)
                bytes[c.g.index(bytes.size())] = char(c.g.range(0, 255));
            break;
        }
        default: {  // a magic and a header full of anything
            size_t n = size_t(c.g.range(0, 300));
            std::string h, d;
            for (size_t i = 0; i < n; i++)
                h += char(c.g.chance(2, 3) ? 0 : c.g.range(0, 255));
            n = size_t(c.g.range(0, 50));
            for (size_t i = 0; i < n; i++)
                d += char(c.g.range(0, 255));
            bytes = ref::assemble(h, d, c.g.chance(1, 2));
        }
    }
    consume(c, bytes, -1, c.g);
    c.nontrivial = true;
}
}  // namespace hostile

#ifndef C10_FUZZ
int main(int argc, char** argv) {
    using namespace hostile;
    Suite s;
    s.property = "C10";
    s.rule =
        "valid streams of any codec and byte order with 1-5 inconsistencies (header numbers, codec names, types, string tables, row "
        "markers and indices, removed or repeated header fields, sizes) under a correct digest, and arbitrary bytes; presented to "
        "the C API (memory, path, descriptor, aggregated, threaded, copies), C++ frames (span, filter), the row reader, SELECT and "
        "the legacy interface under AddressSanitizer with an allocation limit; every case is non-trivial";
    s.init = [] {
        capi::init();
        odb_start();
    };
    gen::Opts o;
    o.maxRows = 12;
    o.maxCols = 5;
    s.subs.push_back({"forged", [=](Ctx& c) { forged(c, o); }, 12000, 400000});
    s.subs.push_back({"junk", [=](Ctx& c) { junk(c, o); }, 3000, 100000});
    s.assumptions.push_back("a single allocation above 256 MB is out of proportion to inputs below 64 KB");
    return vf::main(argc, argv, s);
}
#endif
