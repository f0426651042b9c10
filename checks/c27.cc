// C27: configured missing values mean missing on both sides
#include "capi.h"
#include "rows.h"

#include <cfloat>
#include <limits>

#include "eckit/io/MemoryHandle.h"
#include "odc/Reader.h"
#include "odc/Writer.h"

using namespace vf;

namespace {

struct Missing {
    long i   = long(ref::MISSING_INT);
    double d = ref::MISSING_REAL;
    std::string text() const {
        std::ostringstream o;
        o.precision(17);
        o << "integer " << i << " double " << d;
        return o.str();
    }
    void set() const {
        OK(odc_set_missing_integer(i));
        OK(odc_set_missing_double(d));
        long gi   = 0;
        double gd = 0;
        OK(odc_missing_integer(&gi));
        OK(odc_missing_double(&gd));
        if (gi != i || memcmp(&gd, &d, 8) != 0)
            throw Failure{"configured " + text() + ", but asked for them one gets others"};
    }
};
struct Restore {
    ~Restore() {
        odc_set_missing_integer(long(ref::MISSING_INT));
        odc_set_missing_double(ref::MISSING_REAL);
    }
};

Missing genMissing(Src& g) {
    Missing m;
    switch (g.weighted({3, 6, 2})) {
        case 0:
            break;
        case 1:
            m.i = g.pick({2147483647L, 0L, -1L, 1L, -2147483648L, -2147483647L, 255L, 65535L, 999L, -999L, 2147483646L});
            break;
        default:
            m.i = long(g.range(-2147483648LL, 2147483647LL));
    }
    switch (g.weighted({3, 8, 2})) {
        case 0:
            break;
        case 1:
            m.d = g.pick({-2147483647.0, 2147483647.0, 0.0, -0.0, 1e38, -1e300, 0.1, -999.0, 9.96920996838687e+36, DBL_MAX,
                          -DBL_MAX, double(FLT_MIN), double(-FLT_MAX), double(FLT_MAX), 1e-310, 16777217.0, 16777216.0, 1.0,
                          double(INFINITY), double(-INFINITY)});
            break;
        default:
            m.d = double(g.range(-1000000, 1000000)) / 8;
    }
    return m;
}

bool representable(const ref::Col& c, double v) {
    return c.isInt() ? v >= -2147483648.0 && v <= 2147483647.0 && v == std::floor(v) : true;
}

// values on and around every missing value there is; cells which hold that of the column are marked as missing
void fill(Src& g, ref::Col& c, size_t nrows, const std::vector<double>& near, double declared) {
    c.missing = declared;
    c.cells.clear();
    std::vector<double> pool;
    size_t n = size_t(g.range(1, 8));
    while (pool.size() < n) {
        double v;
        switch (g.weighted({3, 2, 2, 2, 1})) {
            case 0:
                v = declared;
                break;
            case 1:
                v = g.pick(near);
                break;
            case 2:
                v = g.pick(near) + double(g.range(-2, 2));
                break;
            case 3:
                v = double(g.range(0, 300));
                break;
            default:
                v = c.isInt() ? double(g.edgy(-2147483648LL, 2147483647LL)) : double(g.range(-1000000, 1000000)) / 4;
        }
        if (c.isReal() && g.chance(1, 6))
            v = std::nextafter(v, g.chance(1, 2) ? INFINITY : -INFINITY);
        if (c.type == ref::BITFIELD)
            v = double(int64_t(std::fabs(v) < 1e9 ? std::fabs(v) : 0) & ((1 << 20) - 1));
        // values which single precision cannot tell from the missing value are beyond what a REAL column can hold
        if (c.type == ref::REAL && v != declared && double(ref::f32(v)) == declared)
            v = declared;
        if (!representable(c, v))
            v = 1;
        pool.push_back(v);
    }
    for (size_t r = 0; r < nrows; r++) {
        double v = g.pick(pool);
        ref::Cell x;
        x.d       = v;
        x.i       = c.isInt() ? int64_t(v) : 0;
        x.missing = v == declared;
        if (x.missing) {
            x.d = declared;
            x.i = c.isInt() ? int64_t(declared) : 0;
        }
        c.cells.push_back(x);
    }
}

std::vector<double> nearOf(const std::vector<Missing>& ms) {
    std::vector<double> v{2147483647.0, -2147483647.0, 0.0, double(FLT_MIN), double(-FLT_MAX)};
    for (auto& m : ms) {
        v.push_back(double(m.i));
        v.push_back(m.d);
    }
    return v;
}

double raw(const ref::Col& c, const ref::Cell& x) {
    return c.isInt() ? double(x.i) : x.d;
}

// what a reader delivers for a cell: exactly the declared missing value, or the value
std::string sameRaw(const ref::Col& c, const ref::Cell& want, double got) {
    if (c.type == ref::STRING)
        return "";
    double w = raw(c, want);
    bool same;
    if (want.missing)
        same = got == c.missing;
    else if (got == c.missing)
        same = false;
    else if (c.type == ref::REAL)
        same = ref::f32(w) == ref::f32(got);
    else
        same = w == got;
    if (same)
        return "";
    std::ostringstream o;
    o.precision(17);
    o << "column " << c.name << " (" << ref::typeName(c.type) << ", missing value " << c.missing << "): " << got
      << " instead of " << (want.missing ? "missing" : "") << w;
    return o.str();
}

// every way of reading, whatever is configured meanwhile
void check(Ctx& c, const std::string& bytes, const std::vector<ref::Frame>& want, const Missing& now, bool bitsKnown) {
    // bytes
    auto dec = ref::decodeAll(bytes);
    VF_CHECK(c, dec.size() == want.size(), dec.size() << " frames instead of " << want.size());
    std::vector<ref::Frame> w = want;
    for (size_t i = 0; i < w.size(); i++) {
        VF_CHECK(c, dec[i].nrows == w[i].nrows && dec[i].cols.size() == w[i].cols.size(), "shape of frame " << i);
        for (size_t k = 0; k < w[i].cols.size(); k++) {
            auto& x = w[i].cols[k];
            auto& y = dec[i].cols[k];
            if (x.type == ref::STRING)
                continue;
            if (x.type == ref::BITFIELD && !bitsKnown) {
                // whatever is declared
                x.missing = y.missing;
                for (auto& cell : x.cells)
                    cell.missing = double(cell.i) == x.missing;
            }
            VF_CHECK(c, x.missing == y.missing, "column " << x.name << " of frame " << i << " declares the missing value "
                                                          << y.missing << ", configured is " << x.missing);
            bool any = false;
            for (size_t r = 0; r < w[i].nrows; r++) {
                any = any || x.cells[r].missing;
                VF_CHECK(c, x.cells[r].missing == y.cells[r].missing,
                         "row " << r << " of column " << x.name << " of frame " << i << ": "
                                << (y.cells[r].missing ? "is missing in the data, its value was " : "is not missing in the data: ")
                                << raw(x, x.cells[r]));
                std::string d = sameRaw(x, x.cells[r], y.cells[r].missing ? x.missing : raw(y, y.cells[r]));
                VF_CHECK(c, d.empty(), "in the data of frame " << i << " row " << r << " " << d);
            }
            VF_CHECK(c, any == (y.hasMissing != 0), "column " << x.name << " of frame " << i << (any ? " has" : " has no")
                                                              << " missing values, the header says otherwise");
        }
    }
    now.set();
    // frames
    bool aggregated = c.g.chance(1, 2);
    long limit      = -1;
    capi::setLongs(c.g.chance(1, 2));
    capi::Read rd;
    rd.threads = int(c.g.range(1, 2));
    auto got   = capi::readAll(bytes, aggregated ? &limit : nullptr, rd);
    size_t i = 0, at = 0;
    for (auto& f : got)
        for (size_t r = 0; r < f.nrows; r++) {
            while (i < w.size() && at == w[i].nrows)
                i++, at = 0;
            VF_CHECK(c, i < w.size(), "more rows than there are");
            for (auto& x : w[i].cols) {
                const ref::Col* y = f.find(x.name);
                VF_CHECK(c, y, "column " << x.name << " is gone");
                std::string d = x.type == ref::STRING ? "" : sameRaw(x, x.cells[at], raw(*y, y->cells[r]));
                VF_CHECK(c, d.empty(), "frame interface, frame " << i << " row " << at << " " << d);
            }
            at++;
        }
    while (i < w.size() && at == w[i].nrows)
        i++, at = 0;
    VF_CHECK(c, i == w.size(), "fewer rows than there are");
    // rows
    auto rows = rows::read(bytes);
    VF_CHECK(c, rows.size() == w.size(), "row reader: " << rows.size() << " frames instead of " << w.size());
    for (i = 0; i < w.size(); i++)
        for (size_t k = 0; k < w[i].cols.size(); k++) {
            auto& x = w[i].cols[k];
            auto& y = rows[i].cols[k];
            if (x.type == ref::STRING)
                continue;
            VF_CHECK(c, x.missing == y.missing,
                     "row reader: the missing value of " << x.name << " is said to be " << y.missing << ", declared is " << x.missing);
            for (size_t r = 0; r < w[i].nrows; r++) {
                std::string d = sameRaw(x, x.cells[r], y.cells[r].d);
                VF_CHECK(c, d.empty(), "row reader, frame " << i << " row " << r << " " << d);
            }
        }
    capi::setLongs(false);
}

// a copy made row by row declares and holds the same
std::string copied(const std::string& bytes, const std::string& path) {
    capi::setLongs(false);
    try {
        eckit::MemoryHandle h(bytes.data(), bytes.size());
        odc::Reader in(h);
        odc::Writer<> out{eckit::PathName(path)};
        odc::Writer<>::iterator o     = out.begin();
        odc::Reader::iterator it      = in.begin();
        const odc::Reader::iterator e = in.end();
        o->pass1(it, e);
    }
    catch (std::exception& e) {
        throw Failure{std::string("copying rows failed: ") + e.what()};
    }
    return vf::readFile(path);
}

void tally(Ctx& c, const std::vector<ref::Frame>& v) {
    bool own = false, custom = false, partly = false;
    for (auto& f : v)
        for (auto& x : f.cols)
            if (x.type != ref::STRING) {
                size_t n = 0;
                for (auto& cell : x.cells)
                    n += cell.missing;
                own    = own || n > 0;
                partly = partly || (n > 0 && n < f.nrows);
                custom = custom || (n > 0 && x.missing != ref::defaultMissing(x.type));
            }
    c.labelIf(own, "missing cells");
    c.labelIf(custom, "another missing value than the default");
    c.labelIf(partly, "columns with and without missing cells");
    c.nontrivial = custom && partly;
}

// encoding through the C interface
void encoded(Ctx& c, const gen::Opts& o) {
    Restore restore;
    std::vector<Missing> ms{genMissing(c.g), genMissing(c.g), genMissing(c.g), genMissing(c.g)};
    auto near = nearOf(ms);
    size_t n  = size_t(c.g.range(1, 3));
    std::vector<ref::Frame> v;
    std::string bytes;
    for (size_t i = 0; i < n; i++) {
        ref::Frame f = i == 0 ? gen::genTable(c.g, o) : gen::genLike(c.g, v[0], o);
        f.props.clear();
        for (auto& x : f.cols)
            if (x.type != ref::STRING)
                fill(c.g, x, f.nrows, near, x.isInt() ? double(ms[i].i) : ms[i].d);
        c.note("configured " + ms[i].text());
        c.note(gen::describe(f, 8));
        ms[i].set();
        capi::setLongs(c.g.chance(1, 2));
        bytes += capi::encode(f, capi::genLayout(c.g, f));
        v.push_back(f);
    }
    // large tables are divided
    auto parts = ref::decodeAll(bytes);
    std::vector<ref::Frame> w;
    size_t i = 0, at = 0;
    for (auto& p : parts) {
        VF_CHECK(c, i < v.size() && at + p.nrows <= v[i].nrows, "the encoded frames do not have the rows given");
        ref::Frame f = gen::rows(v[i], at, p.nrows);
        w.push_back(f);
        at += p.nrows;
        if (at == v[i].nrows)
            i++, at = 0;
    }
    VF_CHECK(c, i == v.size(), "rows are lost");
    c.artifact("encoded.odb", bytes);
    check(c, bytes, w, ms[3], false);
    tally(c, w);
}

// the rows of a table as divided into frames
std::vector<ref::Frame> divided(Ctx& c, const ref::Frame& f, const std::string& bytes) {
    std::vector<ref::Frame> w;
    size_t at = 0;
    for (auto& p : ref::decodeAll(bytes)) {
        VF_CHECK(c, at + p.nrows <= f.nrows, "more rows than were written");
        w.push_back(gen::rows(f, at, p.nrows));
        at += p.nrows;
    }
    VF_CHECK(c, at == f.nrows, "rows are lost");
    return w;
}

// the row writer: the configured values, unless a column declares its own
void written(Ctx& c, const gen::Opts& o) {
    Restore restore;
    Missing m = genMissing(c.g), now = genMissing(c.g);
    auto near    = nearOf({m, now});
    ref::Frame f = gen::genTable(c.g, o);
    f.props.clear();
    std::vector<bool> declares;
    std::vector<double> values;
    for (auto& x : f.cols) {
        bool own = x.type != ref::STRING && c.g.chance(1, 3);
        Missing k = genMissing(c.g);
        double v  = own ? (x.isInt() ? double(k.i) : k.d) : (x.isInt() ? double(m.i) : m.d);
        declares.push_back(own);
        values.push_back(v);
        if (x.type != ref::STRING) {
            fill(c.g, x, f.nrows, near, v);
            if (x.type == ref::BITFIELD)
                for (auto& cell : x.cells)
                    cell.missing = double(cell.i) == v;
        }
    }
    c.note("configured " + m.text());
    c.note(gen::describe(f, 8));
    m.set();
    capi::setLongs(false);
    std::string path = c.tmp + "/w.odb";
    try {
        odc::Writer<> w{eckit::PathName(path)};
        w.rowsBufferSize(size_t(c.g.range(1, 40)));
        odc::Writer<>::iterator it = w.begin();
        it->setNumberOfColumns(f.cols.size());
        for (size_t k = 0; k < f.cols.size(); k++) {
            auto& x = f.cols[k];
            if (x.type == ref::BITFIELD) {
                eckit::sql::BitfieldDef b;
                for (auto& y : x.bits) {
                    b.first.push_back(y.name);
                    b.second.push_back(y.size);
                }
                it->setBitfieldColumn(k, x.name, odc::api::BITFIELD, b);
            }
            else
                it->setColumn(k, x.name, odc::api::ColumnType(x.type));
            if (x.type == ref::STRING)
                it->columns()[k]->dataSizeDoubles(x.width / 8);
            else if (declares[k])
                it->missingValue(k, values[k]);
        }
        it->writeHeader();
        // nothing that happens later changes what the columns declare
        if (c.g.chance(1, 3))
            now.set();
        for (size_t r = 0; r < f.nrows; r++) {
            for (size_t k = 0; k < f.cols.size(); k++) {
                auto& x   = f.cols[k];
                double* p = &it->data()[it->dataOffset(k)];
                if (x.type == ref::STRING) {
                    memset(p, 0, x.width);
                    memcpy(p, x.cells[r].s.data(), x.cells[r].s.size());
                }
                else
                    *p = raw(x, x.cells[r]);
            }
            ++it;
        }
    }
    catch (std::exception& e) {
        c.fail(std::string("writing rows failed: ") + e.what());
    }
    std::string bytes = vf::readFile(path);
    c.artifact("written.odb", bytes);
    auto w = divided(c, f, bytes);
    check(c, bytes, w, now, true);
    std::string copy = copied(bytes, c.tmp + "/copy.odb");
    check(c, copy, divided(c, f, copy), now, true);
    tally(c, w);
}

// files which declare any missing values
void declared(Ctx& c, const gen::Opts& o) {
    Restore restore;
    Missing now = genMissing(c.g);
    std::vector<ref::Frame> v;
    std::string bytes;
    size_t n = size_t(c.g.range(1, 3));
    for (size_t i = 0; i < n; i++) {
        ref::Frame f = i == 0 ? gen::genTable(c.g, o) : gen::genLike(c.g, v[0], o);
        f.props.clear();
        for (auto& x : f.cols)
            if (x.type != ref::STRING) {
                Missing m = genMissing(c.g);
                fill(c.g, x, f.nrows, nearOf({m, now}), x.isInt() ? double(m.i) : m.d);
                if (x.type == ref::BITFIELD)
                    for (auto& cell : x.cells)
                        cell.missing = double(cell.i) == x.missing;
            }
        bytes += gen::encodeAny(c.g, f);
        c.note(gen::describe(f, 8));
        v.push_back(f);
    }
    c.note("configured " + now.text());
    c.artifact("file.odb", bytes);
    check(c, bytes, v, now, true);
    std::string copy = copied(bytes, c.tmp + "/copy.odb");
    auto parts       = ref::decodeAll(copy);
    if (parts.size() == v.size()) {  // frames with the same definitions may be joined by the copy
        bool same = true;
        for (size_t i = 0; i < v.size(); i++)
            same = same && parts[i].nrows == v[i].nrows;
        if (same)
            check(c, copy, v, now, true);
    }
    tally(c, v);
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C27";
    s.rule =
        "tables of all column types filled with values on and next to every missing value involved (that configured, that "
        "of the other type, the defaults, the markers used inside codecs), encoded through the C interface and the row "
        "writer under random settings of the missing integer (any int32) and double (any but NaN), or declared by files "
        "of the reference encoder, and read under other settings as frames (single and aggregated), as rows, from the "
        "bytes by the reference decoder, and from a copy made row by row; a cell must be missing if and only if it held "
        "the declared value, and then be delivered as exactly that value; non-trivial: a column with missing and other "
        "cells under a missing value other than the default";
    s.init = capi::init;
    gen::Opts o;
    o.maxRows = 12, o.maxCols = 4, o.edgeShape = false, o.missing = false;
    s.subs.push_back({"encoder", [=](Ctx& c) { encoded(c, o); }, 30000, 400000});
    s.subs.push_back({"row writer", [=](Ctx& c) { written(c, o); }, 9000, 150000});
    s.subs.push_back({"declared by files", [=](Ctx& c) { declared(c, o); }, 15000, 200000});
    s.assumptions = {"missing integers are int32, as all values of INTEGER columns are",
                     "NaN is not used as a missing value: it equals nothing, and the library refuses to encode with it",
                     "values of REAL columns which single precision cannot tell from the missing value are not generated"};
    return vf::main(argc, argv, s);
}
