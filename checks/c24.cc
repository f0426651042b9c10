// C24: the legacy row-oriented interface, from C and Fortran, agrees with the current ones
#include "capi.h"
#include "legacy.h"
#include "rows.h"
#include "sql.h"
#include "tools.h"

#include "eckit/io/MemoryHandle.h"
#include "odc/Select.h"
#include "odc/core/Column.h"
#include "odc/core/MetaData.h"


using namespace vf;

namespace {

constexpr double GUARD = -7.25e77;

// One row as an iterator of the legacy interface gives it
struct LegacyRow {
    std::vector<ref::Col> cols;  // without cells; width, missing, bits
    std::vector<int> offsets;
    std::vector<double> data;
    int newDataset = 0;
};

struct ReadOps {
    static int ncols(void* it, int* n) { return legacy::odb_read_iterator_get_no_of_columns(it, n); }
    static int size(void* it, int k, int* n) { return legacy::odb_read_iterator_get_column_size_doubles(it, k, n); }
    static int offset(void* it, int k, int* n) { return legacy::odb_read_iterator_get_column_offset(it, k, n); }
    static int type(void* it, int k, int* n) { return legacy::odb_read_iterator_get_column_type(it, k, n); }
    static int name(void* it, int k, char** p, int* n) { return legacy::odb_read_iterator_get_column_name(it, k, p, n); }
    static int bits(void* it, int k, char** a, char** b, int* n, int* m) {
        return legacy::odb_read_iterator_get_bitfield(it, k, a, b, n, m);
    }
    static int next(void* it, int n, double* p, int* isNew) { return legacy::odb_read_iterator_get_next_row(it, n, p, isNew); }
    static int missing(void* it, int k, double* v) { return legacy::odb_read_iterator_get_missing_value(it, k, v); }
    static int rowSize(void* it, int* n) { return legacy::odb_read_iterator_get_row_buffer_size_doubles(it, n); }
};
struct SelectOps {
    static int ncols(void* it, int* n) { return legacy::odb_select_iterator_get_no_of_columns(it, n); }
    static int size(void* it, int k, int* n) { return legacy::odb_select_iterator_get_column_size_doubles(it, k, n); }
    static int offset(void* it, int k, int* n) { return legacy::odb_select_iterator_get_column_offset(it, k, n); }
    static int type(void* it, int k, int* n) { return legacy::odb_select_iterator_get_column_type(it, k, n); }
    static int name(void* it, int k, char** p, int* n) { return legacy::odb_select_iterator_get_column_name(it, k, p, n); }
    static int bits(void* it, int k, char** a, char** b, int* n, int* m) {
        return legacy::odb_select_iterator_get_bitfield(it, k, a, b, n, m);
    }
    static int next(void* it, int n, double* p, int* isNew) { return legacy::odb_select_iterator_get_next_row(it, n, p, isNew); }
    static int missing(void* it, int k, double* v) { return legacy::odb_select_iterator_get_missing_value(it, k, v); }
    static int rowSize(void* it, int* n) { return legacy::odb_select_iterator_get_row_buffer_size_doubles(it, n); }
};

void language(Ctx& c) {
    legacy::fortran = c.g.chance(1, 3);
    c.labelIf(legacy::fortran, "through Fortran");
    if (legacy::fortran)
        c.note("(through Fortran)");
}

void zero(int rc, const char* what) {
    if (rc != 0)
        throw Failure{std::string(what) + " returned " + std::to_string(rc)};
}

std::vector<std::string> splitColons(const std::string& s) {
    std::vector<std::string> v;
    size_t p = 0;
    for (size_t i = 0; i < s.size(); i++)
        if (s[i] == ':') {
            v.push_back(s.substr(p, i - p));
            p = i + 1;
        }
    if (p != s.size())
        throw Failure{"the list '" + s + "' does not end with a colon"};
    return v;
}

template <typename Ops>
void columns(void* it, LegacyRow& r, size_t& rowSize) {
    int n = -1;
    zero(Ops::ncols(it, &n), "get_no_of_columns");
    r.cols.clear();
    r.offsets.clear();
    int end = 0;
    for (int k = 0; k < n; k++) {
        ref::Col c;
        int type = -1, size = -1, off = -1, len = -1;
        char* name = nullptr;
        zero(Ops::type(it, k, &type), "get_column_type");
        zero(Ops::size(it, k, &size), "get_column_size_doubles");
        zero(Ops::offset(it, k, &off), "get_column_offset");
        zero(Ops::name(it, k, &name, &len), "get_column_name");
        c.name  = std::string(name, size_t(len));
        c.type  = type;
        c.width = 8 * size_t(size);
        zero(Ops::missing(it, k, &c.missing), "get_missing_value");
        if (type == ref::BITFIELD) {
            char *a = nullptr, *b = nullptr;
            int na = -1, nb = -1;
            zero(Ops::bits(it, k, &a, &b, &na, &nb), "get_bitfield");
            auto names = splitColons(std::string(a, size_t(na)));
            auto sizes = splitColons(std::string(b, size_t(nb)));
            free(a);
            free(b);
            if (names.size() != sizes.size())
                throw Failure{"bitfield of " + c.name + ": different numbers of names and sizes"};
            for (size_t i = 0; i < names.size(); i++)
                c.bits.push_back(ref::Bit{names[i], atoi(sizes[i].c_str())});
        }
        if (off < 0 || size <= 0)
            throw Failure{"column " + c.name + " has offset " + std::to_string(off) + " and size " + std::to_string(size)};
        end = std::max(end, off + size);
        r.cols.push_back(c);
        r.offsets.push_back(off);
    }
    int rs = -1;
    zero(Ops::rowSize(it, &rs), "get_row_buffer_size_doubles");
    if (rs < end)
        throw Failure{"the row buffer has " + std::to_string(rs) + " doubles, columns need " + std::to_string(end)};
    rowSize = size_t(rs);
    for (int bad : {-1, n, n + 7}) {
        double v;
        bool refused = false;
        try {
            refused = Ops::missing(it, bad, &v) != 0;
        }
        catch (std::exception&) {
            refused = true;
        }
        if (!refused)
            throw Failure{"a missing value of column " + std::to_string(bad) + " of " + std::to_string(n)};
    }
}

// all rows of an iterator; largest: doubles a row may need
template <typename Ops>
std::vector<LegacyRow> drain(void* it, size_t largest, const std::vector<size_t>* expectCols) {
    std::vector<LegacyRow> out;
    LegacyRow r;
    size_t rowSize = 0;
    columns<Ops>(it, r, rowSize);  // known before the first row
    LegacyRow early = r;
    std::vector<double> buf(largest + 8);
    while (true) {
        size_t ncols = expectCols && out.size() < expectCols->size() ? (*expectCols)[out.size()] : r.cols.size();
        std::fill(buf.begin(), buf.end(), GUARD);
        int isNew = -1;
        int rc    = Ops::next(it, int(ncols), buf.data(), &isNew);
        if (rc == 1)
            break;
        zero(rc, "get_next_row");
        if (isNew != 0 && isNew != 1)
            throw Failure{"new_dataset is " + std::to_string(isNew)};
        if (isNew || out.empty())
            columns<Ops>(it, r, rowSize);
        if (out.empty() && r.cols.size() != early.cols.size())
            throw Failure{"the columns change before the first row"};
        r.newDataset = isNew;
        r.data.assign(buf.begin(), buf.begin() + long(rowSize));
        for (size_t k = rowSize; k < buf.size(); k++)
            if (buf[k] != GUARD)
                throw Failure{"get_next_row wrote after the end of the row"};
        out.push_back(r);
        if (out.size() > 100000)
            throw Failure{"the rows do not end"};
    }
    int isNew = 0;
    if (Ops::next(it, int(r.cols.size()), buf.data(), &isNew) != 1)
        throw Failure{"rows after the end of the data"};
    return out;
}

ref::Cell cell(const LegacyRow& r, size_t k) {
    const ref::Col& c = r.cols[k];
    ref::Cell x;
    const char* p = reinterpret_cast<const char*>(&r.data[size_t(r.offsets[k])]);
    if (c.type == ref::STRING) {
        x.s = std::string(p, strnlen(p, c.width));
        return x;
    }
    memcpy(&x.d, p, 8);
    x.missing = x.d == c.missing;
    x.i       = c.isInt() && x.d > -9e18 && x.d < 9e18 ? int64_t(x.d) : 0;
    return x;
}

// the rows grouped as the row reader groups them
std::vector<ref::Frame> grouped(const std::vector<LegacyRow>& v) {
    std::vector<ref::Frame> out;
    for (auto& r : v) {
        if (r.newDataset || out.empty()) {
            out.emplace_back();
            out.back().cols = r.cols;
        }
        ref::Frame& f = out.back();
        for (size_t k = 0; k < f.cols.size(); k++)
            f.cols[k].cells.push_back(cell(r, k));
        f.nrows++;
    }
    return out;
}

std::string same(const std::vector<ref::Frame>& want, const std::vector<ref::Frame>& got, bool missing = true) {
    if (want.size() != got.size())
        return std::to_string(got.size()) + " data sets instead of " + std::to_string(want.size());
    for (size_t i = 0; i < want.size(); i++) {
        std::string d = gen::diff(want[i], got[i]);
        if (!d.empty())
            return "data set " + std::to_string(i) + ": " + d;
        for (size_t k = 0; k < want[i].cols.size(); k++) {
            auto &a = want[i].cols[k], &b = got[i].cols[k];
            if (a.width != b.width)
                return "size of " + a.name + " in data set " + std::to_string(i) + ": " + std::to_string(b.width) +
                       " instead of " + std::to_string(a.width);
            if (missing && a.type != ref::STRING && a.missing != b.missing)
                return "missing value of " + a.name + " in data set " + std::to_string(i) + ": " +
                       std::to_string(b.missing) + " instead of " + std::to_string(a.missing);
        }
    }
    return "";
}

// the same rows, however the columns are defined
std::string sameRows(const std::vector<ref::Frame>& want, const std::vector<ref::Frame>& got) {
    auto flat = [](const std::vector<ref::Frame>& v) {
        std::vector<std::vector<std::string>> out;
        for (auto& f : v)
            for (size_t r = 0; r < f.nrows; r++) {
                std::vector<std::string> row;
                for (auto& c : f.cols) {
                    auto& x = c.cells[r];
                    char t[64];
                    snprintf(t, sizeof t, "%.17g", x.d);
                    row.push_back(c.name + "=" + (c.type == ref::STRING ? "'" + x.s + "'" : x.missing ? "NULL" : t));
                }
                out.push_back(row);
            }
        return out;
    };
    auto a = flat(want), b = flat(got);
    if (a.size() != b.size())
        return std::to_string(b.size()) + " rows instead of " + std::to_string(a.size());
    for (size_t i = 0; i < a.size(); i++)
        for (size_t k = 0; k < std::max(a[i].size(), b[i].size()); k++)
            if (k >= a[i].size() || k >= b[i].size() || a[i][k] != b[i][k])
                return "row " + std::to_string(i) + ", column " + std::to_string(k);
    return "";
}

size_t rowDoubles(const ref::Frame& f) {
    size_t n = 0;
    for (auto& c : f.cols)
        n += c.width / 8;
    return n;
}

// ---------------------------------------------------------------------------------------------- reading

void reading(Ctx& c, const gen::Opts& o) {
    size_t n = size_t(c.g.range(1, 4));
    std::vector<ref::Frame> in;
    std::string bytes;
    for (size_t i = 0; i < n; i++) {
        ref::Frame f = i == 0 || c.g.chance(1, 3) ? gen::genTable(c.g, o) : gen::genLike(c.g, in.back(), o);
        if (c.g.chance(1, 12))
            f = gen::rows(f, 0, 0);
        gen::declare(c.g, f);
        std::string b = gen::encodeAny(c.g, f);
        ref::Frame g  = ref::decodeAll(b).at(0);
        for (size_t k = 0; k < f.cols.size(); k++)
            f.cols[k].width = g.cols[k].width;
        bytes += b;
        in.push_back(f);
        c.note(gen::describe(f, 4));
    }
    language(c);
    std::string path = c.tmp + "/in.odb";
    writeFile(path, bytes);
    c.artifact("in.odb", bytes);
    std::vector<ref::Frame> want;
    std::vector<size_t> ncols;
    size_t largest = 0, total = 0;
    for (auto& f : in)
        if (f.nrows > 0) {
            want.push_back(f);
            largest = std::max(largest, rowDoubles(f));
            ncols.insert(ncols.end(), f.nrows, f.cols.size());
            total += f.nrows;
        }
    auto frames    = ref::decodeAll(bytes);
    bool compat    = !legacy::fortran && c.g.chance(1, 3);
    tools::lib(c.tmp, [&] {
        int err   = -1;
        void* rd  = compat ? odb_create("", &err) : legacy::odb_read_create("", &err);
        zero(err, "odb_read_create");
        // a file that is not there
        void* none = legacy::odb_create_read_iterator(rd, "not-there.odb", &err);
        if (none || err == 0)
            throw Failure{"an iterator over a file that is not there"};
        // two iterators of the same reader, one after the other
        for (int k = 0; k < 2; k++) {
            err      = -1;
            void* it = legacy::odb_create_read_iterator(rd, path.c_str(), &err);
            zero(err, "odb_create_read_iterator");
            auto rows     = drain<ReadOps>(it, largest, &ncols);
            std::string d = same(want, grouped(rows));
            if (!d.empty())
                throw Failure{"legacy reader: " + d};
            zero(legacy::odb_read_iterator_destroy(it), "odb_read_iterator_destroy");
        }
        zero(compat ? odb_destroy(rd) : legacy::odb_read_destroy(rd), "odb_read_destroy");
        double count = legacy::odb_count(path.c_str());
        if (count != double(total))
            throw Failure{"odb_count() is " + std::to_string(count) + ", there are " + std::to_string(total) + " rows"};
        size_t nb    = 0;
        off_t* offs  = nullptr;
        size_t* lens = nullptr;
        zero(get_blocks_offsets(path.c_str(), &nb, &offs, &lens), "get_blocks_offsets");
        if (nb != frames.size())
            throw Failure{std::to_string(nb) + " blocks, there are " + std::to_string(frames.size()) + " frames"};
        for (size_t i = 0; i < nb; i++)
            if (size_t(offs[i]) != frames[i].offset || lens[i] != frames[i].length)
                throw Failure{"block " + std::to_string(i) + " is said to be at " + std::to_string(offs[i]) + " with " +
                              std::to_string(lens[i]) + " bytes"};
        zero(release_blocks_offsets(&offs), "release_blocks_offsets");
        zero(release_blocks_sizes(&lens), "release_blocks_sizes");
        return std::string();
    });
    bool redefined = false;
    for (size_t i = 1; i < want.size(); i++)
        redefined = redefined || gen::schemaText(want[i]) != gen::schemaText(want[0]);
    c.labelIf(redefined, "columns change");
    c.labelIf(want.size() > 1, "several frames");
    c.labelIf(largest > (want.empty() ? 0 : want[0].cols.size()), "wide strings");
    c.nontrivial = total > 1;
}

// ---------------------------------------------------------------------------------------------- queries

struct Cols {
    std::vector<ref::Col> cols;
    std::vector<double> data;
};

std::vector<ref::Frame> current(const std::string& q) {
    std::vector<ref::Frame> out;
    odc::Select sel(q);
    odc::Select::iterator it = sel.begin(), end = sel.end();
    for (; it != end; ++it) {
        if (out.empty() || it->isNewDataset()) {
            out.emplace_back();
            for (auto* col : it->columns()) {
                ref::Col x;
                x.name    = col->name();
                x.type    = int(col->type());
                x.width   = 8 * col->dataSizeDoubles();
                x.missing = col->missingValue();
                if (x.type == ref::BITFIELD)
                    for (size_t k = 0; k < col->bitfieldDef().first.size(); k++)
                        x.bits.push_back(ref::Bit{col->bitfieldDef().first[k], int(col->bitfieldDef().second[k])});
                out.back().cols.push_back(x);
            }
        }
        ref::Frame& f = out.back();
        for (size_t k = 0; k < f.cols.size(); k++) {
            ref::Cell x;
            auto& col = f.cols[k];
            if (col.type == ref::STRING)
                x.s = it->string(int(k));
            else {
                x.d       = it->data(k);
                x.missing = x.d == col.missing;
                x.i       = col.isInt() && x.d > -9e18 && x.d < 9e18 ? int64_t(x.d) : 0;
            }
            col.cells.push_back(x);
        }
        f.nrows++;
    }
    return out;
}

void queries(Ctx& c, bool star) {
    sql::SourceOpts so;
    sql::Source s = sql::genSource(c.g, so);
    language(c);
    std::string path = c.tmp + "/in.odb";
    writeFile(path, s.bytes);
    c.artifact("in.odb", s.bytes);
    for (auto& f : s.frames)
        c.note(gen::describe(f, 4));
    sql::QueryOpts qo;
    qo.star  = star;
    qo.where = !star || c.g.chance(1, 2);
    sql::Query q = sql::genQuery(c.g, s, qo);
    bool appended = q.where.empty() && q.order.empty() && c.g.chance(1, 2);
    std::string text = q.text(path);
    std::string before = q.text();
    while (!before.empty() && (before.back() == ';' || before.back() == ' '))
        before.pop_back();
    c.note(appended ? before + " (file given apart)" : text);
    size_t largest = 64;
    for (auto& f : s.frames)
        largest = std::max(largest, 8 * rowDoubles(f) + 64);
    size_t nrows = 0;
    tools::lib(c.tmp, [&] {
        auto want = current(text);
        int err   = -1;
        void* sel = legacy::odb_select_create("", &err);
        zero(err, "odb_select_create");
        size_t times = appended ? 1 : 1;
        for (size_t k = 0; k < times; k++) {
            err      = -1;
            void* it = appended ? legacy::odb_create_select_iterator_from_file(sel, before.c_str(), path.c_str(), &err)
                                : legacy::odb_create_select_iterator(sel, text.c_str(), &err);
            zero(err, "odb_create_select_iterator");
            int size = 0;
            zero(legacy::odb_select_iterator_get_row_buffer_size_doubles(it, &size), "odb_select_iterator_get_row_buffer_size_doubles");
            bool wider = false;
            for (auto& f : want)
                wider = wider || rowDoubles(f) > size_t(size);
            std::string d;
            try {
                auto rows = drain<SelectOps>(it, largest, nullptr);
                nrows     = rows.size();
                // where the buffer leaves no room for wider strings, columns stay as they are while the strings fit
                d = wider ? sameRows(want, grouped(rows)) : same(want, grouped(rows));
            }
            catch (std::exception& e) {
                // a row larger than the one which the interface gave the size of cannot be delivered
                if (!wider)
                    throw;
            }
            if (!d.empty())
                throw Failure{"legacy select and odc::Select differ: " + d};
            zero(legacy::odb_select_iterator_destroy(it), "odb_select_iterator_destroy");
        }
        zero(legacy::odb_select_destroy(sel), "odb_select_destroy");
        return std::to_string(nrows);
    });
    c.labelIf(appended, "file given apart");
    c.labelIf(!q.order.empty(), "order by");
    c.labelIf(q.distinct, "distinct");
    c.labelIf(q.grouped, "aggregates");
    c.nontrivial = s.rows() > 1;
}

// queries that cannot be answered
void refused(Ctx& c) {
    sql::SourceOpts so;
    so.maxFrames = 1;
    sql::Source s = sql::genSource(c.g, so);
    language(c);
    std::string path = c.tmp + "/in.odb";
    writeFile(path, s.bytes);
    int kind         = int(c.g.index(4));
    std::string text = kind == 0   ? "select * from \"" + c.tmp + "/not-there.odb\""
                       : kind == 1 ? "select no_such_column from \"" + path + "\""
                       : kind == 2 ? "select from where \"" + path + "\""
                                   : "select * from \"" + path + "\" where no_such_column = 1";
    c.note(text);
    std::string what = tools::lib(c.tmp, [&] {
        int err   = -1;
        void* sel = legacy::odb_select_create("", &err);
        err       = 0;
        void* it  = nullptr;
        try {
            it = legacy::odb_create_select_iterator(sel, text.c_str(), &err);
        }
        catch (std::exception& e) {
            return std::string("exception");
        }
        if (err == 0 || it)
            throw Failure{"the query " + text + " gives an iterator, error " + std::to_string(err)};
        legacy::odb_select_destroy(sel);
        return std::string("error code");
    });
    c.label(what);
    c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------------- writing

struct Session {
    bool append = false;
    std::vector<ref::Frame> blocks;  // columns are (re)defined for each
};

void writing(Ctx& c, const gen::Opts& o) {
    std::vector<Session> sessions;
    size_t n = size_t(c.g.range(1, 3));
    ref::Frame last;
    for (size_t i = 0; i < n; i++) {
        Session s;
        s.append = i > 0 ? c.g.chance(4, 5) : c.g.chance(1, 3);
        ref::Frame f = last.cols.empty() || c.g.chance(1, 2) ? gen::genTable(c.g, o) : gen::genLike(c.g, last, o);
        f.props.clear();
        if (last.cols.empty() || gen::schemaText(f) != gen::schemaText(last))
            gen::declare(c.g, f);
        for (auto& x : f.cols)
            if (x.type == ref::BITFIELD) {
                x.missing = ref::MISSING_INT;
                for (auto& y : x.cells)
                    y.missing = false;
            }
        if (c.g.chance(1, 10))
            f = gen::rows(f, 0, 0);
        last = f;
        s.blocks.push_back(f);
        c.note(std::string(s.append ? "append: " : "write: ") + gen::describe(f, 4));
        sessions.push_back(s);
    }
    language(c);
    std::string path = c.tmp + "/out.odb";
    std::vector<ref::Frame> want;
    size_t total = 0;
    for (auto& s : sessions) {
        if (!s.append)
            want.clear(), total = 0;
        for (auto& f : s.blocks)
            if (f.nrows) {
                want.push_back(f);
                total += f.nrows;
            }
    }
    std::string got = tools::lib(c.tmp, [&] {
        for (auto& s : sessions) {
            int err = -1;
            void* w = legacy::odb_writer_create("", &err);
            zero(err, "odb_writer_create");
            err      = -1;
            void* it = s.append ? legacy::odb_create_append_iterator(w, path.c_str(), &err)
                                : legacy::odb_create_write_iterator(w, path.c_str(), &err);
            zero(err, "odb_create_write_iterator");
            for (auto& f : s.blocks) {
                zero(legacy::odb_write_iterator_set_no_of_columns(it, int(f.cols.size())), "set_no_of_columns");
                for (size_t k = 0; k < f.cols.size(); k++) {
                    auto& x = f.cols[k];
                    if (x.type == ref::BITFIELD) {
                        std::string names, sizes;
                        for (auto& b : x.bits)
                            names += b.name + ":", sizes += std::to_string(b.size) + ":";
                        zero(legacy::odb_write_iterator_set_bitfield(it, int(k), x.type, x.name.c_str(), names.c_str(), sizes.c_str()),
                             "set_bitfield");
                    }
                    else
                        zero(legacy::odb_write_iterator_set_column(it, int(k), x.type, x.name.c_str()), "set_column");
                    if (x.type == ref::STRING)
                        zero(legacy::odb_write_iterator_set_column_size_doubles(it, int(k), int(x.width / 8)), "set_column_size_doubles");
                    else
                        zero(legacy::odb_write_iterator_set_missing_value(it, int(k), x.missing), "set_missing_value");
                }
                zero(legacy::odb_write_iterator_write_header(it), "write_header");
                int size = -1;
                zero(legacy::odb_write_iterator_get_row_buffer_size_doubles(it, &size), "get_row_buffer_size_doubles");
                if (size_t(size) != rowDoubles(f))
                    throw Failure{"a row has " + std::to_string(size) + " doubles, its columns " + std::to_string(rowDoubles(f))};
                std::vector<double> row(static_cast<size_t>(size));
                for (size_t r = 0; r < f.nrows; r++) {
                    std::fill(row.begin(), row.end(), 0.0);
                    for (size_t k = 0; k < f.cols.size(); k++) {
                        int off = -1;
                        zero(legacy::odb_write_iterator_get_column_offset(it, int(k), &off), "get_column_offset");
                        auto& x = f.cols[k];
                        auto& y = x.cells[r];
                        if (x.type == ref::STRING)
                            memcpy(&row[size_t(off)], y.s.data(), y.s.size());
                        else
                            row[size_t(off)] = y.missing ? x.missing : x.isInt() ? double(y.i) : y.d;
                    }
                    zero(legacy::odb_write_iterator_set_next_row(it, row.data(), int(f.cols.size())), "set_next_row");
                    // the caller's row is his
                    std::fill(row.begin(), row.end(), GUARD);
                }
            }
            zero(legacy::odb_write_iterator_destroy(it), "odb_write_iterator_destroy");
            zero(legacy::odb_writer_destroy(w), "odb_writer_destroy");
        }
        std::string bytes = readFile(path);
        double count      = total ? legacy::odb_count(path.c_str()) : 0;
        if (count != double(total))
            throw Failure{"odb_count() is " + std::to_string(count) + ", " + std::to_string(total) + " rows were written"};
        auto check = [&](const std::vector<ref::Frame>& v, bool missing, const char* how) {
            std::vector<ref::Frame> w;
            for (auto& f : v)
                if (f.nrows)
                    w.push_back(f);
            if (w.size() != want.size())
                throw Failure{std::string(how) + ": " + std::to_string(w.size()) + " frames instead of " +
                              std::to_string(want.size())};
            for (size_t i = 0; i < want.size(); i++) {
                ref::Frame a = want[i], b = w[i];
                for (size_t k = 0; k < a.cols.size(); k++)
                    if (a.cols[k].type != ref::STRING) {
                        // by value
                        for (auto& y : a.cols[k].cells)
                            if (y.missing)
                                y.missing = false, y.d = a.cols[k].missing, y.i = int64_t(a.cols[k].missing);
                        if (k < b.cols.size())
                            for (auto& y : b.cols[k].cells)
                                if (y.missing)
                                    y.missing = false, y.d = b.cols[k].missing, y.i = int64_t(b.cols[k].missing);
                    }
                std::string d = gen::diff(a, b);
                if (!d.empty())
                    throw Failure{std::string(how) + ", frame " + std::to_string(i) + ": " + d};
                for (size_t k = 0; missing && k < a.cols.size(); k++)
                    if (a.cols[k].type != ref::STRING && a.cols[k].missing != b.cols[k].missing)
                        throw Failure{std::string(how) + ": missing value of " + a.cols[k].name};
            }
        };
        check(ref::decodeAll(bytes), true, "bytes");
        check(capi::readAll(bytes), false, "frame interface");
        check(rows::read(bytes), true, "row reader");
        return bytes;
    });
    c.artifact("out.odb", got);
    c.labelIf(n > 1, "several sessions");
    c.labelIf(total == 0, "no rows");
    bool app = false;
    for (size_t i = 1; i < n; i++)
        app = app || sessions[i].append;
    c.labelIf(app, "appended");
    c.nontrivial = total > 1;
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C24";
    s.rule =
        "files of 1-4 frames (columns may change) read through the legacy read iterators with every attribute queried, "
        "counted and indexed by blocks; generated queries (conditions, expressions, aggregates, distinct, order) through "
        "the legacy select iterators and through odc::Select; 1-3 sessions of writing and appending through the legacy "
        "write iterators, read back from the bytes, as frames and as rows; non-trivial: more than one row";
    gen::Opts o;
    o.maxRows = 15, o.maxCols = 5;
    gen::Opts w = o;
    s.subs.push_back({"reading", [=](Ctx& c) { reading(c, o); }, 2500, 60000});
    s.subs.push_back({"queries", [=](Ctx& c) { queries(c, false); }, 2000, 60000});
    s.subs.push_back({"select *", [=](Ctx& c) { queries(c, true); }, 800, 20000});
    s.subs.push_back({"refused queries", [=](Ctx& c) { refused(c); }, 150, 2000});
    s.subs.push_back({"writing", [=](Ctx& c) { writing(c, w); }, 2500, 60000});
    s.assumptions = {"the buffer given for a row holds the largest row of the file, as the interface cannot be told its size",
                     "the number of columns passed with each row is that of the row's frame"};
    return vf::main(argc, argv, s);
}
