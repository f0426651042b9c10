// C29: failing reads and writes are reported
#include "capi.h"
#include "sql.h"
#include "tools.h"

#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <sstream>

#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "odc/Reader.h"
#include "odc/Select.h"
#include "odc/Writer.h"
#include "odc/api/Odb.h"
#include "odc/core/TablesReader.h"

extern "C" {
#include "odc/odccapi.h"
}

using namespace vf;

namespace {

sql::Source source(Ctx& c, size_t rows = 0, const std::string& prefix = "") {
    sql::SourceOpts o;
    o.maxRows  = c.g.chance(1, 8) ? 200 : 10;
    o.maxCols  = 4;
    o.rows     = rows;
    o.prefix   = prefix;
    o.vary     = c.g.chance(1, 3);
    o.types    = false;
    o.bits     = false;
    o.widths   = o.vary;
    return sql::genSource(c.g, o);
}

std::map<std::string, std::string> files(const std::string& dir) {
    std::map<std::string, std::string> m;
    DIR* d = opendir(dir.c_str());
    if (!d)
        throw Failure{"cannot list " + dir};
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..")
            m[n] = readFile(dir + "/" + n);
    }
    closedir(d);
    return m;
}

// a byte of data at which to fail, rather at the edges of frames and at either end
size_t genByte(Ctx& c, const std::string& data, bool odb) {
    size_t n = data.size();
    switch (c.g.weighted({4, 3, 2, 1})) {
        case 0:
            return c.g.index(n);
        case 1:
            if (odb) {
                auto v = ref::decodeAll(data);
                auto& f = v[c.g.index(v.size())];
                size_t at[] = {f.offset, f.offset + f.headerLength, f.offset + f.length};
                long p      = long(at[c.g.index(3)]) + long(c.g.range(0, 2)) - 1;
                return size_t(std::max(0l, std::min(p, long(n) - 1)));
            }
            return c.g.index(n);
        case 2:
            return n - 1 - c.g.index(std::min(n, size_t(16)));
        default:
            return c.g.index(std::min(n, size_t(16)));
    }
}

const ref::Col* numeric(const sql::Source& s) {
    for (auto& k : s.cols())
        if (k.type != ref::STRING)
            return &k;
    return nullptr;
}

// a tool's arguments and input files
struct Job {
    std::vector<std::string> args;
    std::map<std::string, std::string> in;
    bool odb = true;
};

Job genTextJob(Ctx& c) {
    Job j;
    j.odb = false;
    if (c.g.chance(1, 2)) {
        j.in["in.odb"] = source(c).bytes;
        j.args         = {"ls", "-o", "out.txt", "in.odb"};
    }
    else {
        std::string t = "lat:REAL,lon:REAL,v:REAL\n";
        size_t n      = 1 + c.g.index(50);
        for (size_t i = 0; i < n; i++)
            t += std::to_string(c.g.range(0, 90)) + "," + std::to_string(c.g.range(0, 180)) + ".5," + std::to_string(i) + "\n";
        j.in["in.odb"] = tools::lib(c.tmp, [&] {
            eckit::MemoryHandle h(size_t(1 << 20), true);
            h.openForWrite(0);
            odc::api::odbFromCSV(t, h);
            return std::string(static_cast<const char*>(h.data()), size_t((long long)h.position()));
        });
        j.args = {"xyv", "in.odb", "v", "out.txt"};
    }
    return j;
}

Job genJob(Ctx& c) {
    Job j;
    sql::Source s = source(c);
    j.in["in.odb"] = s.bytes;
    auto* num      = numeric(s);
    switch (c.g.index(13)) {
        case 0:
            j.args = {"compact", "in.odb", "out.odb"};
            break;
        case 1:
            j.args = {"fixrowsize", "in.odb", "out.odb"};
            break;
        case 2:
            j.args = {"set", s.cols()[0].type == ref::STRING ? s.cols()[0].name + "='ab'" : s.cols()[0].name + "=1", "in.odb", "out.odb"};
            break;
        case 3:
            if (!num)
                c.discard();
            j.args = {"mdset", num->name + ":" + (num->type == ref::REAL ? "DOUBLE" : "REAL"), "in.odb", "out.odb"};
            break;
        case 4:
            j.args = {"sql", "select *", "-i", "in.odb", "-f", "odb", "-o", "out.odb"};
            break;
        case 5:
            j.args = {"sql", "select * into \"out.odb\" from \"in.odb\""};
            break;
        case 6:
            j.args = {"sql", "select *", "-i", "in.odb", "-o", "out.txt"};
            if (c.g.chance(1, 2)) {
                j.args.push_back("-f");
                j.args.push_back(c.g.pick({"ascii", "wide", "default"}));
            }
            j.odb = false;
            break;
        case 7: {
            std::string t = "a:INTEGER,b:REAL,c:STRING\n";
            size_t n      = 1 + c.g.index(c.g.chance(1, 4) ? 400 : 20);
            for (size_t i = 0; i < n; i++)
                t += std::to_string(c.g.range(0, 1000)) + "," + std::to_string(c.g.range(0, 99)) + ".5," + (c.g.chance(1, 2) ? "abc" : "defghij") + "\n";
            j.in = {{"in.txt", t}};
            j.args = {"import", "in.txt", "out.odb"};
            if (c.g.chance(1, 2))
                j.args = {"import", "-sql", "select a,c", "in.txt", "out.odb"};
            break;
        }
        case 8: {
            sql::Source a     = source(c, s.rows(), "x");
            j.in["other.odb"] = a.bytes;
            j.args            = {"merge", "-o", "out.odb", "in.odb", "other.odb"};
            for (auto& x : s.cols())
                for (auto& y : a.cols())
                    if (gen::shortName(x.name) == gen::shortName(y.name))
                        c.discard();
            break;
        }
        case 9:
            if (!num)
                c.discard();
            j.args = {"split"};
            if (c.g.chance(1, 2))
                j.args.push_back("-no_verification");
            if (c.g.chance(1, 2)) {
                j.args.push_back("-maxopenfiles");
                j.args.push_back("1");
            }
            j.args.push_back("in.odb");
            j.args.push_back("out.{" + num->name + "}.odb");
            break;
        case 10: {
            if (!num)
                c.discard();
            j.args = {"sql", "select distinct " + num->name + " order by " + num->name, "-i", "in.odb", "-f", "odb", "-o", "out.odb"};
            break;
        }
    }
    if (j.args.empty())
        j = genTextJob(c);
    return j;
}

void toolWrites(Ctx& c) {
    Job j = genJob(c);
    c.note(tools::text(j.args));
    for (auto& f : j.in) {
        c.artifact(f.first, f.second);
        mkdir((c.tmp + "/a").c_str(), 0755);
        mkdir((c.tmp + "/b").c_str(), 0755);
        writeFile(c.tmp + "/a/" + f.first, f.second);
        writeFile(c.tmp + "/b/" + f.first, f.second);
    }
    RunResult r = tools::odc(j.args, c.tmp + "/a");
    if (r.status != 0)
        c.discard();
    auto full = files(c.tmp + "/a");
    for (auto& f : j.in)
        full.erase(f.first);
    std::string biggest;
    for (auto& f : full)
        if (f.second.size() > biggest.size())
            biggest = f.second;
    VF_CHECK(c, !biggest.empty(), "there is no output");
    tools::Limit limit;
    limit.bytes = genByte(c, biggest, j.odb);
    c.note("at most " + std::to_string(limit.bytes) + " of " + std::to_string(biggest.size()) + " bytes");
    r = tools::odc(j.args, c.tmp + "/b", 60, &limit);
    VF_CHECK(c, r.status != 0, tools::text(j.args) << " succeeds although only " << limit.bytes << " of " << biggest.size() << " bytes could be written");
    auto part = files(c.tmp + "/b");
    for (auto& f : part) {
        if (j.in.count(f.first)) {
            VF_CHECK(c, f.second == j.in[f.first], "the input was modified");
            continue;
        }
        auto it = full.find(f.first);
        VF_CHECK(c, it != full.end(), "there is a file " << f.first << " that the tool does not write otherwise");
        c.artifact("part." + f.first, f.second);
        VF_CHECK(c, f.second.size() <= it->second.size() && it->second.compare(0, f.second.size(), f.second) == 0, "what was written to " << f.first << " is not the beginning of the full output");
    }
    c.label(j.args[0] == "sql" ? (j.odb ? "sql odb" : "sql text") : j.args[0]);
    c.nontrivial = limit.bytes > 0;
}

void stdoutWrites(Ctx& c) {
    sql::Source s = source(c);
    writeFile(c.tmp + "/in.odb", s.bytes);
    c.artifact("in.odb", s.bytes);
    std::vector<std::string> a;
    switch (c.g.index(4)) {
        case 0:
            a = {"sql", "select *", "-i", "in.odb"};
            break;
        case 1:
            a = {"ls", "in.odb"};
            break;
        case 2:
            a = {"header", "in.odb"};
            break;
        case 3:
            a = {"count", "in.odb"};
            break;
    }
    c.note(tools::text(a));
    tools::Limit limit;
    limit.bytes = 100 << 20;
    limit.out   = c.tmp + "/full";
    RunResult r = tools::odc(a, c.tmp, 60, &limit);
    if (r.status != 0)
        c.discard();
    std::string full = readFile(limit.out);
    VF_CHECK(c, !full.empty(), "there is no output");
    limit.bytes = genByte(c, full, false);
    limit.out   = c.tmp + "/part";
    r           = tools::odc(a, c.tmp, 60, &limit);
    VF_CHECK(c, r.status != 0, tools::text(a) << " succeeds although only " << limit.bytes << " of " << full.size() << " bytes could be written to standard output");
    c.label(a[0]);
    c.nontrivial = limit.bytes > 0;
}

// a handle that fails at a byte, in one of several ways
struct Faulty : public eckit::DataHandle {
    enum How {
        SHORT,  // comes up short there, and then fails
        FAIL,   // the whole call fails
        THROW
    };
    std::string data;
    size_t limit = 0, pos = 0;
    How how      = SHORT;
    bool failed  = false;
    void print(std::ostream& s) const override { s << "Faulty"; }
    eckit::Length openForRead() override {
        pos = 0;
        return data.size();
    }
    void openForWrite(const eckit::Length&) override {}
    void openForAppend(const eckit::Length&) override {}
    void close() override {}
    eckit::Length size() override { return data.size(); }
    eckit::Length estimate() override { return data.size(); }
    eckit::Offset position() override { return pos; }
    eckit::Offset seek(const eckit::Offset& o) override {
        pos = size_t((long long)o);
        return o;
    }
    bool canSeek() const override { return seekable; }
    void skip(const eckit::Length& n) override { pos += size_t((long long)n); }
    eckit::DataHandle* clone() const override { return new Faulty(*this); }
    bool seekable = true;
    long write(const void* p, long n) override {
        if (data.size() + size_t(n) > limit) {
            size_t room = how == SHORT && !failed ? limit - data.size() : 0;
            data.append(static_cast<const char*>(p), room);
            failed = true;
            if (how == THROW)
                throw eckit::WriteError("the device is full");
            return room ? long(room) : how == SHORT ? 0 : -1;
        }
        data.append(static_cast<const char*>(p), size_t(n));
        return n;
    }
    long read(void* p, long n) override {
        if (pos >= data.size() && pos < limit)
            return 0;
        size_t avail = data.size() - std::min(pos, data.size());
        size_t m     = std::min(size_t(n), avail);
        if (pos + m > limit || pos >= limit) {
            m = limit > pos ? limit - pos : 0;
            if (how != SHORT || m == 0) {
                failed = true;
                if (how == THROW)
                    throw eckit::ReadError("the device fails");
                return -1;
            }
        }
        memcpy(p, data.data() + pos, m);
        pos += m;
        return long(m);
    }
};

// writes a table to a handle in one of several ways
struct Way {
    int kind = 0;
    sql::Source s;
    std::string csv;
    size_t bufferRows = 10000;
    bool explicitClose = true;
};
Way genWay(Ctx& c) {
    Way w;
    w.kind          = int(c.g.index(5));
    w.s             = source(c);
    w.bufferRows    = c.g.chance(1, 2) ? 1 + c.g.index(10) : 10000;
    w.explicitClose = c.g.chance(2, 3);
    if (w.kind == 3) {
        w.csv    = "a:INTEGER,b:REAL,c:STRING\n";
        size_t n = 1 + c.g.index(30);
        for (size_t i = 0; i < n; i++)
            w.csv += std::to_string(c.g.range(0, 1000)) + "," + std::to_string(c.g.range(0, 99)) + ".5," + (c.g.chance(1, 2) ? "abc" : "defghij") + "\n";
    }
    return w;
}
const char* wayNames[] = {"odc::Writer", "odc::Writer, copying", "odc::api::filter", "odc::api::odbFromCSV", "odc::api::encode"};

void perform(const Way& w, eckit::DataHandle& out) {
    switch (w.kind) {
        case 0: {  // rows of the first frame, one by one
            auto& f = w.s.frames[0];
            odc::Writer<> wr{out};
            wr.rowsBufferSize(w.bufferRows);
            odc::Writer<>::iterator it = wr.begin();
            it->setNumberOfColumns(f.cols.size());
            for (size_t k = 0; k < f.cols.size(); k++) {
                it->setColumn(k, f.cols[k].name, f.cols[k].type == ref::STRING ? odc::api::STRING : odc::api::DOUBLE);
                if (f.cols[k].type == ref::STRING)
                    it->columns()[k]->dataSizeDoubles(f.cols[k].width / 8);
            }
            it->writeHeader();
            for (size_t r = 0; r < f.nrows; r++) {
                for (size_t k = 0; k < f.cols.size(); k++) {
                    double* p = &it->data()[it->dataOffset(k)];
                    auto& x   = f.cols[k].cells[r];
                    if (f.cols[k].type == ref::STRING) {
                        memset(p, 0, f.cols[k].width);
                        memcpy(p, x.s.data(), std::min(x.s.size(), f.cols[k].width));
                    }
                    else
                        *p = f.cols[k].isInt() ? double(x.i) : x.d;
                }
                ++it;
            }
            if (w.explicitClose)
                it->close();
            break;
        }
        case 1: {
            eckit::MemoryHandle in(w.s.bytes.data(), w.s.bytes.size());
            odc::Reader rd(in);
            odc::Writer<> wr{out};
            wr.rowsBufferSize(w.bufferRows);
            odc::Writer<>::iterator it = wr.begin();
            odc::Reader::iterator b = rd.begin(), e = rd.end();
            it->pass1(b, e);
            break;
        }
        case 2: {
            eckit::MemoryHandle in(w.s.bytes.data(), w.s.bytes.size());
            in.openForRead();
            odc::api::filter("select *", in, out);
            break;
        }
        case 3:
            odc::api::odbFromCSV(w.csv, out);
            break;
        case 4: {
            auto& f = w.s.frames[0];
            std::vector<odc::api::ColumnInfo> cols;
            std::vector<odc::api::ConstStridedData> data;
            std::vector<std::vector<char>> mem;
            for (auto& k : f.cols) {
                size_t width = k.type == ref::STRING ? k.width : 8;
                cols.push_back(odc::api::ColumnInfo{k.name, k.type == ref::STRING ? odc::api::STRING : odc::api::DOUBLE, width, {}});
                mem.emplace_back(width * f.nrows, '\0');
                for (size_t r = 0; r < f.nrows; r++) {
                    auto& x  = k.cells[r];
                    double d = k.isInt() ? double(x.i) : x.d;
                    if (k.type == ref::STRING)
                        memcpy(&mem.back()[r * width], x.s.data(), std::min(x.s.size(), width));
                    else
                        memcpy(&mem.back()[r * width], &d, 8);
                }
            }
            for (size_t k = 0; k < f.cols.size(); k++) {
                size_t width = f.cols[k].type == ref::STRING ? f.cols[k].width : 8;
                data.emplace_back(mem[k].data(), f.nrows, width, width);
            }
            odc::api::encode(out, cols, data, {}, w.bufferRows);
            break;
        }
    }
}

void libraryWrites(Ctx& c) {
    Way w = genWay(c);
    c.note(wayNames[w.kind]);
    for (auto& f : w.s.frames)
        c.note(gen::describe(f, 8));
    std::string full = tools::lib(c.tmp, [&] {
        Faulty out;
        out.limit = ~size_t(0);
        perform(w, out);
        return out.data;
    });
    VF_CHECK(c, !full.empty(), "there is no output");
    auto how     = Faulty::How(c.g.index(3));
    size_t limit = genByte(c, full, true);
    c.note("fails at byte " + std::to_string(limit) + " of " + std::to_string(full.size()) + ", kind " + std::to_string(int(how)));
    std::string error;
    std::string part = tools::lib(c.tmp, [&]() -> std::string {
        Faulty out;
        out.limit = limit;
        out.how   = how;
        std::string err;
        try {
            perform(w, out);
        }
        catch (std::exception& e) {
            err = e.what();
        }
        if (err.empty())
            throw Failure{"success, although a write failed"};
        return out.data;
    });
    c.artifact("part", part);
    VF_CHECK(c, part.size() <= full.size() && full.compare(0, part.size(), part) == 0, "what was written is not the beginning of the full output");
    c.label(wayNames[w.kind]);
    static const char* hows[] = {"short", "fails", "throws"};
    c.label(hows[how]);
    c.nontrivial = limit > 0;
}

// the legacy interface, to a file on a full disk
void legacyWrites(Ctx& c) {
    size_t rows = 1 + c.g.index(c.g.chance(1, 4) ? 300 : 20), cols = 1 + c.g.index(3);
    std::vector<double> v;
    for (size_t i = 0; i < rows * cols; i++)
        v.push_back(c.g.range(0, 1000) / 8.0);
    auto run = [&](const std::string& path) {
        int err = 0;
        auto w  = odb_writer_create("", &err);
        if (err)
            throw std::runtime_error("odb_writer_create");
        auto it = odb_create_write_iterator(w, path.c_str(), &err);
        if (err)
            throw std::runtime_error("odb_create_write_iterator");
        std::string failed;
        auto call = [&](int rc, const char* what) {
            if (rc && failed.empty())
                failed = what;
        };
        call(odb_write_iterator_set_no_of_columns(it, int(cols)), "set_no_of_columns");
        for (size_t k = 0; k < cols; k++)
            call(odb_write_iterator_set_column(it, int(k), odc::api::DOUBLE, ("c" + std::to_string(k)).c_str()), "set_column");
        call(odb_write_iterator_write_header(it), "write_header");
        for (size_t r = 0; r < rows; r++)
            call(odb_write_iterator_set_next_row(it, &v[r * cols], int(cols)), "set_next_row");
        call(odb_write_iterator_destroy(it), "iterator_destroy");
        call(odb_writer_destroy(w), "writer_destroy");
        if (!failed.empty())
            throw std::runtime_error(failed);
    };
    tools::lib(c.tmp, [&] {
        run(c.tmp + "/full.odb");
        return std::string();
    });
    std::string full = readFile(c.tmp + "/full.odb");
    tools::Limit limit;
    limit.bytes = genByte(c, full, true);
    c.note(std::to_string(rows) + " rows, at most " + std::to_string(limit.bytes) + " of " + std::to_string(full.size()) + " bytes");
    std::string error;
    tools::lib(
        c.tmp,
        [&] {
            run(c.tmp + "/part.odb");
            return std::string();
        },
        &error, 60, &limit);
    VF_CHECK(c, !error.empty(), "success, although only " << limit.bytes << " of " << full.size() << " bytes could be written");
    std::string part = readFile(c.tmp + "/part.odb");
    VF_CHECK(c, part.size() <= full.size() && full.compare(0, part.size(), part) == 0, "what was written is not the beginning of the full output");
    c.nontrivial = limit.bytes > 0;
}

const char* readNames[] = {"odc::Reader", "TablesReader", "odc::Select", "odc::api::Reader", "odc::api::Reader, aggregated", "odc::api::filter", "Span"};

void reads(Ctx& c) {
    sql::Source s = source(c);
    for (auto& f : s.frames)
        c.note(gen::describe(f, 8));
    int kind     = int(c.g.index(6));
    auto how     = Faulty::How(c.g.index(3));
    bool seek    = c.g.chance(1, 2);
    size_t limit = genByte(c, s.bytes, true);
    c.note(std::string(readNames[kind]) + " fails at byte " + std::to_string(limit) + " of " + std::to_string(s.bytes.size()) + ", kind " + std::to_string(int(how)) + (seek ? "" : ", not seekable"));
    c.artifact("in.odb", s.bytes);
    size_t total = s.rows();
    tools::lib(c.tmp, [&] {
        for (bool faulty : {false, true}) {
            Faulty in;
            in.data     = s.bytes;
            in.limit    = faulty ? limit : ~size_t(0);
            in.how      = how;
            in.seekable = seek;
            in.openForRead();
            size_t rows = 0;
            std::string err;
            try {
                switch (kind) {
                    case 0: {
                        odc::Reader rd(in);
                        odc::Reader::iterator it = rd.begin(), end = rd.end();
                        for (; it != end; ++it)
                            rows++;
                        break;
                    }
                    case 1: {
                        odc::core::TablesReader rd(in);
                        for (auto it = rd.begin(), end = rd.end(); it != end; ++it) {
                            rows += it->rowCount();
                            eckit::Buffer b = it->readEncodedData();
                            if (b.size() != it->encodedDataSize())
                                throw Failure{"readEncodedData returns too little"};
                        }
                        break;
                    }
                    case 2: {
                        odc::Select sel("select *", in);
                        for (auto it = sel.begin(), end = sel.end(); it != end; ++it)
                            rows++;
                        break;
                    }
                    case 3:
                    case 4: {
                        odc::api::Reader rd(in, kind == 4);
                        while (odc::api::Frame f = rd.next()) {
                            rows += f.rowCount();
                            std::vector<std::string> names;
                            std::vector<odc::api::StridedData> data;
                            std::vector<std::vector<char>> mem;
                            for (auto& k : f.columnInfo()) {
                                names.push_back(k.name);
                                mem.emplace_back(k.decodedSize * f.rowCount());
                                data.emplace_back(mem.back().data(), f.rowCount(), k.decodedSize, k.decodedSize);
                            }
                            odc::api::Decoder d(names, data);
                            d.decode(f);
                        }
                        break;
                    }
                    default: {
                        Faulty out;
                        out.limit = ~size_t(0);
                        rows      = odc::api::filter("select *", in, out);
                    }
                }
            }
            catch (std::exception& e) {
                err = e.what();
                if (err.empty())
                    err = "error";
            }
            if (!faulty && !err.empty())
                throw Failure{"a handle that does not fail cannot be read: " + err};
            if (!faulty && rows != total)
                throw Failure{"a handle that does not fail gives " + std::to_string(rows) + " rows instead of " + std::to_string(total)};
            if (faulty && err.empty())
                throw Failure{"success with " + std::to_string(rows) + " of " + std::to_string(total) + " rows, although reading failed"};
        }
        return std::string();
    });
    c.label(readNames[kind]);
    bool edge = false;
    for (auto& f : ref::decodeAll(s.bytes))
        edge = edge || f.offset == limit;
    c.labelIf(edge, "between frames");
    c.nontrivial = limit > 0;
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C29";
    s.rule =
        "tools and library functions given random files; once without and once with a limit on what can be written (or a handle "
        "that comes up short, fails or throws at a byte), at every kind of place in the output, and the "
        "same for reading; the second time must end with an error and leave a prefix of the first output; non-trivial: some "
        "bytes can be written or read";
    s.assumptions.push_back("a full disk is simulated by a limit on the size of files (RLIMIT_FSIZE), which writes exceed with EFBIG after coming up short");
    s.subs.push_back({"tools", toolWrites, 1200, 30000});
    s.subs.push_back({"stdout", stdoutWrites, 400, 8000});
    s.subs.push_back({"library", libraryWrites, 1200, 30000});
    s.subs.push_back({"legacy", legacyWrites, 300, 8000});
    s.subs.push_back({"reads", reads, 1500, 30000});
    return vf::main(argc, argv, s);
}
