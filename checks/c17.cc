// C17: query results stored as ODB-2 equal the results themselves
#include "capi.h"
#include "sql.h"
#include "tools.h"

#include <algorithm>
#include <unistd.h>

#include "eckit/io/AutoCloser.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "odc/Select.h"
#include "odc/Writer.h"
#include "odc/api/Odb.h"

using namespace vf;

namespace {

void describe(Ctx& c, const sql::Source& s) {
    for (auto& f : s.frames)
        c.note(gen::describe(f, 20));
}

sql::Query query(Ctx& c, const sql::Source& s) {
    sql::QueryOpts o;
    o.uniqueTitles = true;
    o.star         = false;
    sql::Query q   = sql::genQuery(c.g, s, o);
    if (q.distinct) {
        for (auto& x : q.out)
            if (!x.col.empty())
                for (auto& f : s.frames)
                    if (f.find(x.col)->width != s.frames[0].find(x.col)->width)
                        c.discard();
    }
    // min() and max() have the type their argument has at last: see KF1
    if (q.grouped)
        for (auto& f : s.frames)
            for (auto& x : s.cols())
                if (f.find(x.name)->type != x.type)
                    c.discard();
    // rows of a group come in any order
    if (q.grouped && q.rows.size() > 1)
        c.discard();
    c.labelIf(q.distinct, "distinct");
    c.labelIf(q.ordered, "order by");
    c.labelIf(q.grouped, "aggregates");
    c.labelIf(q.select.find('.') != std::string::npos, "members");
    c.labelIf(!s.sameShape, "changing types, widths or members");
    c.labelIf(s.frames.size() > 1, "several frames");
    c.labelIf(q.rows.empty(), "empty result");
    c.labelIf(q.rows.size() > 10000, "more rows than fit in a frame");
    c.nontrivial = !q.rows.empty() && (q.rows.size() < s.rows() || s.frames.size() > 1);
    return q;
}

sql::Source source(Ctx& c, bool sameShape = false) {
    sql::SourceOpts o;
    o.maxRows = c.g.chance(1, 10) ? 60 : 8;
    if (sameShape)
        o.vary = o.types = o.widths = o.bits = false;
    else
        o.dupShort = c.g.chance(1, 4);
    return sql::genSource(c.g, o);
}

std::vector<ref::Frame> decoded(Ctx& c, const std::string& file) {
    std::string bytes = readFile(file);
    c.artifact("out.odb", bytes);
    try {
        auto v = ref::decodeAll(bytes);
        v.erase(std::remove_if(v.begin(), v.end(), [](const ref::Frame& f) { return f.nrows == 0; }), v.end());
        return v;
    }
    catch (ref::FormatError& e) {
        c.fail("the output is not valid: " + std::string(e.what()));
    }
}

// one query, stored in every way there is
void query_(Ctx& c) {
    sql::Source s = source(c);
    describe(c, s);
    c.artifact("in.odb", s.bytes);
    writeFile(c.tmp + "/in.odb", s.bytes);
    sql::Query q = query(c, s);
    static const char* ways[] = {"sql -f odb -o", "sql into", "filter()", "filter() of files", "Select into a Writer", "SQL with two outputs"};
    int way = int(c.g.index(5));
    c.label(ways[way]);
    c.note(std::string(ways[way]) + ": " + q.text());
    std::string out = c.tmp + "/out.odb";
    if (c.g.chance(1, 4))
        writeFile(out, "something else that was there before");
    long counted = -1;
    if (way < 2) {
        bool from = way == 1 && c.g.chance(1, 2);
        std::vector<std::string> a{"sql"};
        if (!from) {
            a.push_back("-i");
            a.push_back("in.odb");
        }
        if (way == 0) {
            a.push_back("-f");
            a.push_back("odb");
            a.push_back("-o");
            a.push_back("out.odb");
        }
        a.push_back(q.text(from ? "in.odb" : "", way == 1 ? "out.odb" : ""));
        c.note(tools::text(a));
        RunResult r = tools::odc(a, c.tmp);
        VF_CHECK(c, r.status == 0, tools::text(a) << " fails: " << r.err.substr(0, 600));
    }
    else {
        int buffer = int(c.g.pick({10000, 1, 3}));
        std::string n = tools::lib(c.tmp, [&] {
            size_t rows = 0;
            if (way == 2) {
                eckit::MemoryHandle in(s.bytes.data(), s.bytes.size());
                in.openForRead();
                eckit::MemoryHandle o(1024, true);
                rows = odc::api::filter(q.text(), in, o);
                writeFile(out, std::string(static_cast<const char*>(o.data()), size_t(o.position())));
            }
            else if (way == 3) {
                eckit::FileHandle in(c.tmp + "/in.odb"), o(out);
                in.openForRead();
                rows = odc::api::filter(q.text(), in, o);
                in.close();
            }
            else {
                odc::Select sel(q.text(), eckit::PathName(c.tmp + "/in.odb"));
                odc::Writer<> w{eckit::PathName(out)};
                w.rowsBufferSize(size_t(buffer));
                odc::Writer<>::iterator o = w.begin();
                rows                      = o->pass1(sel.begin(), sel.end());
            }
            return std::to_string(rows);
        });
        counted = atol(n.c_str());
        VF_CHECK(c, size_t(counted) == q.rows.size(), counted << " rows reported instead of " << q.rows.size());
    }
    std::string d = sql::differs(s, q, decoded(c, out));
    VF_CHECK(c, d.empty(), d);
}

// a frame filtered on its own
void frame(Ctx& c) {
    sql::Source s = source(c, true);
    bool big      = c.thorough && c.g.chance(1, 200);
    if (big) {  // more rows than a frame of the result has
        ref::Frame f = s.frames[0];
        size_t n     = f.nrows;
        for (auto& col : f.cols)
            for (size_t r = n; r < 10000 + size_t(7 * n); r++)
                col.cells.push_back(col.cells[r % n]);
        f.nrows  = f.cols[0].cells.size();
        s.bytes  = gen::encodeAny(c.g, f);
        s.frames = ref::decodeAll(s.bytes);
    }
    if (!s.sameShape) {  // not joined
        s.bytes     = s.bytes.substr(0, s.frames[0].length);
        s.sameShape = true;
        s.frames.resize(1);
    }
    describe(c, s);
    c.artifact("in.odb", s.bytes);
    // the frame as it is joined: columns in the order of its first constituent, wide enough for all of them
    ref::Frame j = gen::join(s.frames);
    sql::Query q;
    bool none = c.g.chance(1, 10);
    if (!none)
        q = query(c, s);
    c.note(none ? "no query" : q.text());
    int twice = c.g.chance(1, 4);
    std::vector<ref::Frame> got;
    std::string bytes = tools::lib(c.tmp, [&] {
        odc::api::Reader reader(new eckit::MemoryHandle(s.bytes.data(), s.bytes.size()), true);
        odc::api::Frame f = reader.next();
        if (!f)
            throw Failure{"no frame"};
        if (f.rowCount() != j.nrows)
            throw Failure{"the frames are not joined"};
        odc::api::Frame x;
        for (int i = 0; i <= twice; i++)
            x = f.filter(none ? "" : q.text());
        // the frame itself is as before
        if (f.rowCount() != j.nrows || f.columnCount() != j.cols.size())
            throw Failure{"filter() changes the frame it is called on"};
        if (!x)
            return std::string();
        eckit::Buffer b = x.encodedData();
        return std::string(static_cast<const char*>(b.data()), b.size());
    });
    c.artifact("out.odb", bytes);
    got = ref::decodeAll(bytes);
    if (none) {
        VF_CHECK(c, bytes == s.bytes, "filtering without a query changes the data");
        c.label("no query");
        return;
    }
    std::string d = sql::differs(s, q, got);
    VF_CHECK(c, d.empty(), d);
}

// select * reproduces the table
void identity(Ctx& c) {
    sql::SourceOpts o;
    o.maxRows  = c.g.chance(1, 10) ? 60 : 8;
    o.vary     = false;
    o.dupShort = c.g.chance(1, 2);
    sql::Source s = sql::genSource(c.g, o);
    describe(c, s);
    c.artifact("in.odb", s.bytes);
    writeFile(c.tmp + "/in.odb", s.bytes);
    int how = int(c.g.index(4));
    std::string q = c.g.chance(1, 2) ? "select *;" : "select * where rownumber() >= 1;";
    c.note(q + " by way " + std::to_string(how));
    if (how == 0 || how == 1) {
        std::vector<std::string> a{"sql"};
        if (how == 0)
            a.insert(a.end(), {"-i", "in.odb", "-f", "odb", "-o", "out.odb", q});
        else
            a.push_back("select * into \"out.odb\" from \"in.odb\"" + q.substr(8));
        RunResult r = tools::odc(a, c.tmp);
        VF_CHECK(c, r.status == 0, tools::text(a) << " fails: " << r.err.substr(0, 600));
    }
    else if (how == 2)
        tools::lib(c.tmp, [&] {
            odc::Select sel(q, eckit::PathName(c.tmp + "/in.odb"));
            odc::Writer<> w{eckit::PathName(c.tmp + "/out.odb")};
            odc::Writer<>::iterator o = w.begin();
            o->pass1(sel.begin(), sel.end());
            return std::string();
        });
    else
        tools::lib(c.tmp, [&] {
            eckit::FileHandle in(c.tmp + "/in.odb"), o(c.tmp + "/out.odb");
            in.openForRead();
            odc::api::filter(q, in, o);
            in.close();
            return std::string();
        });
    std::vector<ref::Frame> out = decoded(c, c.tmp + "/out.odb");
    // compare row by row, whatever the frames are
    size_t fi = 0, r = 0, n = 0;
    for (auto& f : s.frames)
        for (size_t i = 0; i < f.nrows; i++, n++) {
            while (fi < out.size() && r == out[fi].nrows) {
                fi++;
                r = 0;
            }
            VF_CHECK(c, fi < out.size(), "only " << n << " rows of " << s.rows());
            auto& x = out[fi];
            VF_CHECK(c, x.cols.size() == f.cols.size(), x.cols.size() << " columns instead of " << f.cols.size());
            for (size_t k = 0; k < f.cols.size(); k++) {
                auto &a = f.cols[k], &b = x.cols[k];
                VF_CHECK(c, a.name == b.name, "column " << k << " named " << b.name << " instead of " << a.name);
                VF_CHECK(c, a.type == b.type, "type of " << a.name << " " << ref::typeName(b.type) << " instead of " << ref::typeName(a.type));
                VF_CHECK(c, a.type != ref::BITFIELD || sql::sameBits(a, b), "members of " << a.name);
                sql::Val v = sql::cellVal(a, a.cells[i]), w = sql::stored(b, b.cells[r]);
                VF_CHECK(c, sql::coincides(v, w, b) || sql::same(v, w), "row " << n << " of " << a.name << ": " << sql::text(w) << " instead of " << sql::text(v));
            }
            r++;
        }
    while (fi < out.size() && r == out[fi].nrows) {
        fi++;
        r = 0;
    }
    VF_CHECK(c, fi == out.size(), "more rows than the source has");
    c.labelIf(!s.sameShape, "changing types, widths or members");
    c.labelIf(s.frames.size() > 1, "several frames");
    c.nontrivial = s.frames.size() > 1 || s.rows() > 2;
}

// into a file per value of a column of the result
void dispatched(Ctx& c) {
    sql::Source s = source(c);
    describe(c, s);
    c.artifact("in.odb", s.bytes);
    writeFile(c.tmp + "/in.odb", s.bytes);
    sql::Query q = query(c, s);
    std::vector<size_t> keys;
    for (size_t k = 0; k < q.out.size() && keys.size() < 2; k++)
        if (!q.out[k].col.empty() && q.out[k].member.empty()) {
            int t   = s.cols()[0].type;
            bool ok = true;
            for (auto& f : s.frames) {
                t  = f.find(q.out[k].col)->type;
                ok = ok && (t == ref::INTEGER || t == ref::STRING);
                for (auto& x : f.find(q.out[k].col)->cells)
                    ok = ok && (t != ref::STRING || x.s.find_first_of("/:~ \t{}") == std::string::npos);
            }
            if (ok && (keys.empty() || c.g.chance(1, 2)))
                keys.push_back(k);
        }
    if (keys.empty() || q.rows.empty())
        c.discard();
    std::string tmpl = "o";
    for (size_t k : keys)
        tmpl += ".{" + q.out[k].title + "}";
    tmpl += ".odb";
    std::map<std::string, std::vector<size_t>> want;
    for (size_t r = 0; r < q.rows.size(); r++) {
        std::string n = "o";
        for (size_t k : keys) {
            auto& v = q.rows[r].v[k];
            n += "." + (v.str ? v.s : v.null ? "2147483647" : std::to_string(int64_t(v.d)));
        }
        want[n + ".odb"].push_back(r);
    }
    std::vector<std::string> a{"sql", "-i", "in.odb", q.text("", tmpl)};
    c.note(tools::text(a));
    RunResult r = tools::odc(a, c.tmp);
    VF_CHECK(c, r.status == 0, tools::text(a) << " fails: " << r.err.substr(0, 600));
    size_t total = 0;
    for (auto& w : want) {
        std::string p = c.tmp + "/" + w.first;
        VF_CHECK(c, access(p.c_str(), F_OK) == 0, "no file " << w.first);
        std::string d = sql::differs(s, q, decoded(c, p), &w.second);
        VF_CHECK(c, d.empty(), w.first << ": " << d);
        total += w.second.size();
    }
    c.labelIf(want.size() > 1, "several files");
    c.nontrivial = want.size() > 1;
}

// KF1: max() of a column that was REAL and became INTEGER is stored as INTEGER
bool aggregateType(Ctx& c) {
    std::string bytes;
    for (int i = 0; i < 2; i++) {
        ref::Frame f;
        ref::Col x;
        x.name = "x";
        x.type = i ? ref::INTEGER : ref::REAL;
        ref::Cell a;
        a.d     = 2.5;
        a.i     = 1;
        x.cells = {a};
        f.cols  = {x};
        f.nrows = 1;
        bytes += gen::encodePlain(f);
    }
    writeFile(c.tmp + "/in.odb", bytes);
    tools::odc({"sql", "-i", "in.odb", "-f", "odb", "-o", "out.odb", "select max(x);"}, c.tmp);
    auto v = ref::decodeAll(readFile(c.tmp + "/out.odb"));
    return v.size() != 1 || !v[0].cols[0].isReal() || v[0].cols[0].cells[0].d != 2.5;
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C17";
    s.rule =
        "the sources and queries of C16, with each column of the result named, stored through odc sql (-f odb, into), "
        "filter() on memory and files, Frame::filter and Select with a Writer, decoded by the reference decoder and "
        "compared with a reference evaluation; select * against the source; results dispatched to files by key; "
        "non-trivial: some but not all rows selected or several frames, or several files";
    s.subs.push_back({"query", query_, 2500, 100000});
    s.subs.push_back({"frame", frame, 800, 40000});
    s.subs.push_back({"identity", identity, 1000, 40000});
    s.subs.push_back({"dispatched", dispatched, 600, 20000});
    s.findings.push_back({"KF1", aggregateType});
    return vf::main(argc, argv, s);
}
