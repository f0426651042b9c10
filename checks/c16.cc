// C16: queries return exactly the rows and values the data imply
#include "capi.h"
#include "sql.h"
#include "tools.h"

#include <algorithm>

#include "eckit/io/MemoryHandle.h"
#include "odc/Select.h"
#include "odc/core/Column.h"
#include "odc/core/MetaData.h"

using namespace vf;

namespace {

struct Got {
    std::vector<std::string> titles;
    std::vector<int> types;
    std::vector<std::string> bits;
    std::vector<sql::Val> v;
};

std::string bitsText(const ref::Col& c) {
    std::string s;
    for (auto& b : c.bits)
        s += b.name + ":" + std::to_string(b.size) + ";";
    return s;
}

std::vector<Got> collect(odc::Select& sel) {
    std::vector<Got> out;
    Got cur;
    odc::Select::iterator it = sel.begin(), end = sel.end();
    for (; it != end; ++it) {
        auto& md = it->columns();
        if (out.empty() || it->isNewDataset()) {
            cur = Got();
            for (auto* c : md) {
                cur.titles.push_back(c->name());
                cur.types.push_back(int(c->type()));
                ref::Col rc;
                for (size_t k = 0; k < c->bitfieldDef().first.size(); k++)
                    rc.bits.push_back(ref::Bit{c->bitfieldDef().first[k], int(c->bitfieldDef().second[k])});
                cur.bits.push_back(bitsText(rc));
            }
        }
        cur.v.clear();
        for (size_t k = 0; k < md.size(); k++) {
            sql::Val v;
            if (md[k]->type() == odc::api::STRING) {
                v.str = true;
                v.s   = it->string(int(k));
            }
            else {
                v.d    = it->data(k);
                v.null = v.d == md[k]->missingValue();
                if (it->isMissing(k) && !v.null)
                    throw Failure{"isMissing() for a value that is not the missing value"};
            }
            cur.v.push_back(v);
        }
        out.push_back(cur);
    }
    return out;
}

std::string rowText(const std::vector<sql::Val>& v) {
    std::string s;
    for (auto& x : v)
        s += (s.empty() ? "" : ", ") + sql::text(x);
    return "(" + s + ")";
}

std::string differs(const sql::Source& s, sql::Query q, std::vector<Got> got) {
    auto lessRow = [](const std::vector<sql::Val>& a, const std::vector<sql::Val>& b) {
        for (size_t k = 0; k < a.size() && k < b.size(); k++) {
            if (a[k].null != b[k].null)
                return a[k].null;
            if (a[k].null)
                continue;
            if (a[k].str ? a[k].s != b[k].s : a[k].d != b[k].d)
                return a[k].str ? a[k].s < b[k].s : a[k].d < b[k].d;
        }
        return false;
    };
    if (q.grouped) {  // in any order; the groups' keys are not the aggregates, so compare after sorting
        // values that happen to be the missing value of the result column
        for (auto& r : q.rows)
            for (auto& v : r.v)
                v.null = v.null || (!v.str && std::fabs(v.d) == 2147483647);
        for (auto& r : got)
            for (auto& v : r.v)
                v.null = v.null || (!v.str && std::fabs(v.d) == 2147483647);
        std::stable_sort(q.rows.begin(), q.rows.end(), [&](const sql::Row& a, const sql::Row& b) { return lessRow(a.v, b.v); });
        std::stable_sort(got.begin(), got.end(), [&](const Got& a, const Got& b) { return lessRow(a.v, b.v); });
    }
    for (size_t r = 0; r < std::min(q.rows.size(), got.size()); r++) {
        auto &w = q.rows[r];
        auto &x = got[r];
        if (x.v.size() != w.v.size())
            return std::to_string(x.v.size()) + " columns instead of " + std::to_string(w.v.size());
        for (size_t k = 0; k < w.v.size(); k++) {
            std::string at = "row " + std::to_string(r) + ", column " + std::to_string(k);
            if (!q.out[k].title.empty() && x.titles[k] != q.out[k].title)
                return at + ": named " + x.titles[k] + " instead of " + q.out[k].title;
            // a value that happens to be the missing value of the result column
            bool coincides = !w.v[k].null && !w.v[k].str && x.v[k].null && std::fabs(w.v[k].d) == 2147483647;
            if (!coincides && !sql::same(w.v[k], x.v[k], q.exact ? 0 : 1e-11))
                return at + ": " + sql::text(x.v[k]) + " instead of " + sql::text(w.v[k]) + "; row " + rowText(x.v) + " instead of " + rowText(w.v);
            int t = q.grouped && !s.sameShape ? -1 : q.type(s, w.frame, k);
            if (t != -1 && x.types[k] != t)
                return at + ": type " + ref::typeName(x.types[k]) + " instead of " + ref::typeName(t);
            if (t == ref::BITFIELD && x.bits[k] != bitsText(*q.bits(s, w.frame, k)))
                return at + ": members " + x.bits[k] + " instead of " + bitsText(*q.bits(s, w.frame, k));
        }
    }
    if (q.rows.size() != got.size())
        return std::to_string(got.size()) + " rows instead of " + std::to_string(q.rows.size()) +
               (got.size() > q.rows.size() ? ", the first too many " + rowText(got[q.rows.size()].v) : ", the first missing " + rowText(q.rows[got.size()].v));
    return "";
}

void describe(Ctx& c, const sql::Source& s) {
    for (auto& f : s.frames)
        c.note(gen::describe(f, 20));
}

sql::Source source(Ctx& c) {
    sql::SourceOpts o;
    o.dupShort = c.g.chance(1, 4);
    o.maxRows  = c.g.chance(1, 10) ? 60 : 8;
    if (c.g.chance(1, 4))
        o.narrowStrings = true;
    return sql::genSource(c.g, o);
}

sql::Query query(Ctx& c, const sql::Source& s) {
    sql::QueryOpts o;
    sql::Query q = sql::genQuery(c.g, s, o);
    if (q.distinct) {
        // DISTINCT compares the padding of strings too (eckit): see KF1
        bool widths = false;
        for (auto& x : q.out)
            if (!x.col.empty() && s.cols().size())
                for (auto& f : s.frames)
                    widths = widths || f.find(x.col)->width != s.frames[0].find(x.col)->width;
        if (widths)
            c.discard();
    }
    c.labelIf(q.distinct, "distinct");
    c.labelIf(q.ordered, "order by");
    c.labelIf(q.grouped, "aggregates");
    c.labelIf(q.where.find("rownumber") != std::string::npos, "row limit");
    c.labelIf(q.select.find('.') != std::string::npos, "members");
    c.labelIf(!s.sameShape, "changing types, widths or members");
    c.labelIf(s.frames.size() > 1, "several frames");
    size_t n = s.rows();
    c.labelIf(q.rows.size() && q.rows.size() < n, "some rows");
    c.nontrivial = !q.rows.empty() && (q.rows.size() < n || s.frames.size() > 1);
    return q;
}

void queries(Ctx& c) {
    sql::Source s = source(c);
    describe(c, s);
    c.artifact("in.odb", s.bytes);
    writeFile(c.tmp + "/in.odb", s.bytes);
    // several queries in one process, as their engine keeps state
    std::vector<sql::Query> q;
    size_t n = size_t(c.g.range(1, 3));
    for (size_t i = 0; i < n; i++)
        q.push_back(query(c, s));
    // and perhaps one on other data with columns and members of the same names
    sql::Source s2 = s;
    sql::Query q2;
    bool second = c.g.chance(1, 4);
    if (second) {
        for (auto& f : s2.frames) {
            for (auto& col : f.cols) {
                std::vector<ref::Bit> b(col.bits.rbegin(), col.bits.rend());
                col.bits = b;
            }
        }
        std::string bytes;
        for (auto& f : s2.frames)
            bytes += gen::encodeAny(c.g, f);
        s2.bytes  = bytes;
        s2.frames = ref::decodeAll(bytes);
        q2        = query(c, s2);
        c.label("two sources");
    }
    int how = int(c.g.range(0, 1));
    c.label(how ? "Select(handle)" : "Select(path)");
    for (auto& x : q)
        c.note((how ? "handle: " : "path: ") + x.text());
    if (second)
        c.note("second source, bitfields reversed: " + q2.text());
    auto run = [&](const sql::Source& src, const sql::Query& x, const std::string& file) {
        std::vector<Got> got;
        if (how == 0) {
            odc::Select sel(x.text(), eckit::PathName(file));
            got = collect(sel);
        }
        else {
            eckit::MemoryHandle h(src.bytes.data(), src.bytes.size());
            h.openForRead();
            odc::Select sel(x.text(), h);
            got = collect(sel);
        }
        std::string d = differs(src, x, got);
        if (!d.empty())
            throw Failure{x.text() + ": " + d};
    };
    if (second)
        writeFile(c.tmp + "/in2.odb", s2.bytes), c.artifact("in2.odb", s2.bytes);
    tools::lib(c.tmp, [&] {
        for (auto& x : q)
            run(s, x, c.tmp + "/in.odb");
        if (second) {
            run(s2, q2, c.tmp + "/in2.odb");
            run(s, q[0], c.tmp + "/in.odb");
        }
        return std::string();
    });
}

// what the sql tool prints
void printed(Ctx& c) {
    sql::Source s = source(c);
    describe(c, s);
    c.artifact("in.odb", s.bytes);
    writeFile(c.tmp + "/in.odb", s.bytes);
    sql::Query q = query(c, s);
    if (q.grouped)
        c.discard();
    bool from = c.g.chance(1, 3);
    std::vector<std::string> a{"sql"};
    if (!from) {
        a.push_back("-i");
        a.push_back("in.odb");
    }
    a.push_back("-delimiter");
    a.push_back("|");
    bool full = c.g.chance(2, 3), noTitles = c.g.chance(1, 3), align = c.g.chance(1, 2), file = c.g.chance(1, 6);
    if (full)
        a.push_back("--full_precision");
    if (noTitles)
        a.push_back("-T");
    if (!align)
        a.push_back("--no_alignment");
    if (file) {
        writeFile(c.tmp + "/q.sql", q.text(from ? "in.odb" : ""));
        a.push_back("q.sql");
    }
    else
        a.push_back(q.text(from ? "in.odb" : ""));
    c.note(tools::text(a));
    c.label("odc sql");
    RunResult r = tools::odc(a, c.tmp);
    VF_CHECK(c, r.status == 0, "odc sql fails: " << r.err.substr(0, 600));
    std::vector<std::string> l;
    for (auto& x : tools::lines(r.out))
        if (x.compare(0, 9, "SIMPLIFY ") != 0 && x.compare(0, 9, "SYMPLIFY ") != 0)  // (the engine's chatter)
            l.push_back(x);
    size_t at = 0;
    auto split = [](const std::string& x) {
        std::vector<std::string> v;
        std::string t;
        for (char ch : x + "|")
            if (ch == '|') {
                size_t a = t.find_first_not_of(" \t"), b = t.find_last_not_of(" \t");
                v.push_back(a == std::string::npos ? "" : t.substr(a, b - a + 1));
                t.clear();
            }
            else
                t += ch;
        return v;
    };
    if (!noTitles) {
        VF_CHECK(c, !l.empty(), "no header line");
        auto h = split(l[0]);
        VF_CHECK(c, h.size() == q.out.size(), "header " << quote(l[0]) << " does not have " << q.out.size() << " columns");
        for (size_t k = 0; k < h.size(); k++)
            VF_CHECK(c, q.out[k].title.empty() || h[k] == q.out[k].title, "column " << k << " headed " << h[k] << " instead of " << q.out[k].title);
        at = 1;
    }
    VF_CHECK(c, l.size() - at == q.rows.size(), l.size() - at << " lines instead of " << q.rows.size() << "\n" << r.out.substr(0, 1500));
    for (size_t i = 0; i < q.rows.size(); i++) {
        auto v = split(l[at + i]);
        VF_CHECK(c, v.size() == q.out.size(), "line " << quote(l[at + i]) << " does not have " << q.out.size() << " columns");
        for (size_t k = 0; k < v.size(); k++) {
            auto& w = q.rows[i].v[k];
            bool ok;
            if (w.null || (!w.str && v[k] == "NULL" && std::fabs(w.d) == 2147483647))
                ok = v[k] == "NULL";
            else if (w.str)
                ok = v[k] == "'" + w.s + "'";
            else {
                char* e;
                double d = strtod(v[k].c_str(), &e);
                ok       = *e == 0 && !v[k].empty();
                int t    = q.type(s, q.rows[i].frame, k);
                if (t == ref::INTEGER || t == ref::BITFIELD)
                    ok = ok && v[k].find('.') == std::string::npos && d == w.d;
                else if (full)
                    ok = ok && std::fabs(d - w.d) <= 1e-17 + 1e-15 * std::fabs(w.d);
                else
                    ok = ok && std::fabs(d - w.d) <= 6e-7 + 1e-6 * std::fabs(w.d);
            }
            VF_CHECK(c, ok, "row " << i << ", column " << k << ": " << v[k] << " instead of " << sql::text(w) << "\n" << r.out.substr(0, 1500));
        }
    }
}

// queries the data cannot answer
void refused(Ctx& c) {
    sql::SourceOpts o;
    o.dupShort    = true;
    sql::Source s = sql::genSource(c.g, o);
    std::string q, what;
    auto pickAny = [&](std::vector<ref::Col> v) { return v[c.g.index(v.size())]; };
    switch (c.g.index(5)) {
        case 0:
            q    = "select nosuch" + std::string(c.g.chance(1, 2) ? "@t" : "");
            what = "unknown column";
            break;
        case 1:
            q    = "select * where nosuch = 1";
            what = "unknown column in the condition";
            break;
        case 2: {
            std::vector<ref::Col> v;
            for (auto& x : s.cols())
                for (auto& y : s.cols())
                    if (&x != &y && gen::shortName(x.name) == gen::shortName(y.name) && x.name.find('@') != std::string::npos &&
                        y.name.find('@') != std::string::npos)
                        v.push_back(x);
            if (v.empty())
                c.discard();
            std::string n = gen::shortName(pickAny(v).name);
            for (auto& x : s.cols())
                if (x.name == n)
                    c.discard();
            q    = "select " + n;
            what = "ambiguous short name";
            break;
        }
        case 3: {
            // a column that is not in the last frame
            ref::Frame f = s.frames[0];
            if (f.cols.size() < 2)
                c.discard();
            size_t k      = c.g.index(f.cols.size());
            std::string n = f.cols[k].name;
            for (auto& x : f.cols)
                if (x.name != n && gen::shortName(x.name) == gen::shortName(n))
                    c.discard();
            f.cols.erase(f.cols.begin() + long(k));
            s.bytes += gen::encodeAny(c.g, f);
            q    = "select " + n;
            what = "column missing from a later frame";
            break;
        }
        default: {
            ref::Frame f = s.frames[0];
            size_t k     = c.g.index(f.cols.size());
            ref::Col& x  = f.cols[k];
            gen::Opts go;
            go.sqlSafe = true;
            go.special = false;
            x.type     = x.type == ref::STRING ? ref::INTEGER : ref::STRING;
            x.bits.clear();
            gen::fill(c.g, x, f.nrows, go);
            s.bytes += gen::encodeAny(c.g, f);
            q    = "select " + x.name;
            what = "column changing between string and number";
        }
    }
    c.note(q + "   (" + what + ")");
    describe(c, s);
    c.label(what);
    c.artifact("in.odb", s.bytes);
    writeFile(c.tmp + "/in.odb", s.bytes);
    std::string err;
    std::string n = tools::lib(
        c.tmp,
        [&] {
            odc::Select sel(q, eckit::PathName(c.tmp + "/in.odb"));
            return std::to_string(collect(sel).size());
        },
        &err);
    VF_CHECK(c, !err.empty(), "a query with " << what << " gives " << n << " rows");
    c.nontrivial = true;
}

// KF1: DISTINCT repeats strings from frames with other string widths
bool distinctPadding(Ctx& c) {
    std::string bytes;
    for (int i = 0; i < 2; i++) {
        ref::Frame f;
        ref::Col x;
        x.name  = "s";
        x.type  = ref::STRING;
        x.width = i ? 16 : 8;
        ref::Cell a, b;
        a.s = "aa";
        b.s = i ? "bbbbbbbbbbbbbbb" : "bb";
        x.cells = {a, b};
        f.cols  = {x};
        f.nrows = 2;
        bytes += gen::encodePlain(f);
    }
    std::string n = tools::lib(c.tmp, [&] {
        eckit::MemoryHandle h(bytes.data(), bytes.size());
        h.openForRead();
        odc::Select sel("select distinct s;", h);
        return std::to_string(collect(sel).size());
    });
    return n != "3";
}

// KF2: a missing cell in the first operand of "or" hides the second
bool orMissing(Ctx& c) {
    ref::Frame f;
    ref::Col x, y;
    x.name = "x";
    x.type = ref::INTEGER;
    y      = x;
    y.name = "y";
    ref::Cell a, b;
    a.missing = true;
    b.i       = 1;
    b.d       = 1;
    x.cells   = {b, a};
    y.cells   = {b, b};
    f.cols    = {x, y};
    f.nrows   = 2;
    std::string bytes = gen::encodePlain(f);
    std::string n     = tools::lib(c.tmp, [&] {
        eckit::MemoryHandle h(bytes.data(), bytes.size());
        h.openForRead();
        odc::Select sel("select y where (x = 0 or y = 1);", h);
        return std::to_string(collect(sel).size());
    });
    return n != "2";
}

// KF3: DISTINCT takes a missing member for the value it has in the missing value
bool distinctMissingMember(Ctx& c) {
    ref::Frame f;
    ref::Col x;
    x.name = "x";
    x.type = ref::BITFIELD;
    x.bits = {ref::Bit{"p", 1}};
    ref::Cell a, b;
    a.missing = true;
    b.i       = 1;
    x.cells   = {b, a};
    f.cols    = {x};
    f.nrows   = 2;
    ref::Frame e = f;
    e.cols[0].cells[0].i = 0;
    std::string bytes = gen::encodePlain(f) + gen::encodePlain(e);
    std::string n     = tools::lib(c.tmp, [&] {
        eckit::MemoryHandle h(bytes.data(), bytes.size());
        h.openForRead();
        odc::Select sel("select distinct x.p;", h);
        return std::to_string(collect(sel).size());
    });
    return n != "3";
}

// KF6: missing cells of frames that declare different missing values are different to DISTINCT
bool distinctMissingValues(Ctx& c) {
    std::string bytes;
    for (double missing : {-1., 5.}) {
        ref::Frame f;
        ref::Col x;
        x.name    = "x";
        x.type    = ref::INTEGER;
        x.missing = missing;
        ref::Cell a, b;
        a.missing = true;
        b.i       = 1;
        x.cells   = {b, a};
        f.cols    = {x};
        f.nrows   = 2;
        bytes += gen::encodePlain(f);
    }
    std::string n = tools::lib(c.tmp, [&] {
        eckit::MemoryHandle h(bytes.data(), bytes.size());
        h.openForRead();
        odc::Select sel("select distinct x;", h);
        return std::to_string(collect(sel).size());
    });
    return n != "2";
}

// KF4: ORDER BY a bitfield member goes by the members of the first frame
bool orderMember(Ctx& c) {
    std::string bytes;
    for (int i = 0; i < 2; i++) {
        ref::Frame f;
        ref::Col x;
        x.name = "x";
        x.type = ref::BITFIELD;
        x.bits = i ? std::vector<ref::Bit>{ref::Bit{"q", 2}, ref::Bit{"p", 2}} : std::vector<ref::Bit>{ref::Bit{"p", 2}, ref::Bit{"q", 2}};
        ref::Cell a;
        a.i     = i ? 3 : 2;  // p: 2, 0
        x.cells = {a};
        f.cols  = {x};
        f.nrows = 1;
        bytes += gen::encodePlain(f);
    }
    std::string n = tools::lib(c.tmp, [&] {
        eckit::MemoryHandle h(bytes.data(), bytes.size());
        h.openForRead();
        odc::Select sel("select x order by x.p;", h);
        return sql::text(collect(sel)[0].v[0]);
    });
    return n != "3";
}

// KF5: strings are not ordered alphabetically by < <= > >=
bool stringOrder(Ctx& c) {
    ref::Frame f;
    ref::Col x;
    x.name  = "x";
    x.type  = ref::STRING;
    x.width = 8;
    ref::Cell a, b;
    a.s     = "ab";
    b.s     = "ba";
    x.cells = {a, b};
    f.cols  = {x};
    f.nrows = 2;
    std::string bytes = gen::encodePlain(f);
    std::string n     = tools::lib(c.tmp, [&] {
        eckit::MemoryHandle h(bytes.data(), bytes.size());
        h.openForRead();
        odc::Select sel("select x where x < 'b';", h);
        return std::to_string(collect(sel).size());
    });
    return n != "1";
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C16";
    s.rule =
        "streams of 1-4 frames in any codec and byte order whose columns are reordered, added to, and change numeric type, "
        "string width, missing value and bitfield members, and 1-4 random queries per process (short and full names, "
        "members, expressions, aliases, conditions with and/or/not/in/between/null, order by, distinct, aggregates, "
        "row limits), through odc::Select and odc sql, against a reference evaluation on the decoded cells; "
        "and queries the data cannot answer; non-trivial: some but not all rows selected or several frames";
    s.subs.push_back({"select", queries, 4000, 200000});
    s.subs.push_back({"printed", printed, 1500, 50000});
    s.subs.push_back({"refused", refused, 500, 10000});
    s.findings.push_back({"KF1", distinctPadding});
    s.findings.push_back({"KF2", orMissing});
    s.findings.push_back({"KF3", distinctMissingMember});
    s.findings.push_back({"KF4", orderMember});
    s.findings.push_back({"KF5", stringOrder});
    s.findings.push_back({"KF6", distinctMissingValues});
    return vf::main(argc, argv, s);
}
