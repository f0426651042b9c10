// C12: spans describe exactly the distinct values of a frame
#include "capi.h"

#include <set>

#include "eckit/io/MemoryHandle.h"
#include "odc/api/Odb.h"

using namespace vf;

namespace {

struct Values {
    std::set<long> ints;
    std::set<double> reals;
    std::set<std::string> strings;
    int kind = 0;  // 1, 2, 3
    bool operator==(const Values& o) const {
        return kind == o.kind && ints == o.ints && reals == o.reals && strings == o.strings;
    }
    size_t size() const { return ints.size() + reals.size() + strings.size(); }
    std::string text() const {
        std::ostringstream s;
        s.precision(17);
        s << (kind == 1 ? "integers" : kind == 2 ? "reals" : kind == 3 ? "strings" : "nothing") << " {";
        for (auto& x : ints)
            s << x << " ";
        for (auto& x : reals)
            s << x << " ";
        for (auto& x : strings)
            s << quote(x) << " ";
        return s.str() + "}";
    }
};

using Sets = std::map<std::string, Values>;

struct Visitor : odc::api::SpanVisitor {
    Sets sets;
    void operator()(const std::string& n, const std::set<long>& v) override {
        sets[n].kind = 1;
        sets[n].ints.insert(v.begin(), v.end());
    }
    void operator()(const std::string& n, const std::set<double>& v) override {
        sets[n].kind = 2;
        sets[n].reals.insert(v.begin(), v.end());
    }
    void operator()(const std::string& n, const std::set<std::string>& v) override {
        sets[n].kind = 3;
        sets[n].strings.insert(v.begin(), v.end());
    }
};

// the distinct values of the decoded data
Values decoded(const odc::api::Frame& f, const ref::Col& col, size_t nrows) {
    std::string mem(col.width * (nrows + 1), '\x5a');
    std::vector<odc::api::StridedData> sd{odc::api::StridedData(&mem[0], nrows, col.width, col.width)};
    odc::api::Decoder dec({col.name}, sd);
    dec.decode(f, 1);
    Values v;
    v.kind = col.isInt() ? 1 : col.isReal() ? 2 : 3;
    for (size_t r = 0; r < nrows; r++) {
        const char* p = &mem[r * col.width];
        double d;
        int64_t i;
        memcpy(&d, p, 8);
        memcpy(&i, p, 8);
        if (v.kind == 1)
            v.ints.insert(capi::longs() ? i : int64_t(d));
        else if (v.kind == 2)
            v.reals.insert(d);
        else
            v.strings.insert(std::string(p, strnlen(p, col.width)));
    }
    return v;
}

// the values of the reference table: contained in, and as many as, the decoded ones
void agree(Ctx& c, const std::vector<ref::Frame>& part, const ref::Col& col, const Values& v) {
    Values w;
    bool missing = false;
    for (auto& f : part)
        for (auto& x : f.find(col.name)->cells) {
            if (col.type == ref::STRING)
                w.strings.insert(x.s);
            else if (x.missing)
                missing = true;
            else if (col.isInt())
                w.ints.insert(long(x.i));
            else
                w.reals.insert(col.type == ref::REAL ? double(ref::f32(x.d)) : x.d);
        }
    Values r = v;
    if (col.type == ref::REAL) {
        r.reals.clear();  // REAL values are exact to single precision only
        for (double d : v.reals)
            r.reals.insert(double(ref::f32(d)));
    }
    auto includes = [](auto& a, auto& b) { return std::includes(a.begin(), a.end(), b.begin(), b.end()); };
    VF_CHECK(c, includes(v.ints, w.ints) && includes(r.reals, w.reals) && includes(v.strings, w.strings),
             col.name << ": the span " << v.text() << " lacks values of the table " << w.text());
    // constituents may declare different missing values
    VF_CHECK(c, r.size() <= w.size() + (missing ? part.size() : 0),
             col.name << ": the span " << v.text() << " has more values than the table " << w.text());
}

size_t distinct(const ref::Frame& f, const ref::Col& col) {
    std::set<std::string> s;
    for (auto& x : f.find(col.name)->cells) {
        if (x.missing && col.type != ref::STRING)
            s.insert("missing");
        else if (col.type == ref::STRING)
            s.insert(x.s);
        else if (col.isInt())
            s.insert(std::to_string(x.i));
        else {
            std::ostringstream o;
            o.precision(17);
            double d = col.type == ref::REAL ? double(ref::f32(x.d)) : x.d;
            o << (d == 0 ? 0.0 : d);
            s.insert(o.str());
        }
    }
    return s.size();
}

// makes a column constant
void flatten(Src& g, ref::Col& col) {
    if (col.cells.empty())
        return;
    auto x = col.cells[g.index(col.cells.size())];
    for (auto& y : col.cells)
        y = x;
}

void spans(Ctx& c, const gen::Opts& o, bool library) {
    capi::setLongs(c.g.chance(1, 2));
    std::vector<ref::Frame> in;
    std::string bytes;
    std::vector<std::pair<size_t, size_t>> where;
    size_t n = size_t(c.g.range(1, 5));
    for (size_t i = 0; i < n; i++) {
        ref::Frame f = i == 0 || c.g.chance(1, 8) ? gen::genTable(c.g, o) : gen::genLike(c.g, in.back(), o);
        // few distinct values, or values that the frame before also has
        for (auto& col : f.cols) {
            if (c.g.chance(1, 2))
                flatten(c.g, col);
            else if (i > 0 && c.g.chance(1, 2)) {
                const ref::Col* p = in.back().find(col.name);
                if (p && p->type == col.type && !p->cells.empty() && p->width == col.width)
                    for (auto& x : col.cells)
                        x = p->cells[c.g.index(p->cells.size())];
            }
        }
        if (library) {
            // at most the declared width, and what the encoder takes as missing
            std::string b = capi::encode(f, capi::genLayout(c.g, f));
            std::vector<ref::Frame> v = ref::decodeAll(b);
            for (auto& h : v) {
                where.emplace_back(bytes.size() + h.offset, h.length);
                in.push_back(h);
            }
            bytes += b;
        }
        else {
            std::string b = gen::encodeAny(c.g, f, true);
            where.emplace_back(bytes.size(), b.size());
            bytes += b;
            auto v = ref::decodeAll(b);
            for (size_t k = 0; k < f.cols.size(); k++)
                f.cols[k].width = v.at(0).cols[k].width;
            in.push_back(f);
        }
        c.note(gen::describe(in.back(), 4));
    }
    c.artifact("stream.odb", bytes);
    bool aggregated = c.g.chance(1, 3);
    bool several = false, strings = false, equalSpans = false, constants = false, notConstants = false, wide = false;

    try {
        eckit::MemoryHandle mh(bytes.data(), bytes.size());
        mh.openForRead();
        odc::api::Reader reader(mh, aggregated, -1);
        size_t at = 0;
        std::vector<odc::api::Frame> frames;
        std::vector<Sets> sets;
        std::vector<odc::api::Span> got;
        while (odc::api::Frame f = reader.next()) {
            // its constituents
            std::vector<ref::Frame> part;
            size_t rows = 0, first = at;
            while (rows < f.rowCount()) {
                VF_CHECK(c, at < in.size(), "more rows than the stream has");
                rows += in[at].nrows;
                part.push_back(in[at++]);
            }
            VF_CHECK(c, rows == f.rowCount(), "a frame has " << f.rowCount() << " rows, its constituents " << rows);
            const ref::Frame& h = part.front();

            // some of the columns, by full or short name, any of them repeatedly
            std::vector<std::string> ask;
            std::map<std::string, const ref::Col*> byName;
            size_t k = size_t(c.g.range(0, int64_t(h.cols.size()) + 1));
            for (size_t i = 0; i < k; i++) {
                auto& col        = h.cols[c.g.index(h.cols.size())];
                std::string name = col.name;
                if (c.g.chance(1, 4)) {
                    std::string s = gen::shortName(name);
                    size_t same   = 0;
                    for (auto& x : h.cols)
                        same += gen::shortName(x.name) == s;
                    if (same == 1)
                        name = s;
                }
                ask.push_back(name);
                byName[name] = &col;
            }
            std::string text;
            for (auto& s : ask)
                text += s + " ";
            c.note("frame " + std::to_string(frames.size()) + ": span of " + text);

            odc::api::Span sp = f.span(ask, false);
            VF_CHECK(c, size_t(sp.offset()) == where[first].first, "offset " << sp.offset());
            size_t end = where[at - 1].first + where[at - 1].second;
            VF_CHECK(c, size_t(sp.offset()) + size_t(sp.length()) == end, "length " << sp.length());
            VF_CHECK(c, f.offset() == sp.offset() && f.length() == sp.length(), "the frame lies elsewhere than its span");
            Visitor v;
            sp.visit(v);
            VF_CHECK(c, v.sets.size() == byName.size(), "the span has " << v.sets.size() << " columns");
            bool allConstant = true, allSingle = true, anyMissing = false;
            for (auto& b : byName) {
                auto it = v.sets.find(b.first);
                VF_CHECK(c, it != v.sets.end(), "the span lacks " << b.first);
                Values w = decoded(f, *b.second, rows);
                VF_CHECK(c, it->second == w,
                         "column " << b.first << ": span " << it->second.text() << ", decoded " << w.text());
                agree(c, part, *b.second, w);
                if (w.kind == 1)
                    VF_CHECK(c, sp.getIntegerValues(b.first) == w.ints, "getIntegerValues " << b.first);
                else if (w.kind == 2)
                    VF_CHECK(c, sp.getRealValues(b.first) == w.reals, "getRealValues " << b.first);
                else
                    VF_CHECK(c, sp.getStringValues(b.first) == w.strings, "getStringValues " << b.first);
                several = several || w.size() > 1;
                strings = strings || w.kind == 3;
                for (auto& p : part) {
                    const ref::Col& pc = *p.find(b.second->name);
                    wide               = wide || (pc.type == ref::STRING && pc.width > 8);
                    bool single        = distinct(p, *b.second) <= 1;
                    bool constant = pc.codec == "constant" || pc.codec == "constant_string" ||
                                    pc.codec == "long_constant_string";
                    for (auto& x : p.find(b.second->name)->cells)
                        anyMissing = anyMissing || x.missing || b.second->type == ref::STRING;
                    allSingle = allSingle && single;
                    allConstant = allConstant && constant;
                }
            }
            bool good = true;
            try {
                odc::api::Span cs = f.span(ask, true);
                VF_CHECK(c, cs == sp && sp == cs, "the span of the constants differs");
                VF_CHECK(c, cs.offset() == sp.offset() && cs.length() == sp.length(), "the span of the constants lies elsewhere");
            }
            catch (std::exception& e) {
                good = false;
                VF_CHECK(c, !allConstant, "constants only: " << e.what());
                VF_CHECK(c, !(library && allSingle && !anyMissing), "constants only, though each column has a single value: " << e.what());
            }
            VF_CHECK(c, !good || allSingle, "a column with several values passed for constant");
            (good ? constants : notConstants) = true;

            // unknown columns
            bool refused = false;
            try {
                std::vector<std::string> bad = ask;
                bad.push_back("no such column");
                f.span(bad, c.g.chance(1, 2));
            }
            catch (std::exception& e) {
                refused = true;
            }
            VF_CHECK(c, refused, "a span over an unknown column");

            for (size_t i = 0; i < got.size(); i++) {
                bool eq = got[i] == sp;
                VF_CHECK(c, eq == (sets[i] == v.sets), "spans " << i << " and " << got.size() << " compare " << eq);
                equalSpans = equalSpans || eq;
            }
            sets.push_back(v.sets);
            got.push_back(std::move(sp));
            frames.push_back(f);
        }
        VF_CHECK(c, at == in.size(), "frames are lost");
        for (size_t i = 1; i < got.size(); i++)
            VF_CHECK(c, size_t(got[i - 1].offset()) + size_t(got[i - 1].length()) == size_t(got[i].offset()),
                     "spans of neighbouring frames are not adjacent");
        // the frames read afterwards have not changed them
        for (size_t i = 0; i < got.size(); i++) {
            std::vector<std::string> ask;
            for (auto& s : sets[i])
                ask.push_back(s.first);
            odc::api::Span again = frames[i].span(ask, false);
            VF_CHECK(c, again == got[i], "the span of frame " << i << " asked for again");
        }
    }
    catch (std::exception& e) {
        c.fail(std::string("exception: ") + e.what());
    }
    c.labelIf(several, "several values");
    c.labelIf(strings, "strings");
    c.labelIf(wide, "wide strings");
    c.labelIf(equalSpans, "equal spans");
    c.labelIf(constants, "constants only accepted");
    c.labelIf(notConstants, "constants only refused");
    c.labelIf(aggregated && n > 1, "aggregated");
    c.nontrivial = several || strings;
}

}  // namespace

int main(int argc, char** argv) {
    gen::unusedMayBeLonger = true;
    Suite s;
    s.property = "C12";
    s.rule =
        "streams of 1-5 frames, hand-encoded with any legal codec or written by the library, in which columns are often "
        "constant or share values with the frame before; spans over random subsets of columns by full and short name, "
        "compared with the distinct values of the data decoded by the library and of the reference table; non-trivial: a "
        "requested column has several values or holds strings";
    s.init = capi::init;
    gen::Opts o;
    o.maxRows = 15, o.maxCols = 5, o.edgeShape = false;
    gen::Opts big = o;
    big.maxRows = 300, big.maxCols = 2;
    s.subs.push_back({"any encoding", [=](Ctx& c) { spans(c, o, false); }, 12000, 400000});
    s.subs.push_back({"library encoding", [=](Ctx& c) { spans(c, o, true); }, 8000, 300000});
    s.subs.push_back({"many values", [=](Ctx& c) { spans(c, big, c.g.chance(1, 2)); }, 1000, 40000});
    gen::Opts wide = o;
    wide.wide = true, wide.maxCols = 4, wide.minRows = 2, wide.maxRows = 8, wide.edgeShape = false;
    s.subs.push_back({"wide frames", [=](Ctx& c) { spans(c, wide, c.g.chance(1, 2)); }, 150, 5000});
    s.assumptions = {"constants only: columns of foreign streams that hold one value but are not stored as constants may be refused, as may columns that are missing throughout and strings (the library stores wide ones in tables)"};
    return vf::main(argc, argv, s);
}
