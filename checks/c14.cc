// C14: the row writer and row reader preserve every row across flushes
#include "capi.h"
#include "rows.h"

#include "eckit/io/MemoryHandle.h"
#include "odc/Reader.h"
#include "odc/Writer.h"

using namespace vf;

namespace {

bool sameColumns(const ref::Frame& a, const ref::Frame& b) {
    if (a.cols.size() != b.cols.size())
        return false;
    for (size_t k = 0; k < a.cols.size(); k++) {
        auto &x = a.cols[k], &y = b.cols[k];
        if (x.name != y.name || x.type != y.type || x.bits.size() != y.bits.size())
            return false;
        for (size_t i = 0; i < x.bits.size(); i++)
            if (x.bits[i].name != y.bits[i].name || x.bits[i].size != y.bits[i].size)
                return false;
    }
    return true;
}

// The rows a file must hold: runs of rows with the same columns
struct Rows {
    std::vector<ref::Frame> seg;
    void add(ref::Frame f) {
        if (f.nrows == 0)
            return;
        // missing cells hold the missing value declared when they were written
        for (auto& col : f.cols)
            if (col.type != ref::STRING)
                for (auto& x : col.cells)
                    if (x.missing) {
                        x.i = int64_t(col.missing);
                        x.d = col.missing;
                        if (col.type == ref::BITFIELD)
                            x.missing = false;
                    }
        if (!seg.empty() && sameColumns(seg.back(), f)) {
            auto& s = seg.back();
            for (size_t k = 0; k < f.cols.size(); k++)
                s.cols[k].cells.insert(s.cols[k].cells.end(), f.cols[k].cells.begin(), f.cols[k].cells.end());
            s.nrows += f.nrows;
        }
        else
            seg.push_back(f);
    }
    // as the frame API delivers them: it does not tell which missing value a column declares
    Rows delivered() const {
        Rows r = *this;
        for (auto& f : r.seg)
            for (auto& col : f.cols)
                if (col.type != ref::STRING && col.type != ref::BITFIELD)
                    for (auto& x : col.cells)
                        x.missing = (col.isInt() ? double(x.i) : x.d) == ref::defaultMissing(col.type);
        return r;
    }
    size_t count() const {
        size_t n = 0;
        for (auto& s : seg)
            n += s.nrows;
        return n;
    }
    // frames read back, in order
    std::string check(const std::vector<ref::Frame>& got) const {
        size_t i = 0, at = 0, no = 0;
        for (auto& g : got) {
            if (g.nrows == 0)
                continue;
            if (i == seg.size())
                return "more rows than were written";
            if (at + g.nrows > seg[i].nrows)
                return "frame " + std::to_string(no) + " has more rows than were written with its columns";
            std::string d = gen::diff(gen::rows(seg[i], at, g.nrows), g);
            if (!d.empty())
                return "frame " + std::to_string(no) + " (rows from " + std::to_string(at) + "): " + d;
            at += g.nrows;
            if (at == seg[i].nrows)
                i++, at = 0;
            no++;
        }
        if (i < seg.size())
            return "rows are lost: " + std::to_string(i) + " of " + std::to_string(seg.size()) + " runs of rows came back";
        return "";
    }
};

void verify(Ctx& c, const std::string& path, const Rows& want, size_t largest) {
    std::string bytes = readFile(path);
    c.artifact("written.odb", bytes);
    std::vector<ref::Frame> v;
    try {
        v = ref::decodeAll(bytes);
    }
    catch (ref::FormatError& e) {
        c.fail(std::string("what was written is not valid ODB-2: ") + e.what());
    }
    std::string d = want.check(v);
    VF_CHECK(c, d.empty(), "reference decoder: " << d);
    if (largest)
        for (auto& f : v)
            VF_CHECK(c, f.nrows <= largest, "a frame of " << f.nrows << " rows, the buffer holds " << largest);
    d = want.check(rows::readPath(path));
    VF_CHECK(c, d.empty(), "row reader: " << d);
    d = want.check(rows::read(bytes));
    VF_CHECK(c, d.empty(), "row reader from memory: " << d);
    capi::setLongs(c.g.chance(1, 2));
    d = want.delivered().check(capi::readAll(bytes));
    VF_CHECK(c, d.empty(), "frame API: " << d);
    capi::setLongs(false);
    c.labelIf(v.size() > 1, "several frames");
}

// other declared missing values than the usual ones
void declare(Src& g, ref::Frame& f) {
    for (auto& col : f.cols) {
        if (col.type != ref::STRING && g.chance(1, 6))
            col.missing = double(g.range(-1, 3));
        else if ((col.type == ref::REAL || col.type == ref::DOUBLE) && g.chance(1, 8))
            col.missing = -1e10;
    }
}
void settle(ref::Frame& r) {
    for (auto& col : r.cols)
        for (auto& x : col.cells)
            if (col.type != ref::STRING && !x.missing && (col.isInt() ? double(x.i) : x.d) == col.missing) {
                x         = ref::Cell();
                x.missing = true;
            }
}

// a writing session: steps and the rows they write
std::vector<rows::Step> session(Ctx& c, const gen::Opts& o, Rows& want, ref::Frame& last, std::string& text) {
    std::vector<rows::Step> steps;
    size_t headers = size_t(c.g.range(1, 3));
    for (size_t h = 0; h < headers; h++) {
        ref::Frame f;
        if (!last.cols.empty() && c.g.chance(1, 3)) {
            f = last;  // the same columns again
            if (c.g.chance(1, 2)) {  // narrower or wider strings
                for (auto& col : f.cols)
                    if (col.type == ref::STRING && c.g.chance(1, 2))
                        col.width = 8 * size_t(c.g.range(1, o.maxWidth));
            }
        }
        else
            f.cols = gen::genSchema(c.g, o);
        declare(c.g, f);
        for (auto& col : f.cols)
            col.cells.clear();
        f.nrows = 0;
        steps.push_back({rows::Step::HEADER, f, {}});
        text += " header(" + gen::schemaText(f) + ")";
        size_t ops = size_t(c.g.range(0, 5));
        bool buffered = false;
        for (size_t i = 0; i < ops; i++) {
            switch (c.g.weighted({5, 2, 2})) {
                case 0: {
                    ref::Frame r = gen::genLike(c.g, f, o);
                    // runs of rows that repeat, entirely or but for the last columns
                    if (c.g.chance(1, 3))
                        for (size_t q = 1; q < r.nrows; q++)
                            for (size_t k = 0; k < r.cols.size(); k++)
                                if (c.g.chance(3, 4))
                                    r.cols[k].cells[q] = r.cols[k].cells[q - 1];
                    // first rows of missing values
                    if (c.g.chance(1, 3))
                        for (auto& col : r.cols)
                            if (col.type != ref::STRING && c.g.chance(3, 4)) {
                                col.cells[0]         = ref::Cell();
                                col.cells[0].missing = true;
                            }
                    settle(r);
                    want.add(r);
                    steps.push_back({rows::Step::ROWS, r, {}});
                    text += " rows(" + std::to_string(r.nrows) + ")";
                    buffered = true;
                    break;
                }
                case 1:
                    steps.push_back({rows::Step::FLUSH, {}, {}});
                    text += " flush";
                    buffered = false;
                    break;
                default: {
                    std::map<std::string, size_t> w;
                    for (auto& col : f.cols)
                        if (col.type == ref::STRING && c.g.chance(1, 2)) {
                            col.width += 8 * size_t(c.g.range(0, 4));
                            w[col.name] = col.width / 8;
                        }
                    if (!w.empty()) {
                        steps.push_back({rows::Step::WIDEN, f, w});
                        text += " widen(" + std::to_string(w.size()) + ")";
                        c.label("widened");
                        buffered = false;
                    }
                }
            }
        }
        last = f;
        if (buffered && h + 1 < headers) {
            steps.push_back({rows::Step::FLUSH, {}, {}});
            text += " flush";
        }
    }
    return steps;
}

void history(Ctx& c, const gen::Opts& o) {
    std::string path = c.tmp + "/w.odb";
    Rows want;
    ref::Frame last;
    size_t sessions = size_t(c.g.chance(1, 2) ? c.g.range(1, 4) : 1), largest = 0;
    std::string before;
    for (size_t s = 0; s < sessions; s++) {
        size_t buffer = size_t(c.g.chance(1, 6) ? 10000 : c.g.range(1, 20));
        std::string text;
        auto steps = session(c, o, want, last, text);
        c.note((s ? "append, buffer " : "write, buffer ") + std::to_string(buffer) + ":" + text);
        largest = std::max(largest, buffer);
        rows::write(path, steps, buffer, s > 0 || c.g.chance(1, 5));
        std::string now = readFile(path);
        VF_CHECK(c, now.compare(0, before.size(), before) == 0, "appending changed what the file held before");
        before = now;
        if (s + 1 < sessions && c.g.chance(1, 3))
            verify(c, path, want, largest);
    }
    verify(c, path, want, largest);
    c.labelIf(sessions > 1, "appended");
    c.labelIf(want.seg.size() > 1, "columns change");
    c.nontrivial = want.count() > 1;
}

// A stream of any frames copied row by row
void copy(Ctx& c, const gen::Opts& o) {
    capi::setLongs(false);
    size_t n = size_t(c.g.range(1, 5));
    std::string bytes;
    Rows want;
    ref::Frame last;
    for (size_t i = 0; i < n; i++) {
        ref::Frame f = last.cols.empty() || c.g.chance(1, 2) ? gen::genTable(c.g, o) : gen::genLike(c.g, last, o);
        if (i > 0 && c.g.chance(1, 3)) {  // a part of the columns before, or the same in another order
            std::vector<int> order;
            for (size_t k = 0; k < f.cols.size(); k++)
                order.push_back(int(k));
            c.g.shuffle(order);
            ref::Frame p = f;
            p.cols.clear();
            size_t m = size_t(c.g.range(1, int64_t(f.cols.size())));
            for (size_t k = 0; k < m; k++)
                p.cols.push_back(f.cols[size_t(order[k])]);
            f = p;
        }
        if (c.g.chance(1, 2))
            declare(c.g, f);
        settle(f);
        for (auto& col : f.cols)
            if (!col.bits.empty() && c.g.chance(1, 5))  // other members in the column of the same name
                col.bits[c.g.index(col.bits.size())].name += "x";
        bytes += gen::encodeAny(c.g, f);
        want.add(f);
        last = f;
        c.note(gen::describe(f, 3));
    }
    c.artifact("source.odb", bytes);
    std::string path = c.tmp + "/copy.odb";
    size_t buffer    = size_t(c.g.chance(1, 6) ? 10000 : c.g.range(1, 20));
    c.note("copied with row buffer " + std::to_string(buffer));
    bool memory = c.g.chance(1, 3);
    try {
        eckit::MemoryHandle h(bytes.data(), bytes.size());
        odc::Reader rd(h);
        if (memory) {
            eckit::MemoryHandle out;
            {
                odc::Writer<> w(out);
                w.rowsBufferSize(buffer);
                odc::Writer<>::iterator it = w.begin();
                VF_CHECK(c, it->pass1(rd.begin(), rd.end()) == want.count(), "pass1() reports another number of rows");
            }
            writeFile(path, std::string(static_cast<const char*>(out.data()), size_t(out.size())));
        }
        else {
            odc::Writer<> w{eckit::PathName(path)};
            w.rowsBufferSize(buffer);
            odc::Writer<>::iterator it = w.begin();
            VF_CHECK(c, it->pass1(rd.begin(), rd.end()) == want.count(), "pass1() reports another number of rows");
        }
    }
    catch (std::exception& e) {
        c.fail(std::string("exception: ") + e.what());
    }
    verify(c, path, want, buffer);
    c.labelIf(want.seg.size() > 1, "columns change");
    c.nontrivial = want.count() > 1;
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C14";
    s.rule =
        "histories of 1-4 sessions on a file (the later ones appending), each defining columns 1-3 times, writing runs of "
        "rows (repeating ones and missing first ones included), flushing and widening string columns, with any row-buffer "
        "size; and streams of frames whose columns change, copied row by row; read back by the row reader, the frame API "
        "and the reference decoder; non-trivial: more than one row";
    s.init = capi::init;
    gen::Opts o;
    o.maxRows = 25, o.maxCols = 5, o.edgeShape = false, o.nan = false, o.props = false;
    gen::Opts small = o;
    small.maxRows = 4, small.maxCols = 3;
    s.subs.push_back({"history", [=](Ctx& c) { history(c, o); }, 5000, 200000});
    s.subs.push_back({"short history", [=](Ctx& c) { history(c, small); }, 6000, 200000});
    s.subs.push_back({"copy", [=](Ctx& c) { copy(c, o); }, 6000, 200000});
    gen::Opts wide = o;
    wide.wide = true, wide.maxCols = 4, wide.minRows = 2, wide.maxRows = 8, wide.edgeShape = false;
    s.subs.push_back({"wide rows", [=](Ctx& c) { history(c, wide); }, 150, 5000});
    s.subs.push_back({"copy of wide rows", [=](Ctx& c) { copy(c, wide); }, 150, 5000});
    s.assumptions = {"rows still buffered are flushed before columns are redefined",
                     "no string is longer than its column at the time it is written"};
    return vf::main(argc, argv, s);
}
