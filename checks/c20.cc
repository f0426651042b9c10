// C20: compacting and fixing the size of rows keep the data
#include "capi.h"
#include "sql.h"
#include "tools.h"

#include <algorithm>
#include <cmath>
#include <cstdlib>

using namespace vf;

namespace {

std::vector<ref::Frame> decoded(Ctx& c, const std::string& bytes) {
    try {
        return ref::decodeAll(bytes);
    }
    catch (ref::FormatError& e) {
        c.fail("the output is not valid: " + std::string(e.what()));
    }
}

sql::Source source(Ctx& c) {
    sql::SourceOpts o;
    o.maxRows  = c.g.chance(1, 12) ? 300 : 8;
    o.special  = c.g.chance(1, 2);
    o.binary   = c.g.chance(1, 3);
    o.dupShort = c.g.chance(1, 4);
    o.few      = c.g.chance(1, 3);
    o.vary = o.types = o.widths = o.bits = c.g.chance(2, 3);
    return sql::genSource(c.g, o);
}

bool hasNaN(const sql::Source& s) {
    for (auto& f : s.frames)
        for (auto& c : f.cols)
            if (c.isReal())
                for (auto& x : c.cells)
                    if (!x.missing && std::isnan(x.d))
                        return true;
    return false;
}

void check(Ctx& c, const sql::Source& s, const std::vector<ref::Frame>& out) {
    gen::Cmp cmp;
    cmp.bitsByValue = false;
    std::string d   = gen::diffRows(s.frames, out, cmp);
    VF_CHECK(c, d.empty(), d);
}

// the bytes of each row; the codecs of a frame write values of one size
std::vector<size_t> rowSizes(const ref::Frame& f) {
    std::vector<size_t> v, w;
    for (auto& c : f.cols) {
        size_t n = 0;
        if (c.codec == "constant" || c.codec == "constant_string" || c.codec == "long_constant_string")
            n = 0;
        else if (c.codec == "constant_or_missing" || c.codec == "real_constant_or_missing" || c.codec.substr(0, 4) == "int8")
            n = 1;
        else if (c.codec.substr(0, 5) == "int16")
            n = 2;
        else if (c.codec == "int32" || c.codec.substr(0, 10) == "short_real")
            n = 4;
        else if (c.codec == "long_real")
            n = 8;
        else
            n = c.width;
        w.push_back(n);
    }
    for (int m : f.markers) {
        size_t n = 2;
        for (size_t k = size_t(m); k < w.size(); k++)
            n += w[k];
        v.push_back(n);
    }
    return v;
}

void rewrite(Ctx& c, bool fixed) {
    sql::Source s = source(c);
    if (hasNaN(s))  // which compare equal only if this is set
        c.note("odc_NAN_IS_OK=1");
    for (auto& f : s.frames)
        c.note(gen::describe(f, 20));
    c.artifact("in.odb", s.bytes);
    writeFile(c.tmp + "/in.odb", s.bytes);
    if (c.g.chance(1, 4))
        writeFile(c.tmp + "/out.odb", "something else that was there before");
    if (hasNaN(s))
        setenv("odc_NAN_IS_OK", "1", 1);
    else
        unsetenv("odc_NAN_IS_OK");
    std::vector<std::string> a{fixed ? "fixrowsize" : "compact", "in.odb", "out.odb"};
    RunResult r = tools::odc(a, c.tmp);
    VF_CHECK(c, r.status == 0, tools::text(a) << " fails: " << r.err.substr(0, 800));
    std::string bytes = readFile(c.tmp + "/out.odb");
    c.artifact("out.odb", bytes);
    auto out = decoded(c, bytes);
    check(c, s, out);
    VF_CHECK(c, readFile(c.tmp + "/in.odb") == s.bytes, "the input was modified");
    bool repeats = false;
    for (auto& f : s.frames)
        for (auto& x : s.cols())
            if (auto* k = f.find(x.name))
                for (size_t i = 1; i < k->cells.size(); i++)
                    repeats = repeats || ref::cellText(*k, k->cells[i]) == ref::cellText(*k, k->cells[i - 1]);
    if (fixed) {
        for (size_t i = 0; i < out.size(); i++) {
            auto v = rowSizes(out[i]);
            size_t sum = 0;
            for (size_t x : v)
                sum += x;
            VF_CHECK(c, sum == out[i].dataSize, "the rows of frame " << i << " take " << sum << " bytes of " << out[i].dataSize << " (the check's table of codecs is wrong)");
            for (size_t k = 1; k < v.size(); k++)
                VF_CHECK(c, v[k] == v[0], "frame " << i << ": row " << k << " takes " << v[k] << " bytes, row 0 takes " << v[0]);
        }
    }
    else {
        // once more
        a[1] = "out.odb";
        a[2] = "again.odb";
        r    = tools::odc(a, c.tmp);
        VF_CHECK(c, r.status == 0, tools::text(a) << " fails: " << r.err.substr(0, 800));
        std::string again = readFile(c.tmp + "/again.odb");
        c.artifact("again.odb", again);
        if (again != bytes) {
            // the minimum and maximum in the header of a REAL column may be those from before it was rounded
            auto out2 = decoded(c, again);
            VF_CHECK(c, again.size() == bytes.size() && out.size() == out2.size(), "compacting the compacted file gives " << again.size() << " instead of its " << bytes.size() << " bytes");
            for (size_t i = 0; i < out.size(); i++) {
                VF_CHECK(c, out[i].nrows == out2[i].nrows && out[i].markers == out2[i].markers && out[i].dataSize == out2[i].dataSize, "frame " << i << " is changed by compacting the compacted file");
                for (size_t k = 0; k < out[i].cols.size(); k++) {
                    auto &x = out[i].cols[k], &y = out2[i].cols[k];
                    bool real = x.type == ref::REAL;
                    auto agree = [&](double a, double b) { return (std::isnan(a) && std::isnan(b)) || (real ? ref::f32(a) == ref::f32(b) : a == b); };
                    VF_CHECK(c, x.codec == y.codec && x.hasMissing == y.hasMissing && (x.type == ref::STRING || x.missing == y.missing), "column " << x.name << " of frame " << i << " is changed by compacting the compacted file");
                    VF_CHECK(c, x.type == ref::STRING || (agree(x.min, y.min) && agree(x.max, y.max)),
                             "minimum or maximum of " << x.name << " is changed by compacting the compacted file");
                }
            }
            check(c, s, out2);
            c.label("other minimum or maximum of REAL when compacted again");
        }
    }
    c.labelIf(repeats, "values repeated in successive rows");
    c.labelIf(!s.sameShape, "columns change");
    c.labelIf(out.size() < s.frames.size(), "frames joined");
    c.labelIf(hasNaN(s), "NaN");
    c.nontrivial = s.rows() > 1 && (s.frames.size() > 1 || repeats);
}

void compact(Ctx& c) {
    rewrite(c, false);
}
void fixrowsize(Ctx& c) {
    rewrite(c, true);
}

// more rows than a frame of the output has
void large(Ctx& c) {
    sql::SourceOpts o;
    o.maxCols     = 4;
    o.vary        = c.g.chance(1, 2);
    o.special     = true;
    sql::Source s = sql::genSource(c.g, o);
    if (hasNaN(s))
        c.discard();
    unsetenv("odc_NAN_IS_OK");
    std::string bytes;
    for (auto& f : s.frames) {
        if (c.g.chance(1, 2) || &f == &s.frames[0]) {
            size_t n = f.nrows, m = size_t(c.g.pick({4999, 5000, 9999, 10000, 10001, 20000, 25003}));
            for (auto& x : f.cols)
                for (size_t r = n; r < m; r++)
                    x.cells.push_back(x.cells[r % n]);
            f.nrows = std::max(n, m);
        }
        bytes += gen::encodeAny(c.g, f);
    }
    s.bytes  = bytes;
    s.frames = ref::decodeAll(bytes);
    for (auto& f : s.frames)
        c.note(gen::describe(f, 3));
    writeFile(c.tmp + "/in.odb", s.bytes);
    bool fixed = c.g.chance(1, 2);
    std::vector<std::string> a{fixed ? "fixrowsize" : "compact", "in.odb", "out.odb"};
    RunResult r = tools::odc(a, c.tmp);
    VF_CHECK(c, r.status == 0, tools::text(a) << " fails: " << r.err.substr(0, 800));
    auto out = decoded(c, readFile(c.tmp + "/out.odb"));
    check(c, s, out);
    for (auto& f : out)
        if (fixed)
            for (int m : f.markers)
                VF_CHECK(c, m == f.markers[0], "rows of different sizes");
    c.nontrivial = s.rows() > 10000;
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C20";
    s.rule =
        "files of 1-4 frames in any codec whose columns may change type, width, order, members and number, rewritten by odc "
        "compact and odc fixrowsize; the output decoded by the reference decoder; non-trivial: several rows, and several "
        "frames or values that successive rows repeat";
    s.assumptions.push_back("files with NaN are rewritten with odc_NAN_IS_OK=1, without which the tools' own verification takes NaN for a difference");
    s.subs.push_back({"compact", compact, 2500, 60000});
    s.subs.push_back({"fixrowsize", fixrowsize, 2000, 50000});
    s.subs.push_back({"large", large, 24, 600});
    return vf::main(argc, argv, s);
}
