// C22: comparison accepts exactly the equal files
#include "capi.h"
#include "sql.h"
#include "tools.h"

#include <algorithm>
#include <cmath>
#include <cstdlib>

using namespace vf;

namespace {

using Frames = std::vector<ref::Frame>;

Frames source(Ctx& c) {
    sql::SourceOpts o;
    o.maxRows  = c.g.chance(1, 12) ? 200 : 8;
    o.special  = c.g.chance(1, 2);
    o.binary   = c.g.chance(1, 3);
    o.dupShort = c.g.chance(1, 4);
    o.few      = c.g.chance(1, 4);
    o.vary = o.types = o.widths = o.bits = c.g.chance(1, 2);
    sql::Source s = sql::genSource(c.g, o);
    bool nan      = false;
    for (auto& f : s.frames)
        for (auto& x : f.cols)
            for (auto& y : x.cells)
                nan = nan || (x.isReal() && !y.missing && std::isnan(y.d));
    if (nan)
        setenv("odc_NAN_IS_OK", "1", 1);
    else
        unsetenv("odc_NAN_IS_OK");
    c.labelIf(nan, "NaN");
    return s.frames;
}

// other frames, codecs, byte orders, markers, padding of strings
std::string encode(Ctx& c, const Frames& v, bool* divided = nullptr) {
    std::string s;
    Frames all;
    for (size_t i = 0; i < v.size(); i++) {
        ref::Frame f = v[i];
        // joined with the next ones
        while (i + 1 < v.size() && c.g.chance(1, 2)) {
            auto& n   = v[i + 1];
            bool same = n.cols.size() == f.cols.size();
            for (size_t k = 0; same && k < n.cols.size(); k++)
                same = n.cols[k].name == f.cols[k].name && n.cols[k].type == f.cols[k].type && sql::sameBits(n.cols[k], f.cols[k]) && n.cols[k].missing == f.cols[k].missing;
            if (!same)
                break;
            f = gen::join({f, n});
            i++;
        }
        size_t at = 0;
        while (at < f.nrows) {
            size_t n = c.g.chance(1, 2) ? f.nrows - at : size_t(c.g.range(1, int(f.nrows - at)));
            all.push_back(gen::rows(f, at, n));
            at += n;
        }
    }
    for (auto& f : all) {
        for (auto& x : f.cols)
            if (x.type == ref::STRING && c.g.chance(1, 4))
                x.width += 8 * size_t(c.g.range(1, 2));
        s += gen::encodeAny(c.g, f);
    }
    if (divided)
        *divided = all.size() != v.size();
    return s;
}

// the comparison in both directions
void compare(Ctx& c, const std::string& a, const std::string& b, bool equal, const std::vector<std::string>& opts, const std::string& what) {
    writeFile(c.tmp + "/a.odb", a);
    writeFile(c.tmp + "/b.odb", b);
    c.artifact("a.odb", a);
    c.artifact("b.odb", b);
    for (int swap = 0; swap < 2; swap++) {
        std::vector<std::string> v{"compare"};
        v.insert(v.end(), opts.begin(), opts.end());
        v.push_back(swap ? "b.odb" : "a.odb");
        v.push_back(swap ? "a.odb" : "b.odb");
        RunResult r = tools::odc(v, c.tmp);
        VF_CHECK(c, (r.status == 0) == equal, tools::text(v) << (equal ? " finds a difference: " : " finds no difference: ") << what << (equal ? r.err.substr(0, 800) : ""));
    }
    VF_CHECK(c, readFile(c.tmp + "/a.odb") == a && readFile(c.tmp + "/b.odb") == b, "comparing modifies the files");
}

void describe(Ctx& c, const Frames& v) {
    for (auto& f : v)
        c.note(gen::describe(f, 20));
}

void same(Ctx& c) {
    Frames v = source(c);
    describe(c, v);
    bool divided  = false;
    std::string a = encode(c, v);
    if (c.g.chance(1, 5)) {
        compare(c, a, a, true, {}, "");
        c.label("copy");
    }
    else {
        compare(c, a, encode(c, v, &divided), true, {}, "");
        c.labelIf(divided, "divided differently");
        c.label("encoded differently");
        c.nontrivial = true;
    }
}

// another value of a cell; "": there is none
std::string changeCell(Ctx& c, ref::Col& x, size_t r, bool toMissing, bool fromMissing) {
    ref::Cell& y = x.cells[r];
    std::string was = ref::cellText(x, y);
    if (x.type == ref::STRING) {
        std::string s = y.s;
        switch (c.g.index(4)) {
            case 0:
                if (s.empty())
                    s = "x";
                else
                    s[c.g.index(s.size())] ^= char(c.g.pick({1, 2, 4, 32, 0x80}));
                break;
            case 1:
                s += c.g.chance(1, 2) ? " " : "y";
                break;
            case 2:
                if (!s.empty())
                    s.pop_back();
                break;
            default:
                if (!s.empty())
                    s[s.size() - 1] = char(s.back() == 'q' ? 'r' : 'q');
        }
        s = s.substr(0, s.find('\0'));
        if (s == y.s)
            return "";
        while (x.width < s.size())
            x.width += 8;
        y.s = s;
    }
    else if (!y.missing && toMissing && c.g.chance(1, 4))
        y.missing = true;
    else {
        if (y.missing && !fromMissing)
            return "";
        ref::Cell z = y;
        z.missing   = false;
        if (x.isInt()) {
            z.i = y.missing ? int64_t(c.g.range(0, 5)) : c.g.pick<int64_t>({y.i + 1, y.i - 1, y.i ^ 0x10000, -y.i, 0});
            if (x.type == ref::BITFIELD)
                z.i &= 0x7fffffff;
            z.i = std::max<int64_t>(-2147483647, std::min<int64_t>(2147483646, z.i));
            if (double(z.i) == x.missing || (!y.missing && z.i == y.i))
                return "";
        }
        else {
            double d = y.missing ? double(c.g.range(0, 5)) : y.d, e;
            if (std::isnan(d) || std::isinf(d))
                e = c.g.chance(1, 2) ? 1 : -d;
            else if (std::fabs(d) < 1e-6)
                e = d + c.g.pick({1., -1., 1e-6});
            else
                e = c.g.chance(1, 3) ? -d : x.type == ref::REAL ? double(std::nextafter(float(d), c.g.chance(1, 2) ? 3e38f : -3e38f)) : d * (1 + c.g.pick({1e-8, -1e-8, 1e-3}));
            if (x.type == ref::REAL) {
                e = ref::f32(e);
                d = ref::f32(d);
            }
            if (e == x.missing || (!y.missing && (e == d || (std::isnan(e) && std::isnan(d)))) || (std::isinf(e) && !std::isinf(d)) || (x.type == ref::REAL && ref::f32(e) == ref::f32(x.missing)))
                return "";
            z.d = e;
        }
        y = z;
    }
    return "row " + std::to_string(r) + " of " + x.name + ": " + was + " or " + ref::cellText(x, y);
}

// changes one thing; says what
std::string change(Ctx& c, Frames& v) {
    size_t fi     = c.g.index(v.size());
    ref::Frame& f = v[fi];
    ref::Col& x   = f.cols[c.g.index(f.cols.size())];
    std::string in = "in frame " + std::to_string(fi) + ", ";
    switch (c.g.weighted({8, 1, 1, 2, 1, 1, 1})) {
        case 0: {
            std::string s = changeCell(c, x, c.g.index(f.nrows), true, true);
            if (s.empty())
                return "";
            c.label(std::string("cell of type ") + ref::typeName(x.type));
            return in + s;
        }
        case 1: {
            std::string was = x.name;
            x.name          = c.g.pick<std::string>({was + "x", was.substr(0, was.size() - 1), was[0] == 'q' ? "r" + was.substr(1) : "q" + was.substr(1), gen::shortName(was)});
            for (auto& y : f.cols)
                if (&y != &x && y.name == x.name)
                    return "";
            if (x.name == was || x.name.empty() || x.name[0] == '@')
                return "";
            c.label("name");
            return in + "column " + was + " or " + x.name;
        }
        case 2: {
            int was = x.type;
            if (was == ref::STRING)
                return "";
            if (was == ref::REAL || was == ref::DOUBLE) {
                for (auto& y : x.cells)
                    if (!y.missing)
                        y.d = ref::f32(y.d);
                x.type = was == ref::REAL ? ref::DOUBLE : ref::REAL;
            }
            else if (was == ref::INTEGER) {
                x.type = c.g.chance(1, 2) ? ref::DOUBLE : ref::REAL;
                for (auto& y : x.cells)
                    y.d = double(y.i);
            }
            else
                x.type = ref::INTEGER, x.bits.clear();
            c.label("type");
            return in + "type of " + x.name;
        }
        case 3: {
            if (x.type != ref::BITFIELD || x.bits.empty())
                return "";
            auto& b = x.bits[c.g.index(x.bits.size())];
            if (c.g.chance(1, 2))
                b.name += "x";
            else if (b.size > 1)
                b.size--;
            else
                return "";
            c.label("bitfield definition");
            return in + "members of " + x.name;
        }
        case 4: {
            size_t at = c.g.index(f.nrows);
            if (c.g.chance(1, 2) || v.size() + f.nrows == 2) {
                for (auto& y : f.cols)
                    y.cells.insert(y.cells.begin() + long(at), y.cells[at]);
                f.nrows++;
            }
            else {  // the last row
                ref::Frame& l = v.back();
                for (auto& y : l.cols)
                    y.cells.pop_back();
                if (--l.nrows == 0)
                    v.pop_back();
            }
            c.label("number of rows");
            return "number of rows";
        }
        case 5: {
            if (f.cols.size() < 2)
                return "";
            if (c.g.chance(1, 2)) {
                f.cols.pop_back();
                c.label("number of columns");
                return in + "one column less";
            }
            std::swap(f.cols[0], f.cols[1 + c.g.index(f.cols.size() - 1)]);
            c.label("order of columns");
            return in + "order of columns";
        }
        default: {
            ref::Col y;
            y.name = "more@x";
            y.type = ref::INTEGER;
            y.cells.resize(f.nrows);
            y.missing = 2147483647;
            f.cols.push_back(y);
            c.label("number of columns");
            return in + "one more column";
        }
    }
}

void different(Ctx& c) {
    Frames v = source(c), w;
    std::string what;
    for (int t = 0; t < 20 && what.empty(); t++) {
        w    = v;
        what = change(c, w);
    }
    if (what.empty())
        c.discard();
    describe(c, v);
    c.note("changed: " + what);
    compare(c, encode(c, v), encode(c, w), false, {}, what);
    c.nontrivial = true;
}

void options(Ctx& c) {
    Frames v = source(c), w = v;
    size_t fi      = c.g.index(v.size());
    ref::Frame& f  = w[fi];
    std::string at = "in frame " + std::to_string(fi) + ", ", what;
    ref::Col& x    = f.cols[c.g.index(f.cols.size())];
    std::vector<std::string> opts;
    bool equal = true;
    switch (c.g.index(3)) {
        case 0: {
            // some columns left out
            std::vector<std::string> names;
            for (auto& y : f.cols)
                if (c.g.chance(1, 3))
                    names.push_back(y.name);
            if (c.g.chance(1, 6))
                names.push_back("nosuch");
            if (names.empty())
                names.push_back(c.g.pick(f.cols).name);
            std::string list;
            for (auto& n : names)
                list += (list.empty() ? "" : ",") + n;
            opts = {"-excludeColumns", list};
            equal = std::find(names.begin(), names.end(), x.name) != names.end();
            what  = equal && c.g.chance(1, 4) && x.type == ref::BITFIELD ? "members of " + x.name : "";
            if (!what.empty()) {
                x.bits.clear();
                x.bits.push_back(ref::Bit{"other", 3});
            }
            else
                for (int t = 0; t < 20 && what.empty(); t++)
                    what = changeCell(c, x, c.g.index(f.nrows), true, true);
            c.label(equal ? "excluded column changed" : "other column changed than excluded");
            break;
        }
        case 1: {
            // the type only
            int was = x.type;
            if (was == ref::STRING)
                c.discard();
            opts = {"-excludeColumnsTypes", x.name + (c.g.chance(1, 2) ? ",nosuch" : "")};
            if (was == ref::INTEGER) {
                x.type = ref::DOUBLE;
                for (auto& y : x.cells)
                    y.d = double(y.i);
            }
            else if (was == ref::BITFIELD)
                x.type = ref::INTEGER, x.bits.clear();
            else {
                bool fits = true;
                for (auto& y : x.cells)
                    fits = fits && (y.missing || (y.d == ref::f32(y.d)));
                if (!fits)
                    c.discard();
                x.type = was == ref::REAL ? ref::DOUBLE : ref::REAL;
            }
            what = "type of " + x.name;
            // the same in all frames, so that they may be joined
            equal = c.g.chance(2, 3);
            if (!equal) {
                std::string s;
                int numeric = x.type;
                for (int t = 0; t < 20 && s.empty(); t++) {
                    ref::Col& y = f.cols[c.g.index(f.cols.size())];
                    if (&y == &x && (was == ref::REAL || numeric == ref::REAL))
                        continue;  // compared in single precision
                    s = changeCell(c, y, c.g.index(f.nrows), true, true);
                }
                if (s.empty())
                    c.discard();
                what += " and " + s;
            }
            c.label(equal ? "type excluded" : "type excluded and value changed");
            break;
        }
        default: {
            opts = {"-dontCheckMissing"};
            // a value only one file has
            equal = c.g.chance(1, 2);
            for (int t = 0; t < 30 && what.empty(); t++) {
                ref::Col& y = f.cols[c.g.index(f.cols.size())];
                size_t r    = c.g.index(f.nrows);
                if (y.type == ref::STRING && equal)
                    continue;
                if (equal) {
                    if (y.cells[r].missing)
                        what = changeCell(c, y, r, false, true);
                    else {
                        y.cells[r].missing = true;
                        what               = "row " + std::to_string(r) + " of " + y.name + " missing";
                    }
                }
                else
                    what = changeCell(c, y, r, false, false);
            }
            c.label(equal ? "missing in one file only" : "values differ where missing ones do not matter");
        }
    }
    if (what.empty())
        c.discard();
    describe(c, v);
    c.note("changed: " + at + what);
    std::string a = encode(c, v), b = encode(c, w);
    c.note(tools::text(opts));
    compare(c, a, b, equal, opts, at + what);
    if (opts.size() == 2 ? equal : true)  // and without the option
        compare(c, a, b, false, {}, at + what);
    c.nontrivial = true;
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C22";
    s.rule =
        "files of 1-4 frames of any types compared by odc compare, in both directions, with re-encodings of them (frames "
        "divided and joined differently, any codec, byte order, padding) and with versions in which one cell, missing "
        "status, name, type, bitfield definition, row or column is changed, with and without options; non-trivial: all but "
        "comparing a file with its copy";
    s.assumptions.push_back("reals are changed by more than a relative 1e-9, the comparison's fixed tolerance");
    s.assumptions.push_back("files with NaN are compared with odc_NAN_IS_OK=1, without which NaN is different from itself");
    s.assumptions.push_back("-excludeColumnsTypes takes names of columns, as its usage and code have it (docs/content/tools.rst says types)");
    s.subs.push_back({"same", same, 1200, 40000});
    s.subs.push_back({"different", different, 2000, 80000});
    s.subs.push_back({"options", options, 1200, 40000});
    return vf::main(argc, argv, s);
}
