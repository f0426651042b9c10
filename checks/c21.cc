// C21: setting values and metadata
#include "capi.h"
#include "sql.h"
#include "tools.h"

#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <set>

using namespace vf;

namespace {

std::vector<ref::Frame> decoded(Ctx& c, const std::string& bytes) {
    try {
        return ref::decodeAll(bytes);
    }
    catch (ref::FormatError& e) {
        c.fail("the output is not valid: " + std::string(e.what()));
    }
}

std::string hex(const char* p, size_t n) {
    std::string s = "0x";
    char b[3];
    for (size_t i = 0; i < n; i++) {
        snprintf(b, sizeof b, "%02x", static_cast<unsigned char>(p[i]));
        s += b;
    }
    return s;
}

std::string number(double d) {
    char b[40];
    if (d == std::floor(d) && std::fabs(d) < 1e15)
        snprintf(b, sizeof b, "%.0f", d);
    else
        snprintf(b, sizeof b, "%.17g", d);
    return b;
}

// columns of the first frame that are of one kind in all frames
std::vector<size_t> steady(const sql::Source& s) {
    std::vector<size_t> v;
    for (size_t i = 0; i < s.cols().size(); i++) {
        bool same = true;
        for (auto& f : s.frames) {
            auto* k = f.find(s.cols()[i].name);
            same    = same && k && (k->type == ref::STRING) == (s.cols()[i].type == ref::STRING);
        }
        if (same)
            v.push_back(i);
    }
    return v;
}

// a value all frames can hold in the column, its text, and the string it stands for
struct Value {
    std::string text;
    double d = 0;
    std::string s;
};

Value genValue(Src& g, const sql::Source& s, const std::string& name, bool set) {
    bool ints = false, reals = false, bits = false, string = false;
    int nbits = 31;
    std::vector<const ref::Col*> in;
    for (auto& f : s.frames) {
        auto* k = f.find(name);
        in.push_back(k);
        ints   = ints || k->type == ref::INTEGER;
        bits   = bits || k->type == ref::BITFIELD;
        reals  = reals || k->type == ref::REAL;
        string = string || k->type == ref::STRING;
    }
    Value v;
    if (string) {
        const std::string chars = std::string("abcXYZ019 _-+.;:/@*[](){}%$#!?&~") + (set ? "" : "==");
        std::string t;
        size_t n = g.index(9);
        if (set && g.chance(1, 3)) {  // as bytes; the string ends with the first NUL
            for (size_t i = 0; i < n; i++)
                t += char(g.range(g.chance(1, 8) ? 0 : 1, 255));
            if (n == 0)
                t = std::string(1, '\0');
            v.text = hex(t.data(), t.size());
            v.s    = ref::stripNul(t);
            return v;
        }
        for (size_t i = 0; i < n; i++)
            t += chars[g.index(chars.size())];
        v.text = "'" + t + "'";
        v.s    = std::string(8 - t.size(), ' ') + t;
        return v;
    }
    if (set && g.chance(1, 8)) {
        bool same = true;
        for (auto* k : in)
            same = same && k->missing == in[0]->missing;
        if (same && !std::isnan(in[0]->missing)) {
            v.d    = in[0]->missing;
            v.text = g.chance(1, 3) ? hex(reinterpret_cast<char*>(&v.d), 8) : number(v.d);
            return v;
        }
    }
    for (int tries = 0;; tries++) {
        if (ints || bits) {
            double e[] = {0, 1, -1, 2, 7, 255, 256, -128, 32767, 65536, -2147483646.0, 2147483645.0, 1234567};
            v.d        = tries > 8 ? tries : g.chance(1, 2) ? e[g.index(13)] : double(g.range(-100000, 100000));
            if (bits)
                v.d = std::fabs(v.d);
        }
        else if (reals) {
            double e[] = {0, 1, -1, 0.5, 1e-30, -1e30, 3.4e38, 273.15, 1e10, -0.125};
            v.d        = tries > 8 ? tries : g.chance(1, 2) ? e[g.index(10)] : double(g.range(-100000, 100000)) / 64;
        }
        else {
            double e[] = {0, 1, -1, 0.1, 1e-300, -1e300, 123456789.123456789, 1e17, 4503599627370497.5, -0.125, 2147483648.0};
            v.d        = tries > 8 ? tries : g.chance(1, 2) ? e[g.index(11)] : double(g.range(-100000, 100000)) / 7;
        }
        bool ok = true;
        for (auto* k : in)
            ok = ok && v.d != k->missing && ref::f32(v.d) != ref::f32(k->missing);
        if (ok)
            break;
    }
    (void)nbits;
    v.text = set && g.chance(1, 5) ? hex(reinterpret_cast<char*>(&v.d), 8) : number(v.d);
    return v;
}

void put(ref::Col& k, ref::Cell& x, const Value& v) {
    x         = ref::Cell();
    x.missing = k.type != ref::STRING && v.d == k.missing;
    if (k.type == ref::STRING)
        x.s = v.s;
    else if (k.isInt())
        x.i = int64_t(v.d);
    else
        x.d = v.d;
}

ref::Col* find(ref::Frame& f, const std::string& name) {
    for (auto& k : f.cols)
        if (k.name == name)
            return &k;
    return nullptr;
}

sql::Source source(Ctx& c) {
    sql::SourceOpts o;
    o.maxRows  = c.g.chance(1, 12) ? 300 : 8;
    o.special  = c.g.chance(1, 3);
    o.binary   = c.g.chance(1, 3);
    o.dupShort = c.g.chance(1, 4);
    o.few      = c.g.chance(1, 2);
    o.vary = o.types = o.widths = o.bits = c.g.chance(2, 3);
    o.props    = c.g.chance(1, 2);
    return sql::genSource(c.g, o);
}

// a name that stands for several columns of some frame, or none
std::string ambiguous(Ctx& c, const sql::Source& s) {
    std::vector<std::string> v;
    for (auto& f : s.frames)
        for (auto& x : f.cols) {
            std::string n = gen::shortName(x.name);
            int matches   = 0;
            bool all      = true;
            for (auto& y : f.cols)
                matches += y.name == n || y.name.compare(0, n.size() + 1, n + "@") == 0;
            for (auto& g : s.frames) {  // and for at least one in all others
                bool any = false;
                for (auto& y : g.cols)
                    any = any || y.name == n || y.name.compare(0, n.size() + 1, n + "@") == 0;
                all = all && any;
            }
            if (matches > 1 && all)
                v.push_back(n);
        }
    return v.empty() ? "" : v[c.g.index(v.size())];
}

void begin(Ctx& c, const sql::Source& s) {
    for (auto& f : s.frames)
        c.note(gen::describe(f, 20));
    c.artifact("in.odb", s.bytes);
    writeFile(c.tmp + "/in.odb", s.bytes);
    if (c.g.chance(1, 4))
        writeFile(c.tmp + "/out.odb", "something else that was there before");
}

void setValues(Ctx& c) {
    sql::Source s = source(c);
    begin(c, s);
    auto can = steady(s);
    if (can.empty())
        c.discard();
    std::string list;
    auto want   = s.frames;
    size_t n    = 1 + c.g.index(3);
    bool str = false, wide = false, num = false, miss = false;
    for (size_t k = 0; k < n; k++) {
        const std::string name = s.cols()[can[c.g.index(can.size())]].name;
        Value v                = genValue(c.g, s, name, true);
        list += (k ? "," : "") + sql::refName(c.g, s, name) + "=" + v.text;
        for (auto& f : want) {
            ref::Col& x = *find(f, name);
            (x.type == ref::STRING ? str : num) = true;
            wide = wide || x.width > 8;
            for (auto& y : x.cells) {
                put(x, y, v);
                miss = miss || y.missing;
            }
        }
    }
    int bad = c.g.chance(1, 12) ? 1 + int(c.g.index(2)) : 0;
    std::string twice = bad ? "" : ambiguous(c, s);
    if (!twice.empty() && c.g.chance(2, 3)) {
        bad  = 3;
        list = c.g.chance(1, 2) ? list + "," + twice + "=1" : twice + "=1";
    }
    if (bad == 1)
        list += ",no_such_column=1";
    if (bad == 2)
        list = "no_such_column=1," + list;
    std::vector<std::string> a{"set", list, "in.odb", "out.odb"};
    c.note(tools::text(a));
    RunResult r = tools::odc(a, c.tmp);
    VF_CHECK(c, readFile(c.tmp + "/in.odb") == s.bytes, "the input was modified");
    if (bad) {
        VF_CHECK(c, r.status != 0, (bad == 3 ? "a name of several columns was accepted" : "a column that does not exist was accepted"));
        c.label(bad == 3 ? "a name of several columns" : "column that does not exist");
        return;
    }
    VF_CHECK(c, r.status == 0, tools::text(a) << " fails: " << r.err.substr(0, 800));
    std::string bytes = readFile(c.tmp + "/out.odb");
    c.artifact("out.odb", bytes);
    auto out = decoded(c, bytes);
    gen::Cmp cmp;
    cmp.bitsByValue = false;
    std::string d   = gen::diffRows(want, out, cmp);
    VF_CHECK(c, d.empty(), d);
    c.labelIf(str, "string set");
    c.labelIf(num, "number set");
    c.labelIf(miss, "set to missing");
    c.labelIf(wide, "string column wider than 8 bytes set");
    c.labelIf(!s.sameShape, "columns change");
    c.nontrivial = s.rows() > 1 && s.cols().size() > 1;
}

// the number the API delivers
double value(const ref::Col& k, const ref::Cell& x) {
    return x.missing ? k.missing : k.isInt() ? double(x.i) : x.d;
}
bool sameNumber(const ref::Col& k, double a, double b) {
    return a == b || (std::isnan(a) && std::isnan(b)) || (k.type == ref::REAL && ref::f32(a) == ref::f32(b));
}

bool isConstant(const ref::Col& k) {
    return k.codec == "constant" || k.codec == "constant_string" || k.codec == "constant_or_missing" || k.codec == "real_constant_or_missing";
}

void metadata(Ctx& c) {
    sql::Source s = source(c);
    begin(c, s);
    auto all = ref::decodeAll(s.bytes);
    auto can = steady(s);
    std::vector<size_t> constant;
    for (size_t i : can) {
        bool is = true;
        for (auto& f : s.frames)
            is = is && isConstant(*f.find(s.cols()[i].name));
        if (is)
            constant.push_back(i);
    }
    if (can.empty())
        c.discard();
    std::string list;
    auto want = all;
    std::set<std::string> changed, done;
    bool typed = false, members = false, valued = false, fails = false;
    size_t n   = 1 + c.g.index(3);
    for (size_t k = 0; k < n; k++) {
        bool value = !constant.empty() && c.g.chance(2, 3);
        size_t i   = value ? constant[c.g.index(constant.size())] : can[c.g.index(can.size())];
        std::string name = s.cols()[i].name;
        if (!done.insert(name).second)
            continue;
        // the types its codecs can deliver
        std::vector<int> types;
        bool str = false, real = false;
        for (auto& f : s.frames) {
            auto* x = f.find(name);
            str     = str || x->type == ref::STRING;
            real    = real || x->isReal();
        }
        if (str)
            types = {ref::STRING};
        else {
            types = {ref::REAL, ref::DOUBLE};
            if (!real)
                types.push_back(ref::INTEGER);
        }
        int type = value && c.g.chance(2, 3) ? 0 : types[c.g.index(types.size())];
        bool isBits = true;
        for (auto& f : s.frames)
            isBits = isBits && f.find(name)->type == ref::BITFIELD;
        std::vector<ref::Bit> bits;
        if (isBits && c.g.chance(1, 2)) {
            type  = ref::BITFIELD;
            int n = 1 + int(c.g.index(4));
            for (int b = 0; b < n; b++)
                bits.push_back({"m" + std::to_string(c.g.index(50) * 4 + size_t(b)), 1 + int(c.g.index(8))});
        }
        Value v;
        list += (list.empty() ? "" : ",") + sql::refName(c.g, s, name);
        if (type) {
            std::string t = ref::typeName(type);
            if (!bits.empty()) {
                t = "[";
                for (auto& b : bits)
                    t += (t.size() > 1 ? ";" : "") + b.name + ":" + std::to_string(b.size);
                t += "]";
                members = true;
            }
            else if (c.g.chance(1, 2))
                for (auto& ch : t)
                    ch = char(tolower(ch));
            list += ":" + t;
            changed.insert(name);
            typed = true;
        }
        bool only = !type;
        if (value && (only || c.g.chance(1, 2))) {
            v = genValue(c.g, s, name, false);
            list += "=" + v.text;
            valued = true;
            changed.insert(name);
        }
        else if (c.g.chance(1, 6)) {  // a value for a column that is not constant
            bool other = false;
            for (auto& f : s.frames)
                other = other || !isConstant(*f.find(name));
            if (other) {
                list += "=1";
                fails = true;
            }
        }
        for (auto& f : want) {
            auto* p = find(f, name);
            if (!p)
                continue;
            ref::Col& x = *p;
            if (!v.text.empty())
                for (auto& y : x.cells)
                    if (!y.missing)
                        put(x, y, v);
            if (!type)
                continue;
            for (auto& y : x.cells) {  // the same numbers
                if (x.isInt() && (type == ref::REAL || type == ref::DOUBLE))
                    y.d = double(y.i);
            }
            x.type = type;
            x.bits = bits;
        }
    }
    int bad = c.g.chance(1, 12) ? 1 : 0;
    if (bad)
        list += ",no_such_column:REAL";
    std::string twice = bad ? "" : ambiguous(c, s);
    if (!twice.empty() && c.g.chance(2, 3)) {
        bad = 2;
        list += "," + twice + ":REAL";
    }
    std::vector<std::string> a{"mdset", list, "in.odb", "out.odb"};
    c.note(tools::text(a));
    RunResult r = tools::odc(a, c.tmp);
    VF_CHECK(c, readFile(c.tmp + "/in.odb") == s.bytes, "the input was modified");
    if (bad || fails) {
        VF_CHECK(c, r.status != 0, (bad == 2 ? "a name of several columns was accepted" : bad ? "a column that does not exist was accepted" : "a value for a column that is not constant was accepted"));
        c.label(bad == 2 ? "a name of several columns" : bad ? "column that does not exist" : "not constant");
        return;
    }
    VF_CHECK(c, r.status == 0, tools::text(a) << " fails: " << r.err.substr(0, 800));
    std::string bytes = readFile(c.tmp + "/out.odb");
    c.artifact("out.odb", bytes);
    auto out = decoded(c, bytes);
    VF_CHECK(c, out.size() == all.size(), out.size() << " frames instead of " << all.size());
    for (size_t i = 0; i < out.size(); i++) {
        auto &x = out[i], &y = all[i];
        VF_CHECK(c, x.nrows == y.nrows && x.swapped == y.swapped && x.markers == y.markers && x.cols.size() == y.cols.size(), "frame " << i << " has other rows or columns");
        VF_CHECK(c, x.props == y.props, "frame " << i << " has other properties");
        VF_CHECK(c, x.dataSize == y.dataSize && bytes.substr(x.offset + x.length - x.dataSize, x.dataSize) == s.bytes.substr(y.offset + y.length - y.dataSize, y.dataSize),
                 "frame " << i << " has other data");
        for (size_t k = 0; k < x.cols.size(); k++) {
            auto &p = x.cols[k], &q = y.cols[k], &w = want[i].cols[k];
            VF_CHECK(c, p.name == q.name, "column " << k << " of frame " << i << " is " << p.name << " instead of " << q.name);
            VF_CHECK(c, p.type == w.type, "column " << p.name << " of frame " << i << " is " << ref::typeName(p.type) << " instead of " << ref::typeName(w.type));
            VF_CHECK(c, p.codec == q.codec && p.hasMissing == q.hasMissing && p.width == q.width, "column " << p.name << " of frame " << i << " has another codec, missing indicator or width");
            VF_CHECK(c, p.type == ref::STRING || p.missing == q.missing || (std::isnan(p.missing) && std::isnan(q.missing)), "column " << p.name << " of frame " << i << " has another missing value");
            bool bits = p.bits.size() == w.bits.size();
            for (size_t b = 0; bits && b < p.bits.size(); b++)
                bits = p.bits[b].name == w.bits[b].name && p.bits[b].size == w.bits[b].size;
            VF_CHECK(c, bits, "column " << p.name << " of frame " << i << " has other members");
            if (!changed.count(p.name))
                VF_CHECK(c, p.strings == q.strings && p.rawMin == q.rawMin && memcmp(&p.min, &q.min, 8) == 0 && memcmp(&p.max, &q.max, 8) == 0, "column " << p.name << " of frame " << i << " was changed");
            for (size_t j = 0; j < p.cells.size(); j++) {
                std::string why;
                if (p.cells[j].missing && w.cells[j].missing)
                    continue;
                VF_CHECK(c, ref::sameCell(w, w.cells[j], p, p.cells[j], &why), "column " << p.name << " of frame " << i << ", row " << j << ": " << why);
            }
        }
    }
    // the library reads the same
    bool longs = c.g.chance(1, 2);
    std::vector<ref::Frame> keep;
    for (auto& f : want)
        if (f.nrows)
            keep.push_back(f);
    tools::lib(c.tmp, [&] {
        capi::setLongs(longs);
        auto got = capi::readAll(bytes);
        for (auto& f : got)
            for (auto& k : f.cols)
                k.missing = ref::defaultMissing(k.type);
        std::vector<ref::Frame> have;
        for (auto& f : got)
            if (f.nrows)
                have.push_back(f);
        if (have.size() != keep.size())
            throw Failure{"the library reads another number of frames"};
        for (size_t i = 0; i < keep.size(); i++) {
            auto &w = keep[i], &h = have[i];
            if (w.cols.size() != h.cols.size() || w.nrows != h.nrows)
                throw Failure{"read by the library: frame " + std::to_string(i) + " has another number of columns or rows"};
            for (size_t k = 0; k < w.cols.size(); k++) {
                if (w.cols[k].name != h.cols[k].name || w.cols[k].type != h.cols[k].type)
                    throw Failure{"read by the library: frame " + std::to_string(i) + " has another column " + w.cols[k].name};
                for (size_t r = 0; r < w.nrows; r++) {
                    auto &x = w.cols[k].cells[r], &y = h.cols[k].cells[r];
                    bool same = w.cols[k].type == ref::STRING ? x.s == y.s : sameNumber(w.cols[k], value(w.cols[k], x), value(h.cols[k], y));
                    if (!same)
                        throw Failure{"read by the library: frame " + std::to_string(i) + ", row " + std::to_string(r) + ", " + w.cols[k].name + ": " + ref::cellText(w.cols[k], x) + " is read as " + ref::cellText(h.cols[k], y)};
                }
            }
        }
        return std::string();
    });
    bool swapped = false;
    for (auto& f : all)
        swapped = swapped || f.swapped;
    c.labelIf(typed, "type set");
    c.labelIf(members, "members set");
    c.labelIf(valued, "constant set");
    c.labelIf(swapped, "other byte order");
    c.labelIf(!s.sameShape, "columns change");
    c.nontrivial = s.cols().size() > 1 && s.rows() > 1;
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C21";
    s.rule =
        "files of 1-4 frames in any codec and byte order whose columns may change, given to odc set (1-3 columns set to numbers, "
        "strings or bytes) and odc mdset (types and constants); the output compared, cell by cell and for mdset byte by byte, "
        "with the input in which only the named columns are changed; non-trivial: several rows and columns";
    s.assumptions.push_back("odc set is given numbers for numeric and quoted strings or bytes for string columns; odc mdset types are those the column's codec can deliver");
    s.subs.push_back({"set", setValues, 2500, 60000});
    s.subs.push_back({"mdset", metadata, 2500, 60000});
    return vf::main(argc, argv, s);
}
