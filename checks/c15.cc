// C15: text import preserves the table written in the text
#include "capi.h"
#include "tools.h"

#include <algorithm>
#include <cctype>

#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "odc/api/Odb.h"

using namespace vf;

namespace {

struct Text {
    ref::Frame table;  // BITFIELD cells: missing only if NULL
    std::string text, delim, header;
    std::vector<std::vector<std::string>> fields;
};

std::string anyCase(Src& g, std::string s) {
    int how = int(g.weighted({3, 1, 1}));
    for (auto& c : s)
        if (how == 1 || (how == 2 && g.chance(1, 2)))
            c = char(tolower(c));
    return s;
}

std::string fmt(const char* f, double d) {
    char b[64];
    snprintf(b, sizeof b, f, d);
    return b;
}

// strings that can be written in a field
std::string fieldString(Src& g, const std::string& delim, size_t maxLen) {
    std::string s;
    size_t len = g.chance(1, 3) ? size_t(g.range(0, int64_t(maxLen)))
                                : size_t(g.pick<int>({1, 3, 7, 8, 9, 15, 16, 17, 24}));
    const bool odd = g.chance(1, 12);
    if (odd)
        s = g.pick<const char*>({"NULL", "null", "", "123", "-1.5", "nan", "a b", "it's", "x\"y", "#", "a:b[c]"});
    int mode = int(g.weighted({4, 2, 1}));
    for (size_t i = 0; !odd && i < len; i++) {
        char ch = mode == 0 ? char('a' + g.draw(2)) : mode == 1 ? char(32 + g.draw(94)) : char(g.chance(1, 3) ? 128 + g.draw(127) : 33 + g.draw(90));
        s += ch;
    }
    for (auto& ch : s)
        if (delim.find(ch) != std::string::npos || ch == '\n' || ch == '\r')
            ch = '_';
    return s;
}

Text generate(Ctx& c, bool forSQL) {
    Src& g = c.g;
    Text t;
    t.delim = g.pick<const char*>({",", "\t", "|", " ", "!", "%", "^", "&", "=", "~", "/", "#", "?"});
    gen::Opts o;
    o.maxCols = 5, o.maxWidth = 1, o.nan = false, o.sqlSafe = true, o.special = false;
    ref::Frame& f = t.table;
    f.cols        = gen::genSchema(g, o);
    f.nrows       = g.chance(1, 10) ? 0 : size_t(g.range(1, g.chance(1, 4) ? 60 : 8));
    for (auto& col : f.cols) {
        if (col.type == ref::BITFIELD && col.bits.empty())
            col.bits.push_back(ref::Bit{"b", int(g.range(1, 31))});
        std::string h = col.name + ":" + anyCase(g, ref::typeName(col.type));
        if (col.type == ref::BITFIELD) {
            h += "[";
            for (size_t i = 0; i < col.bits.size(); i++)
                h += (i ? ";" : "") + col.bits[i].name + ":" + std::to_string(col.bits[i].size);
            h += "]";
        }
        t.header += (t.header.empty() ? "" : t.delim) + h;
    }
    int maxLen = int(g.pick<int>({8, 16, 40, 200}));
    for (auto& col : f.cols)
        for (size_t r = 0; r < f.nrows; r++) {
            ref::Cell x;
            x.missing = g.chance(1, 8);
            if (!x.missing)
                switch (col.type) {
                    case ref::INTEGER:
                        x.i = g.edgy(-2147483647LL - 1, 2147483646LL);
                        break;
                    case ref::BITFIELD: {
                        int n = 0;
                        for (auto& b : col.bits)
                            n += b.size;
                        x.i = g.edgy(0, (int64_t(1) << n) - 1);
                        if (x.i == 2147483647)
                            x.i--;
                        break;
                    }
                    case ref::REAL:
                        x.d = double(float(g.chance(1, 2) ? double(g.range(-100000, 100000)) / 64.0 : double(g.range(-1000000, 1000000)) * 1.7e-9));
                        if (g.chance(1, 10))
                            x.d = double(float(g.pick<double>({1e38, -1e38, 1e-37, 0.1, 3.4028234e38, 16777216, -2147483648.0})));
                        break;
                    case ref::DOUBLE:
                        x.d = g.chance(1, 2) ? double(g.range(-100000, 100000)) / 64.0 : double(g.range(-1000000, 1000000)) * 1.7e-9;
                        if (g.chance(1, 10))
                            x.d = g.pick<double>({1e308, -1e308, 2.3e-308, 0.1, 1e-300, 2147483647.0, -2147483646.0});
                        break;
                    default:
                        x.s = fieldString(g, t.delim, size_t(maxLen));
                }
            col.cells.push_back(x);
        }
    const bool spaceDelim = t.delim == " ";
    std::string eol       = "\n";
    t.text                = t.header + "\n";
    bool blank            = g.chance(1, 6);
    for (size_t r = 0; r < f.nrows; r++) {
        std::string line;
        t.fields.emplace_back();
        for (size_t k = 0; k < f.cols.size(); k++) {
            auto& col = f.cols[k];
            auto& x   = col.cells[r];
            std::string s;
            if (x.missing)
                s = anyCase(g, "NULL");
            else if (col.isInt()) {
                s = std::to_string(x.i < 0 ? -x.i : x.i);
                if (g.chance(1, 10))  // (decimal, whatever it starts with)
                    s.insert(0, size_t(g.range(1, 2)), '0');
                s = (x.i < 0 ? "-" : g.chance(1, 12) ? "+" : "") + s;
            }
            else if (col.type == ref::REAL)
                s = fmt(g.chance(1, 3) ? "%.9e" : "%.9g", x.d);
            else if (col.type == ref::DOUBLE)
                s = fmt(g.chance(1, 3) ? "%.17e" : "%.17g", x.d);
            else {
                std::string u = x.s;
                for (auto& ch : u)
                    ch = char(toupper(ch));
                bool mustQuote = x.s.empty() || isspace((unsigned char)x.s.front()) || isspace((unsigned char)x.s.back()) || u == "NULL" ||
                                 strchr("'\"", x.s.front()) || strchr("'\"", x.s.back());
                if (mustQuote || g.chance(1, 3)) {
                    char q = g.chance(1, 2) ? '"' : '\'';
                    s      = q + x.s + q;
                }
                else
                    s = x.s;
            }
            if (!spaceDelim && t.delim != "\t" && g.chance(1, 10))
                s = " " + s + " ";
            t.fields.back().push_back(s);
            line += (k ? t.delim : "") + s;
        }
        if (blank && g.chance(1, 3))
            t.text += g.chance(1, 3) && !spaceDelim ? "   \n" : eol;
        t.text += line;
        if (r + 1 < f.nrows || !g.chance(1, 5))
            t.text += eol;
    }
    if (blank)
        t.text += "\n\n";
    c.labelIf(blank, "blank lines");
    c.label(std::string("delimiter ") + (t.delim == "\t" ? "TAB" : spaceDelim ? "SPACE" : t.delim == "," ? "," : "other"));
    return t;
}

std::string differs(const ref::Frame& w, const std::vector<ref::Frame>& got) {
    size_t at = 0;
    for (auto& f : got) {
        if (f.cols.size() != w.cols.size())
            return std::to_string(f.cols.size()) + " columns";
        if (at + f.nrows > w.nrows)
            return "more rows than lines";
        for (size_t k = 0; k < w.cols.size(); k++) {
            auto &a = w.cols[k], &b = f.cols[k];
            if (a.name != b.name || a.type != b.type)
                return "column " + std::to_string(k) + ": " + b.name + " " + ref::typeName(b.type);
            if (a.bits.size() != b.bits.size())
                return "members of " + a.name;
            for (size_t i = 0; i < a.bits.size(); i++)
                if (a.bits[i].name != b.bits[i].name || a.bits[i].size != b.bits[i].size)
                    return "members of " + a.name;
            for (size_t r = 0; r < f.nrows; r++) {
                auto &x = a.cells[at + r], &y = b.cells[r];
                bool same;
                std::string why;
                if (a.type == ref::STRING)
                    same = (x.missing ? "" : x.s) == ref::stripNul(y.s);
                else {
                    bool miss = y.missing || (b.isInt() ? double(y.i) : y.d) == b.missing;
                    if (a.type == ref::BITFIELD && !x.missing)
                        same = x.i == y.i;
                    else
                        same = x.missing ? miss : !miss && ref::sameCell(a, x, b, y, &why);
                }
                if (!same)
                    return a.name + ", line " + std::to_string(at + r + 1) + ": " + (x.missing ? "NULL" : ref::cellText(a, x)) + " became " +
                           ref::cellText(b, y);
            }
        }
        at += f.nrows;
    }
    return at == w.nrows ? "" : std::to_string(at) + " rows instead of " + std::to_string(w.nrows);
}

// imports by entry point e; *error: message if refused
std::string import(Ctx& c, const Text& t, const std::string& text, int e, std::string* error, const std::string& sql) {
    error->clear();
    if (e < 3)
        return tools::lib(
            c.tmp,
            [&] {
                eckit::MemoryHandle out(size_t(1024), true);
                out.openForWrite(0);
                if (e == 0)
                    odc::api::odbFromCSV(text, out, t.delim);
                else if (e == 1) {
                    std::istringstream is(text);
                    odc::api::odbFromCSV(is, out, t.delim);
                }
                else {
                    eckit::MemoryHandle in(text.data(), text.size());
                    in.openForRead();
                    odc::api::odbFromCSV(in, out, t.delim);
                }
                return std::string((const char*)out.data(), size_t(out.position()));
            },
            error);
    writeFile(c.tmp + "/in.csv", text);
    std::string d = t.delim == "\t" ? "TAB" : t.delim == " " ? "SPACE" : t.delim;
    std::vector<std::string> args{"import"};
    if (t.delim != "," || e == 4) {
        args.push_back("-d");
        args.push_back(d);
    }
    if (e == 4) {
        args.push_back("-sql");
        args.push_back(sql);
    }
    args.push_back("in.csv");
    args.push_back("out.odb");
    c.note(tools::text(args));
    RunResult r = tools::odc(args, c.tmp);
    if (r.status != 0) {
        *error = "status " + std::to_string(r.status) + ": " + r.err.substr(r.err.size() > 300 ? r.err.size() - 300 : 0);
        return "";
    }
    return readFile(c.tmp + "/out.odb");
}

const char* entry(int e) {
    static const char* n[] = {"odbFromCSV(string)", "odbFromCSV(istream)", "odbFromCSV(DataHandle)", "odc import", "odc import -sql"};
    return n[e];
}

void good(Ctx& c) {
    int e  = int(c.g.weighted({2, 2, 2, 3, 3}));
    Text t = generate(c, e == 4);
    ref::Frame want = t.table;
    std::string sql = c.g.chance(1, 2) ? "select *" : "select * ;";
    if (e == 4) {
        // an empty input has no rows to select, and "NULL" cells are subject of C16
        if (c.g.chance(1, 3)) {
            size_t k = c.g.index(want.cols.size());
            sql      = "select " + want.cols[k].name + ";";
            want.cols.assign(1, t.table.cols[k]);
        }
    }
    c.label(entry(e));
    c.note(std::string(entry(e)) + " delimiter " + quote(t.delim) + (e == 4 ? " " + sql : ""));
    c.note(quote(t.text, 2000));
    c.artifact("in.csv", t.text);
    std::string err;
    std::string out = import(c, t, t.text, e, &err, sql);
    VF_CHECK(c, err.empty(), entry(e) << " refuses the text: " << err);
    std::vector<ref::Frame> got;
    try {
        got = ref::decodeAll(out);
    }
    catch (ref::FormatError& x) {
        c.fail(std::string("output: ") + x.what());
    }
    std::string d = differs(want, got);
    VF_CHECK(c, d.empty(), entry(e) << ": " << d);
    c.labelIf(got.size() > 1, "widened");
    c.nontrivial = want.nrows > 1;
}

void bad(Ctx& c) {
    int e  = int(c.g.weighted({2, 1, 1, 3, 1}));
    Text t = generate(c, e == 4);
    auto& f = t.table;
    std::string what;
    auto build = [&]() {
        std::string s = t.header + "\n";
        for (auto& l : t.fields) {
            for (size_t k = 0; k < l.size(); k++)
                s += (k ? t.delim : "") + l[k];
            s += "\n";
        }
        return s;
    };
    int how = int(c.g.weighted({3, 3, 3, 1, 1, 1, 1, 1}));
    if (how < 3 && f.nrows == 0)
        c.discard();
    std::vector<size_t> numeric;
    for (size_t k = 0; k < f.cols.size(); k++)
        if (f.cols[k].type != ref::STRING)
            numeric.push_back(k);
    switch (how) {
        case 0: {
            auto& l = c.g.pick(t.fields);
            if (l.size() < 2)
                c.discard();
            const_cast<std::vector<std::string>&>(l).erase(l.begin() + long(c.g.index(l.size())));
            what = "a line with a field less";
            break;
        }
        case 1:
            const_cast<std::vector<std::string>&>(c.g.pick(t.fields)).push_back(c.g.pick<const char*>({"1", "NULL", "x"}));
            what = "a line with a field more";
            break;
        case 2: {
            if (numeric.empty())
                c.discard();
            auto& l = const_cast<std::vector<std::string>&>(c.g.pick(t.fields));
            size_t k = c.g.pick(numeric);
            l[k]     = f.cols[k].isInt() ? c.g.pick<const char*>({"abc", "1x", "--1", "x1", "'a'", "1.5x"})
                                         : c.g.pick<const char*>({"abc", "1x", "--1", "x1", "'a'", "1.5x", "1..2"});
            what     = "a line with " + l[k] + " for " + ref::typeName(f.cols[k].type);
            break;
        }
        case 3:
            t.header += t.delim + "z:" + c.g.pick<const char*>({"FLOAT", "INT", "@", "STR", "DOUBLES"});
            for (auto& l : t.fields)
                l.push_back("1");
            what = "unknown type";
            break;
        case 4:
            t.header += t.delim + "z";
            for (auto& l : t.fields)
                l.push_back("1");
            what = "no type";
            break;
        case 5:
            t.header += t.delim + f.cols[c.g.index(f.cols.size())].name + ":INTEGER";
            for (auto& l : t.fields)
                l.push_back("1");
            what = "a column twice";
            break;
        case 6:
            t.header += t.delim + "z:BITFIELD[" + c.g.pick<const char*>({"a:0", "a:-1;b:3", "a:x", "a:16;b:16", "a:32", "a:1;a:1", "a", "a:1;b"}) + "]";
            for (auto& l : t.fields)
                l.push_back("1");
            what = "bad bitfield";
            break;
        default:
            t.header += t.delim + "z:BITFIELD" + c.g.pick<const char*>({"", "[a:1", "a:1]", "[a:1;b:2"});
            for (auto& l : t.fields)
                l.push_back("1");
            what = "bitfield without members or brackets";
    }
    std::string text = build();
    c.label(what.substr(0, 12));
    c.note(std::string(entry(e)) + " delimiter " + quote(t.delim) + ": " + what);
    c.note(quote(text, 2000));
    c.artifact("in.csv", text);
    std::string err;
    import(c, t, text, e, &err, "select *");
    VF_CHECK(c, !err.empty(), entry(e) << " accepts " << what);
    c.nontrivial = true;
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C15";
    s.rule =
        "random typed headers (all types, bitfield members) and 0-60 lines of numbers, NULLs and quoted or bare strings of "
        "up to 200 characters, written with 13 delimiters, blank lines, imported through the three "
        "odbFromCSV functions, odc import, and odc import -sql; the output decoded by the reference decoder; and texts "
        "with one malformed line or header entry; non-trivial: more than one line, or a malformed text";
    s.subs.push_back({"import", good, 3000, 100000});
    s.subs.push_back({"malformed", bad, 1200, 40000});
    s.assumptions = {"numbers are zero or in the normal range of their type (eckit refuses denormal ones)",
                     "strings do not contain the delimiter, line ends or NUL",
                     "runs of delimiters count as one, so that empty fields must be quoted"};
    return vf::main(argc, argv, s);
}
