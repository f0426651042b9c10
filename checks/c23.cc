// C23: counting, listing, headers and indices agree with the data
#include "capi.h"
#include "sql.h"
#include "tools.h"

#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <sstream>

#include "odc/Indexer.h"
#include "odc/RowsCounter.h"

using namespace vf;

namespace {

void put(Ctx& c, const std::string& name, const std::string& bytes) {
    writeFile(c.tmp + "/" + name, bytes);
    c.artifact(name, bytes);
}

std::string run(Ctx& c, const std::vector<std::string>& args) {
    RunResult r = tools::odc(args, c.tmp);
    VF_CHECK(c, r.status == 0, tools::text(args) << " fails: " << r.err);
    return r.out;
}

void unchanged(Ctx& c, const std::string& name, const std::string& bytes) {
    VF_CHECK(c, readFile(c.tmp + "/" + name) == bytes, name << " was modified");
}

// any file: several frames of any columns, encoded in any way
struct File {
    std::string bytes;
    std::vector<ref::Frame> frames;
};
File genFile(Ctx& c, bool names = true) {
    File f;
    if (c.g.chance(1, 2)) {
        sql::SourceOpts o;
        o.maxRows  = 8;
        o.special  = c.g.chance(1, 2);
        o.dupShort = c.g.chance(1, 4);
        o.few      = c.g.chance(1, 3);
        o.vary = o.types = o.widths = o.bits = c.g.chance(2, 3);
        f.bytes = sql::genSource(c.g, o).bytes;
    }
    else {
        gen::Opts o;
        o.maxRows = c.g.chance(1, 10) ? 300 : 8;
        o.nan     = c.g.chance(1, 4);
        o.binary  = names && c.g.chance(1, 2);
        size_t n  = 1 + c.g.index(4);
        ref::Frame t;
        for (size_t i = 0; i < n; i++) {
            t = i && c.g.chance(2, 3) ? gen::genLike(c.g, t, o) : gen::genTable(c.g, o);
            if (i && c.g.chance(1, 4))
                std::rotate(t.cols.begin(), t.cols.begin() + long(c.g.index(t.cols.size())), t.cols.end());
            if (c.g.chance(1, 10)) {
                t.nrows = 0;
                for (auto& k : t.cols)
                    k.cells.clear();
            }
            ref::Frame e = t;
            f.bytes += gen::encodeAny(c.g, e);
        }
    }
    f.frames = ref::decodeAll(f.bytes);
    return f;
}

void describe(Ctx& c, const File& f) {
    for (auto& x : f.frames)
        c.note(gen::describe(x, 6));
}

void count(Ctx& c) {
    std::vector<std::string> args{"count"};
    size_t n = 1 + c.g.index(3), rows = 0;
    std::vector<File> files;
    for (size_t i = 0; i < n; i++) {
        files.push_back(genFile(c));
        std::string name = "f" + std::to_string(i) + ".odb";
        put(c, name, files[i].bytes);
        args.push_back(name);
        size_t m = 0;
        for (auto& f : files[i].frames)
            m += f.nrows;
        rows += m;
        std::string k = tools::lib(c.tmp, [&] { return std::to_string(odc::RowsCounter::fastRowCount(c.tmp + "/" + name)); });
        VF_CHECK(c, k == std::to_string(m), "RowsCounter::fastRowCount: " << k << " instead of " << m);
    }
    std::string out = run(c, args);
    VF_CHECK(c, out == std::to_string(rows) + "\n", tools::text(args) << " prints " << out << " instead of " << rows);
    for (size_t i = 0; i < n; i++)
        unchanged(c, "f" + std::to_string(i) + ".odb", files[i].bytes);
    c.labelIf(n > 1, "several files");
    c.nontrivial = rows > 0;
}

bool constantString(const ref::Col& k) {
    return k.codec == "constant_string" || k.codec == "long_constant_string";
}

std::string fixed(double d) {
    std::ostringstream s;
    s << std::fixed << d;
    return s.str();
}

// the fields "key=value" after the codec
std::map<std::string, std::string> fields(const std::string& s) {
    std::map<std::string, std::string> m;
    for (auto key : {"value", "range", "hasMissing", "missingValue", "width", "#words"}) {
        std::string k = std::string(", ") + key + "=";
        size_t p      = s.find(k);
        if (p == std::string::npos)
            continue;
        p += k.size();
        size_t e;
        if (std::string(key) == "range")
            e = s.find('>', p) + 1;
        else if (s[p] == '\'')
            e = s.size();
        else
            e = s.find(',', p);
        m[key] = s.substr(p, e == std::string::npos ? e : e - p);
    }
    return m;
}

bool sameNumber(const std::string& text, double d) {
    std::ostringstream plain;
    plain << d;
    if (text == fixed(d) || text == plain.str())
        return true;
    // n.b. the sign of NaN is not part of the value
    return std::isnan(d) && (text == "nan" || text == "-nan");
}

void checkColumn(Ctx& c, const std::string& line, const ref::Col& k, const std::string& where, bool content) {
    std::string head = "name: " + k.name + ", type: " + ref::typeName(k.type);
    if (k.type == ref::BITFIELD) {
        head += " [";
        for (size_t i = 0; i < k.bits.size(); i++)
            head += (i ? ";" : "") + k.bits[i].name + ":" + std::to_string(k.bits[i].size);
        head += "] ";
    }
    if (!content) {  // whatever codec
        head += ", codec: ";
        VF_CHECK(c, line.compare(0, head.size(), head) == 0, where << "'" << line << "' does not begin with '" << head << "'");
    }
    else {
        head += ", codec: " + k.codec;
        VF_CHECK(c, line.compare(0, head.size() + 1, head + ",") == 0, where << "'" << line << "' does not begin with '" << head << "'");
    }
    auto f = fields(line.substr(head.size()));
    if (k.type == ref::STRING) {
        if (constantString(k) && content) {
            std::string v = k.cells.empty() ? "" : "'" + k.cells[0].s + "'";
            if (f.count("value") && !k.cells.empty())
                VF_CHECK(c, f["value"] == v, where << "'" << line << "': the constant is " << v);
        }
        if (f.count("width"))
            VF_CHECK(c, f["width"] == std::to_string(k.width), where << "'" << line << "': the width is " << k.width);
        if (f.count("#words") && content && k.codec.substr(0, 3) == "int")
            VF_CHECK(c, f["#words"] == std::to_string(k.strings.size()), where << "'" << line << "': there are " << k.strings.size() << " strings");
        return;
    }
    VF_CHECK(c, f.count("hasMissing") && (f.count("range") || f.count("value")), where << "'" << line << "' lacks the range or the missing indicator");
    if (!content)
        return;
    VF_CHECK(c, f["hasMissing"] == (k.hasMissing ? "true" : "false"), where << "'" << line << "': hasMissing is " << k.hasMissing);
    if (k.hasMissing)
        VF_CHECK(c, sameNumber(f["missingValue"], k.missing), where << "'" << line << "': the missing value is " << fixed(k.missing));
    if (f.count("range")) {
        size_t comma = f["range"].find(',');
        VF_CHECK(c, sameNumber(f["range"].substr(1, comma - 1), k.min) && sameNumber(f["range"].substr(comma + 1, f["range"].size() - comma - 2), k.max),
                 where << "'" << line << "': the range is " << fixed(k.min) << " to " << fixed(k.max));
    }
    else if (f["value"] == "NULL")
        VF_CHECK(c, k.cells.empty() || k.cells[0].missing, where << "'" << line << "': the value is not missing");
    else
        VF_CHECK(c, sameNumber(f["value"], k.min), where << "'" << line << "': the value is " << fixed(k.min));
}

// the blocks of the output of header
struct Block {
    unsigned long long n, begin, end, rows;
    std::string order;
    std::vector<std::string> columns;
};
std::vector<Block> parse(Ctx& c, const std::string& out) {
    std::vector<Block> v;
    for (auto& line : tools::lines(out)) {
        if (line.empty())
            continue;
        Block b;
        char order[16] = "";
        if (sscanf(line.c_str(), "Header %llu. Begin offset: %llu, end offset: %llu, number of rows in block: %llu, byteOrder: %15s", &b.n, &b.begin, &b.end, &b.rows, order) == 5) {
            b.order = order;
            v.push_back(b);
            continue;
        }
        VF_CHECK(c, !v.empty(), "'" << line << "' is outside of any header");
        std::string num = std::to_string(v.back().columns.size()) + ". ";
        VF_CHECK(c, line.compare(0, num.size(), num) == 0, "'" << line << "' is not the line of column " << num);
        v.back().columns.push_back(line.substr(num.size()));
    }
    return v;
}

void header(Ctx& c) {
    File f = genFile(c, false);
    describe(c, f);
    put(c, "in.odb", f.bytes);
    for (auto& x : f.frames)
        for (auto& k : x.cols)
            if (constantString(k))
                for (auto& y : k.cells)
                    if (y.s.find('\n') != std::string::npos)
                        c.discard();
    auto v = parse(c, run(c, {"header", "in.odb"}));
    VF_CHECK(c, v.size() == f.frames.size(), "there are " << f.frames.size() << " frames, but " << v.size() << " headers");
    for (size_t i = 0; i < v.size(); i++) {
        auto& x           = f.frames[i];
        std::string where = "header " + std::to_string(i) + ": ";
        VF_CHECK(c, v[i].n == i + 1, where << "number " << v[i].n);
        VF_CHECK(c, v[i].begin == x.offset && v[i].end == x.offset + x.length, where << v[i].begin << "-" << v[i].end << " instead of " << x.offset << "-" << x.offset + x.length);
        VF_CHECK(c, v[i].rows == x.nrows, where << v[i].rows << " rows instead of " << x.nrows);
        VF_CHECK(c, v[i].order == (x.swapped ? "other" : "same"), where << "byte order " << v[i].order);
        VF_CHECK(c, v[i].columns.size() == x.cols.size(), where << v[i].columns.size() << " columns instead of " << x.cols.size());
        for (size_t k = 0; k < x.cols.size(); k++)
            checkColumn(c, v[i].columns[k], x.cols[k], where, true);
        c.labelIf(x.swapped, "other byte order");
        c.labelIf(x.nrows == 0, "no rows");
    }
    unchanged(c, "in.odb", f.bytes);
    c.labelIf(v.size() > 1, "several frames");
    c.nontrivial = true;
}

bool near(double a, double b) {
    return a == b || std::fabs(a - b) <= 1e-6 + 1e-6 * std::fabs(b);
}

// what headers say of the values in files the library has written
void ranges(Ctx& c) {
    sql::SourceOpts o;
    o.maxRows = 12;
    o.few     = c.g.chance(1, 2);
    o.special = c.g.chance(1, 4);
    o.vary = o.types = o.widths = o.bits = c.g.chance(1, 2);
    sql::Source s                        = sql::genSource(c.g, o);
    for (auto& f : s.frames)
        c.note(gen::describe(f, 12));
    put(c, "in.odb", s.bytes);
    bool wide = false;
    for (auto& f : s.frames)
        for (auto& k : f.cols)
            for (auto& x : k.cells)
                wide = wide || (k.isReal() && !x.missing && std::isnan(x.d));
    if (wide)
        c.discard();
    run(c, {"sql", "select *", "-i", "in.odb", "-f", "odb", "-o", "out.odb"});
    std::string bytes = readFile(c.tmp + "/out.odb");
    c.artifact("out.odb", bytes);
    auto frames = ref::decodeAll(bytes);
    auto v      = parse(c, run(c, {"header", "out.odb"}));
    VF_CHECK(c, v.size() == frames.size(), "there are " << frames.size() << " frames, but " << v.size() << " headers");
    for (size_t i = 0; i < v.size(); i++) {
        VF_CHECK(c, v[i].columns.size() == frames[i].cols.size(), "wrong number of columns");
        for (size_t n = 0; n < frames[i].cols.size(); n++) {
            auto& k           = frames[i].cols[n];
            std::string where = "header " + std::to_string(i) + ": ", line = v[i].columns[n];
            checkColumn(c, line, k, where, false);
            if (k.type == ref::STRING)
                continue;
            auto f      = fields(line.substr(line.find(", codec:")));
            bool any    = false, present = false;
            double low = 0, high = 0;
            for (auto& x : k.cells) {
                any = any || x.missing;
                if (x.missing)
                    continue;
                double d = k.isInt() ? double(x.i) : x.d;
                low      = present ? std::min(low, d) : d;
                high     = present ? std::max(high, d) : d;
                present  = true;
            }
            // n.b. missing bits are zero, which is recorded as missing in some codecs only
            if (k.type != ref::BITFIELD)
                VF_CHECK(c, f["hasMissing"] == (any ? "true" : "false"), where << "'" << line << "', but there " << (any ? "are" : "are no") << " missing cells");
            else
                continue;
            if (!present)
                continue;
            c.labelIf(any, "missing cells");
            // n.b. the range of REAL is that of the values before they were rounded to single precision
            double a = 0, b = 0;
            if (f.count("range") && k.type == ref::REAL && sscanf(f["range"].c_str(), "<%lf,%lf>", &a, &b) == 2)
                VF_CHECK(c, near(a, low) && near(b, high), where << "'" << line << "', but the values range from " << fixed(low) << " to " << fixed(high));
            else if (f.count("range"))
                VF_CHECK(c, f["range"] == "<" + fixed(low) + "," + fixed(high) + ">", where << "'" << line << "', but the values range from " << fixed(low) << " to " << fixed(high));
            else if (k.type != ref::REAL)
                VF_CHECK(c, f["value"] == fixed(low) && low == high, where << "'" << line << "', but the values range from " << fixed(low) << " to " << fixed(high));
            c.nontrivial = true;
        }
    }
}

void offsets(Ctx& c) {
    File f = genFile(c);
    describe(c, f);
    put(c, "in.odb", f.bytes);
    std::string want;
    for (auto& x : f.frames)
        want += std::to_string(x.offset) + " " + std::to_string(x.length) + " " + std::to_string(x.nrows) + " " + std::to_string(x.cols.size()) + "\n";
    std::string out = run(c, {"header", "-offsets", "in.odb"});
    VF_CHECK(c, out == want, "header -offsets prints\n" << out << "instead of\n" << want);
    unchanged(c, "in.odb", f.bytes);
    c.nontrivial = f.frames.size() > 1;
}

void ddl(Ctx& c) {
    sql::SourceOpts o;
    o.maxRows  = 4;
    o.vary = o.types = o.widths = o.bits = c.g.chance(2, 3);
    sql::Source s = sql::genSource(c.g, o);
    auto frames   = ref::decodeAll(s.bytes);
    for (auto& f : frames)
        c.note(gen::schemaText(f));
    put(c, "in.odb", s.bytes);
    // sometimes the name of a table of the file
    std::string table = "foo";
    std::vector<std::string> args{"header", "-ddl"};
    if (c.g.chance(2, 3)) {
        table = "obs";
        for (auto& k : frames[0].cols)
            if (k.name.find('@') != std::string::npos && c.g.chance(2, 3))
                table = k.name.substr(k.name.find('@') + 1);
        if (table.size() > 2 && c.g.chance(1, 3))  // or the start of one
            table.pop_back();
        args.push_back("-table");
        args.push_back(table);
    }
    args.push_back("in.odb");
    auto strip = [&](const std::string& n) {
        size_t p = n.find('@');
        return p != std::string::npos && n.substr(p + 1) == table ? n.substr(0, p) : n;
    };
    // one definition for each run of frames with the same columns; of frames that only differ in their bits or in the width
    // of strings, one or several
    std::string out = run(c, args);
    std::vector<std::string> got;
    std::string def;
    for (auto& l : tools::lines(out)) {
        if (l.empty())
            continue;
        def += l + "\n";
        if (l.compare(0, 5, ") ON ") == 0) {
            VF_CHECK(c, l == ") ON 'in.odb';", "'" << l << "'");
            got.push_back(def);
            def.clear();
        }
    }
    VF_CHECK(c, def.empty(), "the output ends in '" << def << "'");
    std::vector<std::string> want, key;
    for (auto& f : frames) {
        std::string types, columns, id;
        for (auto& k : f.cols) {
            std::string t = k.type == ref::STRING ? "STRING" : k.type == ref::REAL ? "REAL" : k.type == ref::DOUBLE ? "DOUBLE" : "INTEGER";
            id += k.name + " " + std::to_string(k.type) + "\n";
            if (k.type == ref::BITFIELD) {
                t = strip(k.name) + "_at_" + table + "_t";
                types += "CREATE TYPE " + t + " AS (";
                for (size_t i = 0; i < k.bits.size(); i++)
                    types += (i ? ", " : "") + k.bits[i].name + " bit" + std::to_string(k.bits[i].size);
                types += ");\n";
            }
            columns += "  " + strip(k.name) + " " + t + ",\n";
        }
        want.push_back(types + "CREATE TABLE " + table + " AS (\n" + columns + ") ON 'in.odb';\n");
        key.push_back(id);
    }
    size_t g = 0;
    for (size_t i = 0; i < want.size(); i++) {
        bool fresh = i == 0 || key[i] != key[i - 1];
        if (fresh) {
            VF_CHECK(c, g < got.size() && got[g] == want[i], "definition " << g << " of the output is\n" << (g < got.size() ? got[g] : "missing\n") << "but that of frame " << i << " is\n" << want[i]);
            g++;
        }
        else if (g < got.size() && got[g] == want[i])
            g++;
    }
    VF_CHECK(c, g == got.size(), "the output has " << got.size() << " definitions, of which only " << g << " are of frames of the file, in order");
    unchanged(c, "in.odb", s.bytes);
    c.labelIf(got.size() > 1, "several definitions");
    c.nontrivial = true;
}

void list(Ctx& c) {
    File f = genFile(c);
    describe(c, f);
    put(c, "in.odb", f.bytes);
    std::vector<std::string> args{"ls"};
    bool file = c.g.chance(1, 3);
    if (file) {
        args.push_back("-o");
        args.push_back("out.txt");
    }
    args.push_back("in.odb");
    std::string out = run(c, args);
    if (file) {
        VF_CHECK(c, out.empty(), "there is output besides the file");
        out = readFile(c.tmp + "/out.txt");
    }
    unchanged(c, "in.odb", f.bytes);
    size_t pos = 0;
    auto take  = [&](const std::string& s) {
        if (out.compare(pos, s.size(), s) != 0)
            return false;
        pos += s.size();
        return true;
    };
    std::string previous;
    size_t rows = 0;
    for (auto& x : f.frames) {
        if (!x.nrows)
            continue;
        std::string names;
        for (auto& k : x.cols)
            names += (names.empty() ? "" : "\t") + k.name;
        names += "\n";
        // n.b. also printed when only types or widths change
        bool printed = take(names);
        VF_CHECK(c, printed || names == previous, "row " << rows << ": no line with the names " << names);
        previous = names;
        for (size_t r = 0; r < x.nrows; r++, rows++) {
            for (size_t k = 0; k < x.cols.size(); k++) {
                auto& cell = x.cols[k].cells[r];
                std::string s;
                if (x.cols[k].type == ref::STRING)
                    s = "'" + cell.s + "'";
                else if (cell.missing && x.cols[k].hasMissing)
                    s = ".";
                else if (x.cols[k].isInt())
                    s = std::to_string(cell.missing ? (long long)x.cols[k].missing : (long long)cell.i);
                else
                    s = fixed(cell.missing ? x.cols[k].missing : cell.d);
                if (k)
                    s = "\t" + s;
                bool ok = take(s);
                if (!ok && x.cols[k].isReal() && std::isnan(cell.d))
                    ok = take((k ? "\t" : "") + std::string("nan")) || take((k ? "\t" : "") + std::string("-nan"));
                VF_CHECK(c, ok, "row " << rows << ", column " << x.cols[k].name << ": " << quote(out.substr(pos, s.size() + 10)) << " instead of " << quote(s));
                c.labelIf(cell.missing, "missing cells");
            }
            VF_CHECK(c, take("\n"), "row " << rows << " does not end after the last column: " << quote(out.substr(pos, 20)));
        }
    }
    VF_CHECK(c, pos == out.size(), "more output than rows: " << quote(out.substr(pos, 100)));
    c.labelIf(f.frames.size() > 1, "several frames");
    c.nontrivial = rows > 0;
}

void xyv(Ctx& c) {
    sql::SourceOpts o;
    o.maxRows = 10;
    o.vary    = c.g.chance(1, 2);
    sql::Source s;
    // columns named lat and lon, first in some frame order
    auto add = [&](ref::Frame f) {
        static const char* n[] = {"lat", "lon"};
        for (int i = 0; i < 2; i++) {
            ref::Col k;
            k.name  = n[i];
            k.type  = ref::REAL;
            k.codec = "";
            for (size_t r = 0; r < f.nrows; r++) {
                ref::Cell x;
                x.d = double(c.g.range(0, 720)) / 4 - 90;
                k.cells.push_back(x);
            }
            k.missing = ref::MISSING_REAL;
            f.cols.insert(f.cols.begin() + long(c.g.index(f.cols.size() + 1)), k);
        }
        return f;
    };
    s = sql::genSource(c.g, o);
    std::string col;
    for (auto& k : s.cols())
        if (k.isReal())
            col = k.name;
    if (col.empty())
        c.discard();
    std::string bytes;
    for (auto f : s.frames) {
        if (!f.find(col))
            c.discard();
        for (auto& k : f.cols)
            if (gen::shortName(k.name) == "lat" || gen::shortName(k.name) == "lon")
                c.discard();
        f = add(f);
        gen::planCodecs(c.g, f);
        gen::planMarkers(c.g, f);
        bytes += gen::encodeAny(c.g, f);
    }
    auto frames = ref::decodeAll(bytes);
    put(c, "in.odb", bytes);
    for (auto& f : frames)
        c.note(gen::describe(f, 6));
    run(c, {"xyv", "in.odb", col, "out.txt"});
    auto lines = tools::lines(readFile(c.tmp + "/out.txt"));
    auto at    = std::find(lines.begin(), lines.end(), "#DATA");
    VF_CHECK(c, at != lines.end(), "there is no #DATA");
    ++at;
    while (at != lines.end() && at->empty())
        ++at;
    for (auto& f : frames)
        for (size_t r = 0; r < f.nrows; r++, ++at) {
            VF_CHECK(c, at != lines.end(), "too few rows");
            // n.b. printed with six digits
            std::ostringstream w;
            w << f.find("lon")->cells[r].d << "\t" << f.find("lat")->cells[r].d << "\t";
            auto& x = f.find(col)->cells[r];
            VF_CHECK(c, at->compare(0, w.str().size(), w.str()) == 0, "'" << *at << "' does not begin with " << w.str());
            if (x.missing)
                continue;
            std::ostringstream v;
            v << (f.find(col)->isInt() ? double(x.i) : x.d);
            VF_CHECK(c, at->substr(w.str().size()) == v.str(), "'" << *at << "' does not end in " << v.str());
        }
    VF_CHECK(c, at == lines.end() || at->empty(), "too many rows");
    unchanged(c, "in.odb", bytes);
    c.nontrivial = true;
}

void indexTool(Ctx& c) {
    // frames that all have a column seqno
    gen::Opts o;
    o.maxRows = c.g.chance(1, 10) ? 300 : 10;
    o.maxCols = 4;
    o.sqlSafe = true;
    std::string bytes;
    size_t n      = 1 + c.g.index(4);
    int few       = 1 + int(c.g.index(6));
    bool negative = c.g.chance(1, 5);
    for (size_t i = 0; i < n; i++) {
        ref::Frame f = gen::genTable(c.g, o);
        for (auto& k : f.cols)
            if (gen::shortName(k.name) == "seqno")
                c.discard();
        ref::Col k;
        k.name    = i && c.g.chance(1, 2) ? "seqno" : "seqno";
        k.type    = ref::INTEGER;
        k.missing = ref::MISSING_INT;
        bool sorted = c.g.chance(1, 2);
        for (size_t r = 0; r < f.nrows; r++) {
            ref::Cell x;
            x.i = c.g.chance(1, 30) ? c.g.range(-2000000000, 2000000000) : c.g.range(negative ? -2 : 0, few);
            if (sorted && r)
                x.i = std::max(x.i, k.cells.back().i);
            k.cells.push_back(x);
        }
        f.cols.insert(f.cols.begin() + long(c.g.index(f.cols.size() + 1)), k);
        gen::planCodecs(c.g, f);
        gen::planMarkers(c.g, f);
        bytes += gen::encodeAny(c.g, f);
    }
    auto frames = ref::decodeAll(bytes);
    for (auto& f : frames)
        c.note(gen::describe(f, 12));
    put(c, "in.odb", bytes);
    std::string name = "in.odb.idx";
    if (c.g.chance(1, 2)) {
        name = "other.idx";
        run(c, {"index", "in.odb", name});
    }
    else
        run(c, {"index", "in.odb"});
    unchanged(c, "in.odb", bytes);
    std::string idx = readFile(c.tmp + "/" + name);
    c.artifact(name, idx);
    std::map<std::pair<long long, long long>, long long> want, got;  // block and seqno: rows
    std::map<long long, long long> length;
    for (auto& f : frames) {
        length[(long long)f.offset] = (long long)f.length;
        for (auto& x : f.find("seqno")->cells)
            want[{(long long)f.offset, x.i}]++;
    }
    for (auto& f : ref::decodeAll(idx)) {
        auto *b = f.find("block_begin"), *l = f.find("block_length"), *s = f.find("seqno"), *m = f.find("n_rows");
        VF_CHECK(c, f.cols.size() == 4 && b && l && s && m, "the index has the columns " << gen::schemaText(f));
        for (size_t r = 0; r < f.nrows; r++) {
            long long at = b->cells[r].i;
            VF_CHECK(c, length.count(at) && length[at] == l->cells[r].i, "entry of " << at << ", " << l->cells[r].i << " bytes, which is no frame");
            auto p = std::make_pair(at, (long long)s->cells[r].i);
            VF_CHECK(c, !got.count(p), "two entries for the block at " << at << ", seqno " << p.second);
            got[p] = m->cells[r].i;
        }
    }
    for (auto& w : want)
        VF_CHECK(c, got.count(w.first) && got[w.first] == w.second, "block at " << w.first.first << ", seqno " << w.first.second << ": " << w.second << " rows, in the index " << (got.count(w.first) ? std::to_string(got[w.first]) : "none"));
    VF_CHECK(c, got.size() == want.size(), "the index has entries of values which are not there");
    // its blocks can be queried on their own
    if (!got.empty()) {
        size_t k  = c.g.index(frames.size());
        auto& f   = frames[k];
        auto& cell = f.find("seqno")->cells[c.g.index(f.nrows)];
        std::string out = run(c, {"sql", "select seqno where seqno = " + std::to_string(cell.i), "-T", "-f", "ascii", "-i", "in.odb", "-offset", std::to_string(f.offset), "-length", std::to_string(f.length)});
        size_t rows = 0;
        for (auto& s : tools::lines(out))
            rows += !s.empty() && s.compare(0, 3, "SIM") && s.compare(0, 3, "SYM");
        long long w = want[{(long long)f.offset, cell.i}];
        VF_CHECK(c, (long long)rows == w, "querying the block at " << f.offset << " gives " << rows << " rows with seqno " << cell.i << ", not " << w);
    }
    c.labelIf(frames.size() > 1, "several frames");
    c.nontrivial = want.size() > 1;
}

// queries of a part of a file
void part(Ctx& c) {
    sql::SourceOpts o;
    o.maxRows  = 8;
    o.maxFrames = 5;
    o.vary = o.types = o.widths = o.bits = c.g.chance(1, 2);
    sql::Source s = sql::genSource(c.g, o);
    auto all      = ref::decodeAll(s.bytes);
    put(c, "in.odb", s.bytes);
    size_t from = c.g.index(all.size()), to = from + c.g.index(all.size() - from);
    bool offset = from > 0 || c.g.chance(1, 2), length = to + 1 < all.size() || c.g.chance(1, 2);
    std::vector<std::string> args{"sql", "select *", "-i", "in.odb", "-f", "odb", "-o", "out.odb"};
    if (offset) {
        args.push_back("-offset");
        args.push_back(std::to_string(all[from].offset));
    }
    if (length) {
        args.push_back("-length");
        args.push_back(std::to_string(all[to].offset + all[to].length - all[from].offset));
    }
    std::vector<ref::Frame> want;
    for (size_t i = from; i <= to; i++)
        if (all[i].nrows)
            want.push_back(all[i]);
    // n.b. columns are matched by name, of those the first frame has
    if (want.empty())
        c.discard();
    for (auto& f : want) {
        c.note(gen::describe(f, 8));
        if (f.cols.size() != want[0].cols.size())
            c.discard();
        for (size_t k = 0; k < f.cols.size(); k++)
            if (f.cols[k].name != want[0].cols[k].name)
                c.discard();
    }
    run(c, args);
    std::string out = readFile(c.tmp + "/out.odb");
    c.artifact("out.odb", out);
    size_t a = 0, b = 0;
    for (auto& f : want)
        a += f.nrows;
    auto got = ref::decodeAll(out);
    for (auto& f : got)
        b += f.nrows;
    VF_CHECK(c, a == b, tools::text(args) << " gives " << b << " rows instead of " << a);
    gen::Cmp cmp;
    cmp.types = cmp.bits = cmp.bitsByValue = false;
    bool plain = true;
    for (auto& f : want)
        for (size_t k = 0; k < f.cols.size(); k++)
            plain = plain && f.cols[k].type == want[0].cols[k].type && f.cols[k].width == want[0].cols[k].width;
    // n.b. coincides with the missing value of the result
    for (auto& f : want)
        for (auto& k : f.cols)
            for (auto& x : k.cells)
                if (k.type == ref::BITFIELD && !x.missing && x.i == 2147483647)
                    c.discard();
    if (plain) {
        std::string d = gen::diffRows(want, got, cmp);
        VF_CHECK(c, d.empty(), d);
    }
    unchanged(c, "in.odb", s.bytes);
    c.labelIf(offset, "-offset");
    c.labelIf(length, "-length");
    c.labelIf(!offset && length, "only -length");
    c.nontrivial = offset || length;
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C23";
    s.rule =
        "random files of several frames that vary, with any codecs and byte orders, given to count, header (and -offsets, -ddl), "
        "ls, xyv, index and sql -offset/-length; what they report must be what the reference decoder reads; non-trivial: there "
        "are rows (and several frames where these are reported)";
    s.assumptions.push_back("bitfields do not use bit 31; integers are within 32 bits");
    s.subs.push_back({"count", count, 600, 12000});
    s.subs.push_back({"header", header, 1200, 25000});
    s.subs.push_back({"ranges", ranges, 700, 16000});
    s.subs.push_back({"offsets", offsets, 500, 12000});
    s.subs.push_back({"ddl", ddl, 600, 16000});
    s.subs.push_back({"list", list, 1200, 30000});
    s.subs.push_back({"xyv", xyv, 400, 10000});
    s.subs.push_back({"index", indexTool, 800, 20000});
    s.subs.push_back({"part", part, 600, 16000});
    return vf::main(argc, argv, s);
}
