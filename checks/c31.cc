// C31: requests that cannot be carried out are refused, and leave inputs and later requests alone
#include "capi.h"
#include "sql.h"
#include "tools.h"

#include <dirent.h>
#include <sys/stat.h>
#include <algorithm>
#include <cstdlib>
#include <sstream>

#include "eckit/filesystem/PathName.h"
#include "eckit/io/MemoryHandle.h"
#include "odc/Reader.h"
#include "odc/Select.h"
#include "odc/api/Odb.h"

using namespace vf;

namespace {

std::map<std::string, std::string> files(const std::string& dir) {
    std::map<std::string, std::string> m;
    DIR* d = opendir(dir.c_str());
    if (!d)
        throw Failure{"cannot list " + dir};
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        struct stat st;
        if (n != "." && n != ".." && stat((dir + "/" + n).c_str(), &st) == 0)
            m[n] = S_ISDIR(st.st_mode) ? "(directory)" : readFile(dir + "/" + n);
    }
    closedir(d);
    return m;
}

// the queries -----------------------------------------------------------------------------------------------------------

bool isPlain(const ref::Col& c) {
    return c.name.find('@') == std::string::npos;
}

// a query that cannot be answered; what says why
std::string spoiled(Src& g, const sql::Source& s, const sql::Query& q, const std::string& from, std::string& what) {
    const ref::Col& c = s.cols()[g.index(s.cols().size())];
    std::string name  = sql::refName(g, s, c.name);
    sql::Query x      = q;
    switch (g.index(12)) {
        case 0:
            what = "unknown column";
            x.select += std::string(", nosuch") + (g.chance(1, 2) ? "@t" : "");
            break;
        case 1:
            what = "unknown column in the condition";
            x.where += (x.where.empty() ? "" : " and ") + std::string("nosuch > 1");
            break;
        case 2:
            what  = "unknown column to order by";
            x.order = "nosuch";
            break;
        case 3:
            what = "unknown keyword";
            return (g.chance(1, 2) ? "selct " : "remove ") + name + (from.empty() ? "" : " from \"" + from + "\"") + ";";
        case 4:
            what    = "nothing selected";
            x.select = "";
            break;
        case 5:
            what     = "comma without a column";
            x.select = ", " + x.select;
            break;
        case 6:
            what     = "unmatched parenthesis";
            x.select = g.chance(1, 2) ? "(" + name : name + ")";
            break;
        case 7:
            what     = "unknown function";
            x.select = "nosuchfunction(" + name + ")";
            break;
        case 8:
            what     = "unknown member";
            x.select = gen::shortName(c.name) + ".nosuch" + (isPlain(c) ? "" : c.name.substr(c.name.find('@')));
            break;
        case 9:
            what    = "condition without an operand";
            x.where = name + (g.chance(1, 2) ? " =" : " > 1 and");
            break;
        case 10:
            what     = "column of another table";
            x.select = gen::shortName(c.name) + "@nosuchtable";
            break;
        default:
            what = "table that does not exist";
            return x.text("nosuch.odb");
    }
    return x.text(from);
}

// the command lines -----------------------------------------------------------------------------------------------------

struct Command {
    std::vector<std::string> args;     // tool, options and arguments
    std::vector<size_t> positional;    // indices of the arguments
    size_t needed = 0;                 // number of arguments without which it cannot work
    bool extra    = true;              // cannot take one more
    std::vector<size_t> inputs;        // indices of names of inputs
    size_t output = 0;                 // index of the name of the output, if it has one
    bool text     = false;             // the input is text
};

std::string valueFor(const ref::Col& c) {
    return c.type == ref::STRING ? "'ab'" : "1";
}

// all frames have the column
bool everywhere(const sql::Source& s, const std::string& name) {
    for (auto& f : s.frames)
        if (!f.find(name))
            return false;
    return true;
}

Command genCommand(Src& g, const sql::Source& s, const ref::Col& c) {
    Command k;
    static const std::vector<std::string> tools{"compact", "fixrowsize", "compare", "count", "ls", "header", "import", "index", "set", "mdset", "merge", "merge -S", "split", "xyv", "sql"};
    std::string t = g.pick(tools);
    auto add      = [&](const std::string& a) {
        k.positional.push_back(k.args.size());
        k.args.push_back(a);
        k.needed = k.positional.size();
    };
    auto in = [&](const std::string& a) {
        k.inputs.push_back(k.args.size());
        add(a);
    };
    auto out = [&](const std::string& a) {
        k.output = k.args.size();
        add(a);
    };
    k.args.push_back(t == "merge -S" ? "merge" : t);
    if (t == "compact" || t == "fixrowsize") {
        in("in.odb");
        out("out.odb");
    }
    else if (t == "import") {
        k.text = true;
        in("in.csv");
        out("out.odb");
    }
    else if (t == "compare") {
        in("in.odb");
        in("same.odb");
    }
    else if (t == "count" || t == "header")
        in("in.odb");
    else if (t == "ls") {
        if (g.chance(1, 3)) {
            k.args.push_back("-o");
            k.output = k.args.size();
            k.args.push_back("out.txt");
        }
        in("in.odb");
    }
    else if (t == "index") {
        in("in.odb");
        k.output = k.args.size();
        k.positional.push_back(k.args.size());
        k.args.push_back("out.idx");
    }
    else if (t == "set" || t == "mdset") {
        add(t == "set" ? c.name + "=" + valueFor(c) : c.name + ":" + ref::typeName(c.type));
        in("in.odb");
        out("out.odb");
    }
    else if (t == "merge" || t == "merge -S") {
        if (t == "merge -S")
            k.args.push_back("-S");
        k.args.push_back("-o");
        k.output = k.args.size();
        k.args.push_back("out.odb");
        in("in.odb");
        if (t == "merge -S")
            add("select " + c.name);
        in("other.odb");
        if (t == "merge -S")
            add("select other");
    }
    else if (t == "split") {
        in("in.odb");
        out("out.{" + c.name + "}");
    }
    else if (t == "xyv") {
        in("in.odb");
        add(c.name);
        out("out.odb");
    }
    else {
        add("select " + c.name + ";");
        k.extra = true;
        k.args.push_back("-i");
        k.inputs.push_back(k.args.size());
        k.args.push_back("in.odb");
        if (g.chance(1, 2)) {
            k.args.push_back("-o");
            k.output = k.args.size();
            k.args.push_back("out.odb");
        }
    }
    return k;
}

std::string simpleName(const std::string& n) {
    for (char ch : n)
        if (!isalnum(static_cast<unsigned char>(ch)) && ch != '_' && ch != '@')
            return "";
    return n;
}

void commands(Ctx& c) {
    sql::SourceOpts o;
    o.maxCols       = 4;
    o.maxRows       = 6;
    o.types         = false;
    o.bits          = false;
    o.narrowStrings = true;
    o.few           = true;
    o.plain         = c.g.chance(1, 2);
    o.vary          = c.g.chance(1, 3);
    sql::Source s   = sql::genSource(c.g, o);
    const ref::Col& col = s.cols()[c.g.index(s.cols().size())];
    Command k = genCommand(c.g, s, col);
    std::string tool = k.args[0];
    const std::string& name = col.name;
    // what some tools need of the column (else the request need not succeed)
    bool able = everywhere(s, name) && !simpleName(name).empty();
    if (tool == "split")  // strings in names, and values that make no file name
        able = able && (col.type == ref::INTEGER || col.type == ref::BITFIELD);
    if (tool == "xyv" || tool == "mdset" || tool == "merge" || tool == "set" || tool == "index")
        able = false;

    writeFile(c.tmp + "/in.odb", s.bytes);
    writeFile(c.tmp + "/same.odb", s.bytes);
    ref::Frame other;
    {
        ref::Col x;
        x.name  = "other";
        x.type  = ref::INTEGER;
        x.codec = "int32";
        for (size_t i = 0; i < s.rows(); i++) {
            ref::Cell cell;
            cell.i = int(i);
            cell.d = double(i);
            x.cells.push_back(cell);
        }
        other.cols  = {x};
        other.nrows = s.rows();
    }
    writeFile(c.tmp + "/other.odb", gen::encodePlain(other));
    writeFile(c.tmp + "/in.csv", "a:INTEGER,b:STRING\n1,xy\n2,z\n");
    mkdir((c.tmp + "/dir").c_str(), 0755);
    bool there = c.g.chance(1, 3);
    if (there && k.output)
        writeFile(c.tmp + "/" + k.args[k.output], "something that was there before");
    auto before = files(c.tmp);
    c.artifact("in.odb", s.bytes);

    // spoil it
    std::string what;
    std::vector<int> ways{0, 0, 1, 2, 2, 3};
    if (k.output)
        ways.insert(ways.end(), {4, 5});
    bool spec = tool == "set" || tool == "mdset" || tool == "split" || tool == "xyv" || tool == "sql" || (tool == "merge" && k.args[1] == "-S");
    if (spec)
        ways.insert(ways.end(), {6, 6, 6, 7, 7, 7});
    if (able)
        ways.push_back(8);
    int way = ways[c.g.index(ways.size())];
    switch (way) {
        case 0: {  // fewer arguments than it needs
            what  = "too few arguments";
            size_t n = c.g.index(k.needed);
            if (tool == "merge" && k.args[1] == "-S" && n == 2)
                n = 3;  // a file without a query; a single one with a query can be "merged"
            for (size_t i = k.positional.size(); i-- > n;)
                k.args.erase(k.args.begin() + long(k.positional[i]));
            break;
        }
        case 1: {
            what  = "too many arguments";
            size_t n = size_t(c.g.range(1, 3));
            for (size_t i = 0; i < n; i++)
                k.args.push_back(i == 0 ? "nosuch" : "another");
            break;
        }
        case 2:
            what = "input that does not exist";
            k.args[k.inputs[c.g.index(k.inputs.size())]] = c.g.pick({std::string("nosuch"), std::string("dir/nosuch.odb"), std::string("in.odb/nosuch"), std::string("nodir/in.odb")});
            break;
        case 3:
            if (k.text) {
                what = "text without a typed header";
                before["in.csv"] = c.g.pick({std::string("1,2,3\n4,5,6\n"), std::string("a:NOTYPE\n1\n"), std::string("a:INTEGER,b:\n1,2\n")});
                writeFile(c.tmp + "/in.csv", before["in.csv"]);
            }
            else {
                what = "input that is not ODB-2";
                std::string n = k.args[k.inputs[c.g.index(k.inputs.size())]];
                before[n] = c.g.pick({std::string("a:INTEGER\n1\n2\n3\n"), std::string("x"), std::string(100, '\0'), std::string("\xff\xffODB and something else that is not a frame of the version we know"), "x" + s.bytes});
                writeFile(c.tmp + "/" + n, before[n]);
            }
            break;
        case 4:
            what             = "output below a file";
            k.args[k.output] = tool == "split" ? "in.odb/" + k.args[k.output] : std::string("in.odb/out");
            break;
        case 5:
            if (tool == "split") {
                what = "template without a key";
                k.args[k.output] = c.g.pick({std::string("out"), std::string("out.{" + name), std::string("out." + name + "}"), std::string("out.{}")});
            }
            else {
                what             = "output that is a directory";
                k.args[k.output] = "dir";
            }
            break;
        case 6:
            what = "unknown column";
            for (auto& a : k.args) {
                size_t p = a.find(name);
                if (&a != &k.args[0] && p != std::string::npos && a != "in.odb" && (tool != "merge" || a.substr(0, 7) == "select ") && (tool != "split" || a.substr(0, 4) == "out.") &&
                    (tool == "split" || &a != &k.args[k.output ? k.output : 0])) {
                    if (a.substr(0, 7) == "select ")
                        p = 7;
                    if (a.substr(0, 5) == "out.{")
                        p = 5;
                    std::string n = c.g.chance(1, 2) ? "nosuch" : "nosuch@t";
                    if (c.g.chance(1, 2))
                        a.replace(p, name.size(), n);
                    else if (tool == "set")
                        a += "," + n + "=1";
                    else if (tool == "mdset")
                        a += "," + n + ":INTEGER";
                    else if (tool == "split")
                        a += ".{" + n + "}";
                    else
                        a.insert(p + name.size(), "," + n);
                    break;
                }
            }
            break;
        case 7: {
            what = "malformed request";
            std::string& a = tool == "split" ? k.args[k.output] : tool == "merge" ? k.args[5] : tool == "xyv" ? k.args[2] : k.args[1];
            if (tool == "set")
                a = c.g.pick({name, name + "=", "=" + valueFor(col), std::string("="), name + "=1 " + name + "=2", name + "=1=2"});
            else if (tool == "mdset")
                a = c.g.pick({name + ":NOTYPE", ":" + std::string(ref::typeName(col.type)), name + ":BITFIELD[a:3;b]", name + ":BITFIELD[a:3", name + ":BITFIELD[]", name + ":INTEGERS"});
            else if (tool == "xyv")
                a = "";
            else if (tool == "split")
                a = c.g.pick({std::string("out.{"), std::string("out.}"), "out.{" + name + "}{"});
            else
                a = c.g.pick({"selct " + name, "select " + name + " where", "select " + name + " where " + name + " >", "select ," + name, "select (" + name, "select " + name + ")", "select nosuch(" + name + ")",
                              "select " + name + " order", "select " + name + " from", std::string("select"), "select " + name + " " + name + " " + name});
            break;
        }
        default:
            what = "";
    }
    c.note(tools::text(k.args) + (what.empty() ? "" : "   (" + what + ")"));
    for (auto& f : s.frames)
        c.note(gen::describe(f, 6));
    RunResult r = tools::odc(k.args, c.tmp);
    auto after  = files(c.tmp);
    if (what.empty())
        VF_CHECK(c, r.status == 0, tools::text(k.args) << " fails: " << r.err.substr(0, 800));
    else {
        VF_CHECK(c, r.status != 0, tools::text(k.args) << " succeeds (" << what << ")");
        VF_CHECK(c, !r.err.empty(), tools::text(k.args) << " fails without a message (" << what << ")");
    }
    for (auto& x : before) {
        bool output = k.output && (x.first == "out.odb" || x.first == "out.txt" || x.first == "out.idx");
        if (!output)
            VF_CHECK(c, after.count(x.first) && after[x.first] == x.second, x.first << " was changed or removed by " << tools::text(k.args) << " (" << what << ")");
    }
    for (auto& x : after)
        if (!before.count(x.first))
            VF_CHECK(c, x.first.substr(0, 4) == "out.", x.first << " was made by " << tools::text(k.args) << " (" << what << ")");
    c.label(tool);
    c.label(what.empty() ? "can be carried out" : what);
    c.labelIf(there, "output existed");
    c.nontrivial = !what.empty();
}

// requests in one process -------------------------------------------------------------------------------------------------

struct Request {
    int kind = 0;
    std::string text, why;
    size_t source = 0;
    bool bad() const { return !why.empty(); }
};
const char* kinds[] = {"Select", "Select on a handle", "filter()", "Frame::filter", "decode", "span", "rows", "encode"};

struct Values : odc::api::SpanVisitor {
    std::ostream& o;
    explicit Values(std::ostream& o) : o(o) {}
    template <typename T>
    void list(const std::string& n, const T& v) {
        o << n << ":";
        for (auto& x : v)
            o << x << ",";
    }
    void operator()(const std::string& n, const std::set<long>& v) override { list(n, v); }
    void operator()(const std::string& n, const std::set<double>& v) override { list(n, v); }
    void operator()(const std::string& n, const std::set<std::string>& v) override { list(n, v); }
};

std::string show(const std::string& v) {
    return std::to_string(v.size()) + " bytes, " + v.substr(0, 400);
}

// what refuses to grow without end
struct Bounded : eckit::DataHandle {
    std::string bytes;
    void print(std::ostream& s) const override { s << "Bounded"; }
    eckit::Length openForRead() override { throw eckit::NotImplemented("openForRead", Here()); }
    void openForWrite(const eckit::Length&) override {}
    void openForAppend(const eckit::Length&) override {}
    long read(void*, long) override { throw eckit::NotImplemented("read", Here()); }
    long write(const void* p, long n) override {
        bytes.append(static_cast<const char*>(p), size_t(n));
        if (bytes.size() > 1000000)
            throw Failure{"encode() writes without end"};
        return n;
    }
    void close() override {}
};

std::string encodeSmall(const std::string& how) {
    using namespace odc::api;
    std::istringstream is(how);
    size_t limit = 0, rows = 0;
    std::string wrong;
    is >> limit >> rows >> wrong;
    std::vector<double> a, b;
    for (size_t i = 0; i < rows + 1; i++) {
        a.push_back(double(i) / 4);
        b.push_back(double(i % 3));
    }
    std::vector<ColumnInfo> cols(2);
    cols[0].name = "a", cols[0].type = DOUBLE, cols[0].decodedSize = 8;
    cols[1].name = "b", cols[1].type = INTEGER, cols[1].decodedSize = 8;
    std::vector<ConstStridedData> data;
    data.emplace_back(a.data(), rows, 8, 8);
    data.emplace_back(b.data(), wrong == "rows" ? rows + 1 : rows, 8, 8);
    if (wrong == "columns")
        cols.pop_back();
    if (wrong == "data")
        data.pop_back();
    if (wrong == "none")
        cols.clear(), data.clear();
    if (wrong == "size")
        cols[0].decodedSize = 7;
    Bounded out;
    try {
        encode(out, cols, data, {}, limit);
    }
    catch (Failure&) {
        throw;
    }
    catch (...) {
        if (!out.bytes.empty())
            throw Failure{"a refused encode() wrote " + std::to_string(out.bytes.size()) + " bytes"};
        throw;
    }
    return out.bytes;
}

std::string perform(const Request& q, const std::vector<std::string>& names, const std::vector<sql::Source>& sources) {
    const std::string& path  = names[q.source];
    const std::string& bytes = sources[q.source].bytes;
    std::ostringstream o;
    o.precision(17);
    auto rows = [&](odc::Select& sel) {
        odc::Select::iterator it = sel.begin(), end = sel.end();
        for (; it != end; ++it) {
            auto& md = it->columns();
            for (size_t k = 0; k < md.size(); k++) {
                if (md[k]->type() == odc::api::STRING)
                    o << it->string(int(k)) << ",";
                else
                    o << it->data(k) << ",";
            }
            o << "\n";
        }
    };
    switch (q.kind) {
        case 0: {
            odc::Select sel(q.text, eckit::PathName(path));
            rows(sel);
            break;
        }
        case 1: {
            eckit::MemoryHandle in(bytes.data(), bytes.size());
            in.openForRead();
            odc::Select sel(q.text, in);
            rows(sel);
            break;
        }
        case 2: {
            eckit::MemoryHandle in(bytes.data(), bytes.size()), out(1 << 16, true);
            in.openForRead();
            out.openForWrite(0);
            size_t n = odc::api::filter(q.text, in, out);
            o << n << ":" << std::string(static_cast<const char*>(out.data()), size_t(out.position()));
            break;
        }
        case 3: {
            odc::api::Reader reader(path, false);
            while (auto f = reader.next()) {
                auto x = f.filter(q.text);
                o << x.rowCount() << ":" << x.columnCount() << ":";
                for (auto& i : x.columnInfo())
                    o << i.name << ",";
            }
            break;
        }
        case 4: {
            odc::api::Reader reader(path, false);
            while (auto f = reader.next()) {
                size_t width = 0;
                for (auto& i : f.columnInfo())
                    if (i.name == q.text)
                        width = i.decodedSize;
                std::vector<char> data(f.rowCount() * std::max<size_t>(width, 8));
                std::vector<odc::api::StridedData> t;
                t.emplace_back(data.data(), f.rowCount(), std::max<size_t>(width, 8), std::max<size_t>(width, 8));
                odc::api::Decoder d({q.text}, t);
                d.decode(f);
                for (char ch : data)
                    o << int(static_cast<unsigned char>(ch)) << ",";
            }
            break;
        }
        case 5: {
            odc::api::Reader reader(path, false);
            while (auto f = reader.next()) {
                auto sp = f.span({q.text}, false);
                Values v(o);
                sp.visit(v);
            }
            break;
        }
        case 7:
            return encodeSmall(q.text);
        default: {
            odc::Reader reader(path);
            size_t k = 0;
            for (odc::Reader::iterator it = reader.begin(), end = reader.end(); it != end; ++it) {
                if (q.text.empty())
                    k = 0;
                else
                    k = it->columns().columnIndex(q.text);
                o << it->data(k) << ",";
            }
        }
    }
    return o.str();
}

void history(Ctx& c) {
    std::vector<sql::Source> sources;
    std::vector<std::string> names;
    size_t n = size_t(c.g.range(1, 2));
    for (size_t i = 0; i < n; i++) {
        sql::SourceOpts o;
        o.maxCols = 4;
        o.maxRows = 6;
        sources.push_back(sql::genSource(c.g, o));
        names.push_back(c.tmp + "/in" + std::to_string(i) + ".odb");
        writeFile(names.back(), sources.back().bytes);
        c.artifact("in" + std::to_string(i) + ".odb", sources.back().bytes);
    }
    std::vector<Request> rs;
    size_t m = size_t(c.g.range(2, c.thorough ? 8 : 5));
    for (size_t i = 0; i < m; i++) {
        Request q;
        q.source     = c.g.index(n);
        const auto& s = sources[q.source];
        q.kind       = int(c.g.weighted({4, 2, 3, 3, 1, 1, 1, 1}));
        bool bad     = c.g.chance(1, 2);
        if (q.kind < 4) {
            sql::QueryOpts o;
            sql::Query x = sql::genQuery(c.g, s, o);
            if (bad)
                q.text = spoiled(c.g, s, x, "", q.why);
            else
                q.text = x.text();
        }
        else if (q.kind == 7) {
            size_t rows  = size_t(c.g.range(1, 30));
            size_t limit = size_t(c.g.range(1, 40));
            std::string wrong;
            if (bad) {
                wrong = c.g.pick<const char*>({"limit", "rows", "columns", "data", "none", "size"});
                if (wrong == "limit")
                    limit = 0;
                q.why = "encode: " + wrong;
            }
            q.text = std::to_string(limit) + " " + std::to_string(rows) + " " + wrong;
        }
        else {
            q.text = bad ? std::string("nosuch") : s.cols()[c.g.index(s.cols().size())].name;
            q.why  = bad ? "unknown column" : "";
        }
        rs.push_back(q);
        c.note(std::string(kinds[q.kind]) + " of in" + std::to_string(q.source) + ": " + q.text + (bad ? "   (" + q.why + ")" : ""));
        c.label(bad ? q.why : "can be carried out");
        c.label(kinds[q.kind]);
    }
    for (size_t i = 0; i < n; i++)
        for (auto& f : sources[i].frames)
            c.note("in" + std::to_string(i) + ": " + gen::describe(f, 6));
    // each on its own
    std::vector<std::string> alone(rs.size());
    size_t bads = 0;
    for (size_t i = 0; i < rs.size(); i++) {
        std::string err;
        alone[i] = tools::lib(c.tmp, [&] { return "=" + perform(rs[i], names, sources); }, &err);
        if (rs[i].bad()) {
            bads++;
            VF_CHECK(c, alone[i].empty() && !err.empty(), kinds[rs[i].kind] << " succeeds: " << rs[i].text << " (" << rs[i].why << "), giving " << show(alone[i]));
        }
        else if (!err.empty())
            alone[i] = "!";
    }
    // all of them in one process
    std::string all = tools::lib(c.tmp, [&] {
        for (size_t i = 0; i < rs.size(); i++) {
            std::string got;
            try {
                got = "=" + perform(rs[i], names, sources);
            }
            catch (Failure&) {
                throw;
            }
            catch (std::exception& e) {
                got = "!";
            }
            if (rs[i].bad()) {
                if (got != "!")
                    throw Failure{"request " + std::to_string(i) + " succeeds after others (" + rs[i].why + "): " + rs[i].text};
            }
            else if (got != alone[i])
                throw Failure{"request " + std::to_string(i) + " (" + rs[i].text + ") gives another result after the others: " + show(got) + " instead of " + show(alone[i])};
        }
        return std::string("ok");
    });
    VF_CHECK(c, all == "ok", "no result");
    c.nontrivial = bads > 0 && bads < rs.size();
}

// KF1: a string without its closing quote
bool openString(Ctx& c) {
    ref::Frame f;
    ref::Col x;
    x.name  = "s";
    x.type  = ref::STRING;
    x.width = 8;
    ref::Cell a;
    a.s     = "ab";
    x.cells = {a};
    f.cols  = {x};
    f.nrows = 1;
    writeFile(c.tmp + "/in.odb", gen::encodePlain(f));
    try {
        RunResult r = tools::odc({"sql", "select s where s = 'ab", "-i", "in.odb"}, c.tmp);
        return r.status == 0;
    }
    catch (Failure&) {
        return true;
    }
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C31";
    s.rule =
        "command lines of all tools made impossible in one respect (arguments missing or too many, inputs that do not exist or are "
        "not ODB-2, outputs that cannot be made, unknown columns, malformed assignments, types, templates and queries), and histories "
        "of possible and impossible requests in one process, each compared with itself in a process of its own; non-trivial: an "
        "impossible command line, or a history with requests of both kinds";
    s.subs.push_back({"command lines", commands, 4000, 150000});
    s.subs.push_back({"histories", history, 800, 40000});
    s.findings.push_back({"KF1", openString});
    return vf::main(argc, argv, s);
}
