// C30: settings change how data is stored, never the data
#include "capi.h"
#include "rows.h"
#include "sql.h"
#include "tools.h"

#include <dirent.h>
#include <sys/stat.h>
#include <cstdlib>

#include "odc/odccapi.h"

using namespace vf;

namespace {

const char* VARS[] = {"ODC_HEADER_BUFFER_SIZE", "ODC_SETVBUFFER_SIZE", "ODC_INTEGERS_AS_DOUBLES", "ODC_DEFAULT_CODEC",
                      "ODB_ROWS_BUFFER_SIZE", "ODBAPI_MAX_OPEN_FILES", "ODC_ENABLE_WRITING_LONG_STRING_CODEC",
                      "ODC_USE_AIO", "odc_NAN_IS_OK"};
using Env = std::map<std::string, std::string>;

// the settings for as long as this exists
struct Set {
    explicit Set(const Env& e) {
        clear();
        for (auto& kv : e)
            setenv(kv.first.c_str(), kv.second.c_str(), 1);
    }
    ~Set() { clear(); }
    static void clear() {
        for (auto* v : VARS)
            unsetenv(v);
    }
};

std::string text(const Env& e) {
    std::string s;
    for (auto& kv : e)
        s += (s.empty() ? "" : " ") + kv.first + "=" + quote(kv.second, 100);
    return s.empty() ? "no settings" : s;
}

std::string codecs(Src& g) {
    std::map<std::string, std::vector<std::string>> legal{{"REAL", {"short_real", "short_real2", "long_real"}},
                                                          {"DOUBLE", {"long_real"}},
                                                          {"INTEGER", {"int32"}},
                                                          {"BITFIELD", {"int32"}},
                                                          {"STRING", {"chars", "int8_string", "int16_string"}}};
    std::string s;
    for (auto& kv : legal)
        if (g.chance(1, 2)) {
            const auto& name = kv.second[g.index(kv.second.size())];
            const char* sp   = g.chance(1, 4) ? " " : "";
            s += (s.empty() ? "" : ",") + (g.chance(1, 3) ? std::string(sp) : std::string()) + kv.first + sp + ":" + sp + name;
        }
    return s;
}

Env genEnv(Src& g) {
    Env e;
    for (int i = 0; i < 50 && e.empty(); i++) {
        if (g.chance(1, 3))
            e["ODC_HEADER_BUFFER_SIZE"] = g.chance(1, 2) ? g.pick<const char*>({"0", "1", "56", "57", "58", "59", "64", "100"})
                                                         : std::to_string(g.range(0, 700));
        if (g.chance(1, 5))
            e["ODC_SETVBUFFER_SIZE"] = std::to_string(g.range(0, 5000));
        if (g.chance(1, 3))
            e["ODC_INTEGERS_AS_DOUBLES"] = g.pick<const char*>({"0", "1", "off", "true"});
        if (g.chance(1, 3)) {
            std::string s = codecs(g);
            if (!s.empty())
                e["ODC_DEFAULT_CODEC"] = s;
        }
        if (g.chance(1, 3))
            e["ODB_ROWS_BUFFER_SIZE"] = std::to_string(g.range(1, g.chance(1, 3) ? 100000 : 12));
        if (g.chance(1, 3))
            e["ODBAPI_MAX_OPEN_FILES"] = std::to_string(g.range(1, 4));
        if (g.chance(1, 3))
            e["ODC_ENABLE_WRITING_LONG_STRING_CODEC"] = "1";
        if (g.chance(1, 6))
            e["ODC_USE_AIO"] = "1";
        if (g.chance(1, 6))
            e["odc_NAN_IS_OK"] = "1";
    }
    return e;
}

std::map<std::string, std::string> files(const std::string& dir) {
    std::map<std::string, std::string> m;
    DIR* d = opendir(dir.c_str());
    if (!d)
        throw Failure{"cannot list " + dir};
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..")
            m[n] = readFile(dir + "/" + n);
    }
    closedir(d);
    return m;
}

sql::Source source(Ctx& c, size_t rows = 0, const std::string& prefix = "") {
    sql::SourceOpts o;
    o.maxRows = c.g.chance(1, 8) ? 300 : 12;
    o.maxCols = c.g.chance(1, 8) ? 30 : 5;
    o.rows    = rows;
    o.prefix  = prefix;
    o.few     = c.g.chance(1, 2);
    o.vary = o.types = o.widths = o.bits = c.g.chance(1, 2);
    return sql::genSource(c.g, o);
}

struct Job {
    std::vector<std::string> args;
    std::map<std::string, std::string> in;
};

Job genJob(Ctx& c, int only) {
    Job j;
    Src& g         = c.g;
    sql::Source s  = source(c);
    j.in["in.odb"] = s.bytes;
    for (auto& f : s.frames)
        c.note(gen::describe(f, 6));
    const ref::Col* num = nullptr;
    for (auto& k : s.cols())
        if (k.type != ref::STRING && !num)
            num = &k;
    const auto& first = s.cols()[0];
    int kind          = only < 0 ? int(g.index(13)) : only;
    if (!num && (kind == 3 || kind == 9 || kind == 10))
        kind = 0;
    switch (kind) {
        case 0:
            j.args = {"compact", "in.odb", "out.odb"};
            break;
        case 1:
            j.args = {"fixrowsize", "in.odb", "out.odb"};
            break;
        case 2:
            j.args = {"set", first.type == ref::STRING ? first.name + "='ab'" : first.name + "=1", "in.odb", "out.odb"};
            break;
        case 3:
            j.args = {"mdset", num->name + ":" + (num->type == ref::REAL ? "DOUBLE" : "REAL"), "in.odb", "out.odb"};
            break;
        case 4:
            j.args = {"sql", "select *", "-i", "in.odb", "-f", "odb", "-o", "out.odb"};
            break;
        case 5:
            j.args = {"sql", "select * into \"out.odb\" from \"in.odb\""};
            break;
        case 6:
            j.args = {"sql", "select *", "-i", "in.odb"};
            break;
        case 7: {
            bool bits     = g.chance(1, 2);
            std::string t = std::string("a:INTEGER,b:REAL,c:STRING,d:DOUBLE") + (bits ? ",e:BITFIELD[x:3;y:9]" : "") + "\n";
            size_t n      = 1 + g.index(g.chance(1, 4) ? 400 : 20);
            for (size_t i = 0; i < n; i++)
                t += (g.chance(1, 8) ? std::string("NULL") : std::to_string(g.range(-1000, 100000))) + "," + std::to_string(g.range(0, 99)) +
                     ".5," + g.pick<const char*>({"abc", "defghij", "longer than eight"}) + "," +
                     (g.chance(1, 8) ? std::string("NULL") : std::to_string(g.range(0, 99)) + ".1") + (bits ? "," + std::to_string(g.range(0, 4000)) : "") + "\n";
            j.in   = {{"in.txt", t}};
            j.args = {"import", "in.txt", "out.odb"};
            if (g.chance(1, 3))
                j.args = {"import", "-sql", "select a,c", "in.txt", "out.odb"};
            break;
        }
        case 8: {
            sql::Source a     = source(c, s.rows(), "x");
            j.in["other.odb"] = a.bytes;
            j.args            = {"merge", "-o", "out.odb", "in.odb", "other.odb"};
            break;
        }
        case 9:
            j.args = {"split", "in.odb", "out.{" + num->name + "}.odb"};
            break;
        case 10:
            j.args = {"sql", "select " + num->name + ", count(*)", "-i", "in.odb", "-f", "odb", "-o", "out.odb"};
            if (g.chance(1, 2))
                j.args[1] = "select distinct " + num->name + " order by " + num->name;
            break;
        case 11:
            j.args = {g.pick<const char*>({"count", "header", "ls"}), "in.odb"};
            break;
        default:
            j.args = {"sql", "select *", "-i", "in.odb", "-f", g.pick<const char*>({"ascii", "wide"}), "-o", "out.txt"};
    }
    return j;
}

// REAL columns to single precision, which is what they hold
std::vector<ref::Frame> table(Ctx& c, const std::string& bytes, const std::string& what) {
    try {
        auto v = ref::decodeAll(bytes);
        for (auto& f : v)
            for (auto& k : f.cols)
                if (k.type == ref::REAL)
                    for (auto& x : k.cells)
                        if (!x.missing)
                            x.d = double(ref::f32(x.d));
        return v;
    }
    catch (ref::FormatError& e) {
        c.fail(what + " is not valid: " + e.what());
    }
}

RunResult runIn(Ctx& c, const Job& j, const std::string& dir, const Env& e, std::map<std::string, std::string>& out) {
    mkdir(dir.c_str(), 0755);
    for (auto& f : j.in)
        writeFile(dir + "/" + f.first, f.second);
    Set s(e);
    RunResult r = tools::odc(j.args, dir);
    out         = files(dir);
    for (auto& f : j.in) {
        VF_CHECK(c, out[f.first] == f.second, "the input was modified");
        out.erase(f.first);
    }
    return r;
}

// more rows than the writers keep unless told otherwise
constexpr int LARGE = 100;

Job genLarge(Ctx& c) {
    Job j;
    Src& g         = c.g;
    const size_t n = size_t(g.range(9000, 30000)), wide = size_t(g.range(1, 3)), span = size_t(g.range(1, 70000));
    std::string t;
    std::vector<int> kinds;
    for (size_t i = 0; i < wide; i++) {
        kinds.push_back(int(g.index(4)));
        t += (i ? "," : "") + std::string(1, char('a' + i)) + ":" + (const char*[]){"DOUBLE", "INTEGER", "STRING", "REAL"}[kinds[i]];
    }
    t += "\n";
    for (size_t r = 0; r < n; r++)
        for (size_t i = 0; i < wide; i++) {
            size_t v = (r * 7919 + i) % span;
            char b[40];
            if (kinds[i] == 0)
                snprintf(b, sizeof(b), "%.17g", 1. / double(v + 3));
            else if (kinds[i] == 1)
                snprintf(b, sizeof(b), "%zu", v * 30011);
            else if (kinds[i] == 2)
                snprintf(b, sizeof(b), "s%zu", v % 9973);
            else
                snprintf(b, sizeof(b), "%zu.25", v);
            t += b;
            t += i + 1 < wide ? "," : "\n";
        }
    j.in   = {{"in.txt", t}};
    j.args = {"import", "in.txt", "out.odb"};
    c.note(std::to_string(n) + " rows of " + t.substr(0, t.find('\n')));
    return j;
}

void commands(Ctx& c, int only) {
    Job j = only == LARGE ? genLarge(c) : genJob(c, only);
    Env e = genEnv(c.g);
    if (only == LARGE)
        e["ODB_ROWS_BUFFER_SIZE"] = std::to_string(c.g.range(c.g.chance(1, 4) ? 500 : 10001, 40000));
    else if (only >= 0)
        e = {{"ODC_HEADER_BUFFER_SIZE", std::to_string(c.g.range(57, 700))}};
    c.note(text(e) + ": " + tools::text(j.args));
    for (auto& f : j.in)
        c.artifact(f.first, f.second);
    std::map<std::string, std::string> want, got;
    Env base;
    if (e.count("odc_NAN_IS_OK"))
        base["odc_NAN_IS_OK"] = "1";
    RunResult w = runIn(c, j, c.tmp + "/a", base, want);
    RunResult r = runIn(c, j, c.tmp + "/b", e, got);
    VF_CHECK(c, (r.status == 0) == (w.status == 0), tools::text(j.args) << " ends with " << r.status << ", without the settings with " << w.status
                                                                       << ": " << (r.status ? r.err : w.err).substr(0, 600));
    c.label(j.args[0]);
    for (auto& kv : e)
        c.label(kv.first);
    if (w.status != 0) {
        c.label("fails in either case");
        return;
    }
    VF_CHECK(c, r.out == w.out, tools::text(j.args) << " prints " << quote(r.out, 400) << ", without the settings " << quote(w.out, 400));
    std::string nw, ng;
    for (auto& f : want)
        nw += " " + f.first;
    for (auto& f : got)
        ng += " " + f.first;
    VF_CHECK(c, nw == ng, tools::text(j.args) << " writes" << ng << ", without the settings" << nw);
    bool differ = false;
    for (auto& f : want) {
        if (f.first.size() > 4 && f.first.substr(f.first.size() - 4) == ".odb") {
            c.artifact("default." + f.first, f.second);
            c.artifact("setting." + f.first, got[f.first]);
            differ        = differ || f.second != got[f.first];
            auto a        = table(c, f.second, f.first + " without the settings");
            auto b        = table(c, got[f.first], f.first);
            std::string d = gen::diffRows(a, b);
            VF_CHECK(c, d.empty(), f.first << ": " << d);
        }
        else
            VF_CHECK(c, got[f.first] == f.second, f.first << " differs: " << quote(got[f.first], 300) << ", without the settings " << quote(f.second, 300));
    }
    c.labelIf(differ, "stored in another way");
    c.nontrivial = !want.empty() || !w.out.empty();
}

// settings that cannot be followed are an error
void illegal(Ctx& c) {
    sql::Source s  = source(c);
    Job j;
    j.in["in.odb"] = s.bytes;
    j.args         = {"sql", "select *", "-i", "in.odb", "-f", "odb", "-o", "out.odb"};
    Env e;
    switch (c.g.index(3)) {
        case 0:
            e["ODB_ROWS_BUFFER_SIZE"] = "0";
            break;
        case 1:
            e["ODC_DEFAULT_CODEC"] = c.g.pick<const char*>({"REAL", "REAL:no_such_codec,DOUBLE:no_such_codec,INTEGER:no_such_codec,BITFIELD:no_such_codec,STRING:no_such_codec", "NOTYPE:int32", "REAL:long_real:x", ":"});
            break;
        default:
            e["ODC_HEADER_BUFFER_SIZE"] = "abc";
    }
    c.note(text(e) + ": " + tools::text(j.args));
    c.artifact("in.odb", s.bytes);
    std::map<std::string, std::string> want, got;
    runIn(c, j, c.tmp + "/b", Env(), want);
    RunResult r = runIn(c, j, c.tmp + "/a", e, got);
    if (e.count("ODB_ROWS_BUFFER_SIZE"))
        VF_CHECK(c, r.status != 0, tools::text(j.args) << " succeeds without room for any row");
    if (r.status == 0) {
        std::string d = gen::diffRows(table(c, want["out.odb"], "out.odb without the settings"), table(c, got["out.odb"], "out.odb"));
        VF_CHECK(c, d.empty(), d);
    }
    c.label(r.status ? "refused" : "followed");
    c.nontrivial = s.rows() > 0;
}

// the programming interfaces
void library(Ctx& c, const gen::Opts& o) {
    ref::Frame f   = gen::genTable(c.g, o);
    capi::Layout l = capi::genLayout(c.g, f);
    bool longs     = c.g.chance(1, 2);
    Env e          = genEnv(c.g);
    bool calls     = c.g.chance(1, 2);
    unsigned header = unsigned(c.g.range(0, 600)), setv = unsigned(c.g.range(0, 5000));
    bool rowWriter = c.g.chance(1, 3);
    size_t buffer  = size_t(c.g.range(1, 20));
    if (c.g.chance(1, 3)) {  // a longer header
        size_t n = size_t(c.g.range(1, 8));
        for (size_t i = 0; i < n; i++)
            f.props["property " + std::to_string(i)] = std::string(size_t(c.g.range(0, 200)), char('a' + i));
    }
    ref::Frame rw = f;  // as the row writer stores it
    if (rowWriter) {
        rw.props.clear();
        for (auto& x : rw.cols) {
            x.missing = x.type == ref::BITFIELD ? ref::MISSING_INT : ref::defaultMissing(x.type);
            if (x.type == ref::STRING) {
                size_t w = 8;
                for (auto& y : x.cells)
                    w = std::max(w, (y.s.size() + 7) / 8 * 8);
                x.width = w;
            }
            for (auto& y : x.cells)
                if (y.missing && x.type == ref::BITFIELD)
                    y.missing = false, y.i = 0;
        }
    }
    c.note(gen::describe(f, 8));
    c.note(text(e) + (calls ? ", odb_set_headerBufferSize(" + std::to_string(header) + ")" : "") + (rowWriter ? ", row writer" : ""));
    auto encode = [&](bool settings) {
        Set s(settings ? e : Env());
        return tools::lib(c.tmp, [&] {
            if (settings && calls) {
                odb_set_headerBufferSize(header);
                odb_set_setvbufferSize(setv);
                if (odb_get_headerBufferSize() != header || odb_get_setvbufferSize() != setv)
                    throw Failure{"the sizes that have been set are not returned"};
            }
            capi::setLongs(longs);
            if (!rowWriter)
                return capi::encode(f, l);
            std::string p = c.tmp + "/rows.odb";
            std::vector<rows::Step> steps{{rows::Step::HEADER, rw, {}}, {rows::Step::ROWS, rw, {}}};
            rows::write(p, steps, buffer, false);
            return readFile(p);
        });
    };
    std::string want = encode(false), got = encode(true);
    c.artifact("default.odb", want);
    c.artifact("setting.odb", got);
    bool codec = e.count("ODC_DEFAULT_CODEC") || e.count("ODC_ENABLE_WRITING_LONG_STRING_CODEC");
    if (!codec)
        VF_CHECK(c, got == want, "other bytes, although no setting concerns the codecs");
    auto a        = table(c, want, "the encoding without the settings");
    auto b        = table(c, got, "the encoding");
    std::string d = gen::diffRows(a, b);
    VF_CHECK(c, d.empty(), d);
    VF_CHECK(c, a.at(0).props == b.at(0).props, "the properties differ");
    // and read with the settings
    auto decode = [&](bool settings) {
        Set s(settings ? e : Env());
        return tools::lib(c.tmp, [&] {
            if (settings && calls)
                odb_set_setvbufferSize(setv);
            capi::setLongs(longs);
            std::ostringstream os;
            for (auto& fr : capi::readAll(got)) {
                for (auto& k : fr.cols) {
                    os << k.name << ":" << k.type << ":" << k.width;
                    for (auto& x : k.cells)
                        os << "|" << ref::cellText(k, x);
                    os << "\n";
                }
            }
            return os.str();
        });
    };
    std::string r0 = decode(false), r1 = decode(true);
    VF_CHECK(c, r0 == r1, "the settings change what is read");
    // and it is the table
    std::string err = tools::lib(c.tmp, [&] {
        capi::setLongs(longs);
        auto v = capi::readAll(got);
        for (auto& fr : v)
            for (auto& k : fr.cols)
                if (k.type == ref::REAL)
                    for (auto& x : k.cells)
                        if (!x.missing)
                            x.d = double(ref::f32(x.d));
        return gen::diffRows(b, v, gen::Cmp{true, true, true, false, true});
    });
    VF_CHECK(c, err.empty(), "the library reads another table than the reference decoder: " << err);
    c.labelIf(want != got, "stored in another way");
    c.labelIf(rowWriter, "row writer");
    for (auto& x : b.at(0).cols)
        c.labelIf(x.codec == "long_constant_string", "long constant string");
    c.nontrivial = f.nrows > 0;
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C30";
    s.rule =
        "random settings (sizes of the header, row and stream buffers, number of open files, default codecs, long string "
        "constants, integers as doubles, asynchronous output) while tools import, rewrite, select, merge, split and edit random "
        "files and while the interfaces encode and decode; compared with the same without them; non-trivial: there is output";
    s.subs.push_back({"commands", [](Ctx& c) { commands(c, -1); }, 1600, 40000});
    s.subs.push_back({"rewritten headers", [](Ctx& c) { commands(c, 3); }, 700, 20000});
    s.subs.push_back({"large buffers", [](Ctx& c) { commands(c, LARGE); }, 60, 1500});
    s.subs.push_back({"illegal", illegal, 300, 6000});
    s.subs.push_back({"library", [](Ctx& c) {
                          gen::Opts o;
                          o.maxCols = c.g.chance(1, 6) ? 40 : 6;
                          library(c, o);
                      }, 1200, 30000});
    return vf::main(argc, argv, s);
}
