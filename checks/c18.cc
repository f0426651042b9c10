// C18: splitting partitions the rows of the input by key
#include "capi.h"
#include "sql.h"
#include "tools.h"

#include <algorithm>
#include <cctype>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

#include "odc/DispatchingWriter.h"
#include "odc/Reader.h"
#include "odc/tools/SplitTool.h"

using namespace vf;

namespace {

std::string trim(const std::string& s) {
    size_t a = 0, b = s.size();
    while (a < b && strchr(" \t\n", s[a]))
        a++;
    while (b > a && strchr(" \t\n", s[b - 1]))
        b--;
    return s.substr(a, b - a);
}

struct Key {
    bool str = false, integer = false;
    std::string s;
    double d = 0;
};

// queries (-sort) replace the missing values which columns declare by those of their types
Key keyOf(const ref::Col& c, const ref::Cell& x, bool sorted) {
    Key k;
    k.str = c.type == ref::STRING;
    if (k.str) {
        std::string t = trim(x.s);
        for (char ch : t)
            k.s += ch == '/' ? std::string("__SLASH__") : std::string(1, ch);
    }
    else
        k.d = x.missing ? (sorted ? (c.isReal() ? -2147483647. : 2147483647.) : c.missing) : c.isReal() ? x.d : double(x.i);
    k.integer = !k.str && k.d == std::floor(k.d) && std::fabs(k.d) <= 2147483647;
    return k;
}

// does a field of a file's name state the key?
bool names(const std::string& field, const Key& k, const ref::Col& c, bool exactly) {
    if (k.str)
        return field == k.s;
    char* e;
    double d = strtod(field.c_str(), &e);
    if (field.empty() || *e)
        return false;
    if (exactly || c.type != ref::REAL)
        return d == k.d && (!k.integer || field.find_first_of(".e") == std::string::npos);
    return ref::f32(d) == ref::f32(k.d);
}

std::vector<std::string> list(const std::string& dir) {
    std::vector<std::string> v;
    DIR* d = opendir(dir.c_str());
    while (dirent* e = d ? readdir(d) : nullptr)
        if (e->d_name[0] != '.')
            v.push_back(e->d_name);
    if (d)
        closedir(d);
    std::sort(v.begin(), v.end());
    return v;
}

std::vector<std::string> fields(const std::string& name) {
    std::vector<std::string> v;
    size_t a = 0;
    for (size_t i = 0; i <= name.size(); i++)
        if (i == name.size() || name[i] == '=') {
            v.push_back(name.substr(a, i - a));
            a = i + 1;
        }
    return v;
}

sql::Source source(Ctx& c, bool sorted) {
    sql::SourceOpts o;
    o.maxRows  = c.g.chance(1, 8) ? 100 : 10;
    o.dupShort = c.g.chance(1, 4);
    o.binary   = !sorted && c.g.chance(1, 4);
    o.few      = c.g.chance(1, 2);
    return sql::genSource(c.g, o);
}

void split(Ctx& c) {
    bool sorted   = c.g.chance(1, 6);
    sql::Source s = source(c, sorted);
    for (auto& f : s.frames)
        c.note(gen::describe(f, 30));
    c.artifact("in.odb", s.bytes);
    writeFile(c.tmp + "/in.odb", s.bytes);
    // the key
    std::vector<std::string> cols;
    std::vector<std::string> refs;
    size_t nk = c.g.chance(1, 3) ? size_t(c.g.range(2, 4)) : 1;
    for (size_t i = 0; i < nk; i++) {
        const ref::Col* k = nullptr;
        for (int t = 0; t < 10 && !k; t++) {
            k        = &c.g.pick(s.cols());
            bool bad = false;
            for (auto& n : cols)
                bad = bad || n == k->name;
            // what separates the fields of the names here (and names of files have their limits)
            for (auto& f : s.frames)
                for (auto& x : f.find(k->name)->cells) {
                    bad = bad || (f.find(k->name)->type == ref::STRING && (x.s.size() > 40 || x.s.find('=') != std::string::npos));
                    // (what the rows have for missing)
                    bad = bad || (f.find(k->name)->type == ref::BITFIELD && !x.missing && x.i == 2147483647);
                }
            if (bad)
                k = nullptr;
        }
        if (!k)
            break;
        cols.push_back(k->name);
        refs.push_back(sql::refName(c.g, s, k->name));
    }
    if (cols.empty())
        c.discard();
    bool subdir       = c.g.chance(1, 3);
    std::string base  = subdir ? c.tmp + "/d" : c.tmp + "/d", tmpl = subdir ? base + "/o" : "d/o";
    for (auto& r : refs)
        tmpl += "={" + r + "}";
    tmpl += "=.odb";
    mkdir(base.c_str(), 0755);
    // --- split
    int maxOpen = int(c.g.pick({0, 1, 2, 3, 7}));
    bool verify = c.g.chance(1, 2), tool = c.g.chance(2, 3) || sorted;
    int repeat  = c.g.chance(1, 6) ? 2 : 1;  // over the files of the first time
    if (tool) {
        std::vector<std::string> a{"split"};
        if (!verify)
            a.push_back("-no_verification");
        if (maxOpen) {
            a.push_back("-maxopenfiles");
            a.push_back(std::to_string(maxOpen));
        }
        if (sorted)
            a.push_back("-sort");
        a.push_back("in.odb");
        a.push_back(tmpl);
        c.note(tools::text(a));
        for (int i = 0; i < repeat; i++) {
            RunResult r = tools::odc(a, c.tmp);
            VF_CHECK(c, r.status == 0, tools::text(a) << " fails: " << r.err.substr(0, 800));
        }
    }
    else {
        c.note("DispatchingWriter of " + std::to_string(maxOpen) + " files: " + tmpl);
        tools::lib(c.tmp, [&] {
            for (int i = 0; i < repeat; i++) {
                odc::Reader in(c.tmp + "/in.odb");
                odc::DispatchingWriter out(tmpl, maxOpen ? maxOpen : 200);
                odc::DispatchingWriter::iterator o(out.begin());
                o->pass1(in.begin(), in.end());
            }
            return std::string();
        });
    }
    // --- what must be in which file
    std::vector<std::string> files = list(base);
    struct Row {
        size_t frame, row;
    };
    std::vector<std::vector<Row>> want(files.size());
    for (size_t i = 0; i < s.frames.size(); i++)
        for (size_t r = 0; r < s.frames[i].nrows; r++) {
            std::string key;
            int in = -1;
            for (size_t kk = 0; kk < 2 * files.size(); kk++) {
                // REAL keys are those in single precision, unless there is a file of exactly that name
                size_t k = kk % files.size();
                if (kk == files.size() && in != -1)
                    break;
                auto v = fields(files[k]);
                VF_CHECK(c, v.size() == cols.size() + 2 && v.front() == "o" && v.back() == ".odb", "strange file " << quote(files[k]));
                bool ok = true;
                for (size_t j = 0; ok && j < cols.size(); j++) {
                    auto& col = *s.frames[i].find(cols[j]);
                    ok        = names(v[j + 1], keyOf(col, col.cells[r], sorted), col, kk < files.size());
                }
                if (ok && in == -1)
                    in = int(k);
                else
                    VF_CHECK(c, !ok, "files " << quote(files[size_t(in)]) << " and " << quote(files[k]) << " for the same key");
            }
            if (in == -1) {
                for (auto& n : cols)
                    key += " " + ref::cellText(*s.frames[i].find(n), s.frames[i].find(n)->cells[r]);
                std::string all;
                for (auto& f : files)
                    all += " " + quote(f);
                c.fail("no file for the key" + key + " among" + all);
            }
            want[size_t(in)].push_back(Row{i, r});
        }
    for (size_t k = 0; k < files.size(); k++) {
        std::string bytes = readFile(base + "/" + files[k]);
        c.artifact("out" + std::to_string(k) + ".odb", bytes);
        std::vector<ref::Frame> out;
        try {
            out = ref::decodeAll(bytes);
        }
        catch (ref::FormatError& e) {
            c.fail(quote(files[k]) + " is not valid: " + e.what());
        }
        size_t n = 0;
        for (auto& f : out)
            for (size_t r = 0; r < f.nrows; r++, n++) {
                VF_CHECK(c, n < want[k].size(), quote(files[k]) << " has more than its " << want[k].size() << " rows");
                auto& w  = want[k][n];
                auto& sf = s.frames[w.frame];
                std::string at = quote(files[k]) + ", row " + std::to_string(n) + " (row " + std::to_string(w.row) + " of frame " + std::to_string(w.frame) + "): ";
                VF_CHECK(c, f.cols.size() == sf.cols.size(), at << f.cols.size() << " columns instead of " << sf.cols.size());
                for (size_t j = 0; j < f.cols.size(); j++) {
                    auto &a = sf.cols[j], &b = f.cols[j];
                    VF_CHECK(c, a.name == b.name, at << "column " << j << " named " << b.name << " instead of " << a.name);
                    VF_CHECK(c, a.type == b.type, at << "type of " << a.name << " " << ref::typeName(b.type) << " instead of " << ref::typeName(a.type));
                    bool bits = a.bits.size() == b.bits.size();
                    for (size_t m = 0; bits && m < a.bits.size(); m++)
                        bits = a.bits[m].name == b.bits[m].name && a.bits[m].size == b.bits[m].size;
                    VF_CHECK(c, bits, at << "members of " << a.name);
                    std::string why;
                    auto null = [](const ref::Col& x, const ref::Cell& y) {
                        return y.missing || (x.type != ref::STRING && (x.isReal() ? y.d == -2147483647. : y.i == 2147483647));
                    };
                    if (sorted && null(a, a.cells[w.row]) && null(b, b.cells[r]))
                        continue;
                    VF_CHECK(c, ref::sameCell(a, a.cells[w.row], b, b.cells[r], &why),
                             at << a.name << " " << ref::cellText(b, b.cells[r]) << " instead of " << ref::cellText(a, a.cells[w.row]) << " " << why);
                }
            }
        VF_CHECK(c, n == want[k].size(), quote(files[k]) << " has " << n << " rows instead of " << want[k].size());
    }
    VF_CHECK(c, readFile(c.tmp + "/in.odb") == s.bytes, "the input was modified");
    c.labelIf(sorted, "-sort");
    c.labelIf(tool, "odc split");
    c.labelIf(!tool, "DispatchingWriter");
    c.labelIf(maxOpen && size_t(maxOpen) < files.size(), "more files than may be open");
    c.labelIf(files.size() > 1, "several files");
    c.labelIf(cols.size() > 1, "two key columns");
    c.labelIf(s.frames.size() > 1 && !s.sameShape, "columns change");
    for (auto& n : cols)
        c.label(std::string("key ") + ref::typeName(s.frames[0].find(n)->type));
    c.nontrivial = files.size() > 1 && (cols.size() > 1 || s.frames.size() > 1 || (maxOpen && size_t(maxOpen) < files.size()));
}

// the parts of the file sorted one by one
void chunks(Ctx& c) {
    sql::SourceOpts o;
    o.maxFrames   = 8;
    sql::Source s = sql::genSource(c.g, o);
    for (auto& f : s.frames)
        c.note(gen::describe(f, 3));
    writeFile(c.tmp + "/in.odb", s.bytes);
    size_t max = size_t(c.g.pick<int>({1, 100, 300, 1000, 100000}));
    std::string r = tools::lib(c.tmp, [&] {
        std::ostringstream out;
        for (auto& x : odc::tool::SplitTool::getChunks(c.tmp + "/in.odb", max))
            out << (long long)x.first << " " << (long long)x.second << " ";
        return out.str();
    });
    c.note("at most " + std::to_string(max) + " bytes: " + r);
    std::istringstream in(r);
    size_t at = 0, n = 0, a, b;
    std::set<size_t> starts;
    for (auto& f : s.frames)
        starts.insert(f.offset);
    while (in >> a >> b) {
        VF_CHECK(c, a == at && starts.count(a) && b > 0, "the parts " << r << " do not tile the file of " << s.bytes.size() << " bytes");
        at = a + b;
        n++;
    }
    VF_CHECK(c, at == s.bytes.size(), "the parts " << r << " do not cover the file of " << s.bytes.size() << " bytes");
    c.nontrivial = n > 1;
}

void refused(Ctx& c) {
    sql::SourceOpts o;
    o.dupShort    = true;
    sql::Source s = sql::genSource(c.g, o);
    writeFile(c.tmp + "/in.odb", s.bytes);
    for (auto& f : s.frames)
        c.note(gen::describe(f, 3));
    std::vector<std::string> a{"split", "in.odb", ""};
    std::string what;
    switch (c.g.index(5)) {
        case 0:
            a[2] = "o={nosuch}.odb";
            what = "unknown column";
            break;
        case 1:
            a[2] = "o.odb";
            what = "no column";
            break;
        case 2:
            a[2] = "o={" + s.cols()[0].name;
            what = "unbalanced template";
            break;
        case 3: {
            for (auto& x : s.cols())
                for (auto& y : s.cols())
                    if (&x != &y && gen::shortName(x.name) == gen::shortName(y.name))
                        a[2] = "o={" + gen::shortName(x.name) + "}.odb";
            if (a[2].empty())
                c.discard();
            what = "ambiguous short name";
            break;
        }
        default: {
            // without the key in a later frame
            ref::Frame f = s.frames.back();
            size_t k     = size_t(-1);
            for (size_t i = 0; i < f.cols.size(); i++)
                if (s.frames[0].find(f.cols[i].name))
                    k = i;
            if (f.cols.size() < 2 || k == size_t(-1))
                c.discard();
            a[2] = "o={" + f.cols[k].name + "}.odb";
            f.cols.erase(f.cols.begin() + long(k));
            s.bytes += gen::encodeAny(c.g, f);
            writeFile(c.tmp + "/in.odb", s.bytes);
            what = "key missing from a later frame";
        }
    }
    c.note(tools::text(a) + ": " + what);
    c.label(what);
    RunResult r = tools::odc(a, c.tmp);
    VF_CHECK(c, r.status != 0, tools::text(a) << " succeeds (" << what << ")");
    c.nontrivial = true;
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C18";
    s.rule =
        "streams of 1-4 frames in any codec whose columns change type, width, order, members and number, split by one or "
        "two columns of any type with 1-7 or 200 open files, by odc split (verifying or not, presorted or not, over the "
        "files of an earlier run) and DispatchingWriter; every file of the result decoded by the reference decoder; and "
        "templates that cannot be used; non-trivial: several files, and several keys, frames or fewer open files than files";
    s.subs.push_back({"split", split, 3000, 120000});
    s.subs.push_back({"chunks", chunks, 300, 5000});
    s.subs.push_back({"refused", refused, 300, 5000});
    return vf::main(argc, argv, s);
}
