// C19: merging joins rows position by position
#include "capi.h"
#include "sql.h"
#include "tools.h"

#include <algorithm>

#include "odc/tools/MergeTool.h"

using namespace vf;

namespace {

// the part of the output that comes from one input
std::vector<ref::Frame> slice(const std::vector<ref::Frame>& out, const std::vector<size_t>& from, const std::vector<size_t>& n) {
    std::vector<ref::Frame> v;
    for (size_t i = 0; i < out.size(); i++) {
        ref::Frame f;
        f.nrows = out[i].nrows;
        for (size_t k = 0; k < n[i]; k++)
            f.cols.push_back(out[i].cols[from[i] + k]);
        v.push_back(f);
    }
    return v;
}

std::vector<ref::Frame> decoded(Ctx& c, const std::string& file) {
    std::string bytes = readFile(file);
    c.artifact("out.odb", bytes);
    try {
        return ref::decodeAll(bytes);
    }
    catch (ref::FormatError& e) {
        c.fail("the output is not valid: " + std::string(e.what()));
    }
}

RunResult merge(Ctx& c, bool tool, const std::vector<std::string>& in, const std::vector<std::string>& sql) {
    if (c.g.chance(1, 4))
        writeFile(c.tmp + "/out.odb", "something else that was there before");
    if (tool) {
        std::vector<std::string> a{"merge"};
        if (!sql.empty())
            a.push_back("-S");
        a.push_back("-o");
        a.push_back("out.odb");
        for (size_t i = 0; i < in.size(); i++) {
            a.push_back(in[i]);
            if (!sql.empty()) {
                if (c.g.chance(1, 4)) {
                    writeFile(c.tmp + "/" + std::to_string(i) + ".sql", sql[i]);
                    a.push_back(std::to_string(i) + ".sql");
                }
                else
                    a.push_back(sql[i]);
            }
        }
        c.note(tools::text(a));
        return tools::odc(a, c.tmp);
    }
    RunResult r;
    std::string error;
    tools::lib(c.tmp, [&] {
        std::vector<eckit::PathName> p;
        for (auto& f : in)
            p.push_back(c.tmp + "/" + f);
        if (sql.empty())
            odc::tool::MergeTool::merge(p, c.tmp + "/out.odb");
        else
            odc::tool::MergeTool::merge(p, sql, c.tmp + "/out.odb");
        return std::string();
    }, &error);
    r.status = error.empty() ? 0 : 1;
    r.err    = error;
    return r;
}

void merged(Ctx& c) {
    size_t n    = size_t(c.g.pick({2, 2, 2, 3, 4}));
    size_t rows = c.g.chance(1, 10) ? size_t(c.g.range(1, 200)) : size_t(c.g.range(1, 14));
    bool tool   = c.g.chance(2, 3);
    bool more   = c.g.chance(1, 6);  // one input has another number of rows
    std::vector<sql::Source> s;
    std::vector<std::string> names;
    bool change = false;
    for (size_t i = 0; i < n; i++) {
        sql::SourceOpts o;
        o.rows     = more && i + 1 == n ? rows + size_t(c.g.range(1, 3)) : rows;
        o.prefix   = std::string(1, char('a' + i)) + "_";
        o.special  = true;
        o.binary   = c.g.chance(1, 4);
        o.dupShort = c.g.chance(1, 4);
        o.maxCols  = 4;
        s.push_back(sql::genSource(c.g, o));
    }
    if (more && c.g.chance(1, 2))
        std::swap(s[0], s[n - 1]);
    for (size_t i = 0; i < n; i++) {
        names.push_back(std::string(1, char('a' + i)) + ".odb");
        c.note(names[i] + ":");
        for (auto& f : s[i].frames) {
            c.note(gen::describe(f, 20));
            // a name without a table matches those with one
            for (auto& x : f.cols)
                for (auto& y : f.cols)
                    if (&x != &y && x.name == gen::shortName(y.name))
                        c.discard();
        }
        change = change || !s[i].sameShape;
        c.artifact(names[i], s[i].bytes);
        writeFile(c.tmp + "/" + names[i], s[i].bytes);
    }
    RunResult r = merge(c, tool, names, {});
    c.label(tool ? "odc merge" : "MergeTool::merge");
    for (size_t i = 0; i < n; i++)
        VF_CHECK(c, readFile(c.tmp + "/" + names[i]) == s[i].bytes, "input " << i << " was modified");
    if (more) {
        c.label("other number of rows");
        c.nontrivial = true;
        VF_CHECK(c, r.status != 0, "inputs with different numbers of rows are merged");
        return;
    }
    VF_CHECK(c, r.status == 0, "merge fails: " << r.err.substr(0, 600));
    auto out = decoded(c, c.tmp + "/out.odb");
    // which columns come from which input is told by their names
    std::vector<size_t> at(out.size(), 0);
    for (size_t i = 0; i < n; i++) {
        std::vector<size_t> count;
        for (size_t j = 0; j < out.size(); j++) {
            size_t k = 0;
            while (at[j] + k < out[j].cols.size() && out[j].cols[at[j] + k].name[0] == names[i][0])
                k++;
            count.push_back(k);
        }
        gen::Cmp cmp;
        cmp.bitsByValue = false;
        std::string d   = gen::diffRows(s[i].frames, slice(out, at, count), cmp);
        VF_CHECK(c, d.empty(), names[i] << " vs " << "the columns of the output: " << d);
        for (size_t j = 0; j < out.size(); j++)
            at[j] += count[j];
    }
    for (size_t j = 0; j < out.size(); j++)
        VF_CHECK(c, at[j] == out[j].cols.size(), "frame " << j << " of the output has columns that no input has");
    c.labelIf(change, "columns change");
    c.labelIf(n > 2, "more than two inputs");
    bool wide = false;
    for (auto& x : s)
        for (auto& f : x.frames)
            for (auto& col : f.cols)
                wide = wide || (col.type == ref::STRING && col.width > 8);
    c.labelIf(wide, "strings wider than 8");
    c.nontrivial = rows > 1 && (change || n > 2 || wide);
}

void queries(Ctx& c) {
    size_t n    = size_t(c.g.pick({2, 2, 3}));
    size_t rows = size_t(c.g.range(1, 12));
    std::vector<sql::Source> s;
    std::vector<sql::Query> q;
    std::vector<std::string> names, texts;
    for (size_t i = 0; i < n; i++) {
        sql::SourceOpts o;
        o.rows    = rows;
        o.prefix  = std::string(1, char('a' + i)) + "_";
        o.maxCols = 4;
        s.push_back(sql::genSource(c.g, o));
        sql::QueryOpts qo;
        qo.distinct = qo.group = false;
        qo.uniqueTitles = true;
        qo.where        = c.g.chance(1, 5);
        qo.rownumber    = false;
        q.push_back(sql::genQuery(c.g, s[i], qo));
        names.push_back(std::string(1, char('a' + i)) + ".odb");
        texts.push_back(q[i].text());
        c.note(names[i] + ": " + texts[i]);
        for (auto& f : s[i].frames)
            c.note(gen::describe(f, 20));
        c.artifact(names[i], s[i].bytes);
        writeFile(c.tmp + "/" + names[i], s[i].bytes);
    }
    bool same = true;
    for (auto& x : q)
        same = same && x.rows.size() == q[0].rows.size();
    // titles of their own
    bool clash = false;
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++)
            for (auto& x : q[i].out)
                for (auto& y : q[j].out)
                    clash = clash || (&x != &y && !x.title.empty() && gen::shortName(x.title) == gen::shortName(y.title));
    for (auto& x : q)
        for (auto& y : x.out)
            clash = clash || y.title.empty();
    if (clash)
        c.discard();
    RunResult r = merge(c, c.g.chance(2, 3), names, texts);
    c.nontrivial = true;
    if (!same) {
        c.label("other number of rows");
        VF_CHECK(c, r.status != 0, "results of different numbers of rows are merged");
        return;
    }
    VF_CHECK(c, r.status == 0, "merge -S fails: " << r.err.substr(0, 600));
    if (q[0].rows.empty())
        c.label("no rows");
    auto out = decoded(c, c.tmp + "/out.odb");
    std::vector<size_t> at(out.size(), 0);
    for (size_t i = 0; i < n; i++) {
        std::vector<size_t> count(out.size(), q[i].out.size());
        for (size_t j = 0; j < out.size(); j++)
            VF_CHECK(c, at[j] + count[j] <= out[j].cols.size(), "frame " << j << " of the output has only " << out[j].cols.size() << " columns");
        std::string d = sql::differs(s[i], q[i], slice(out, at, count));
        VF_CHECK(c, d.empty(), names[i] << ": " << d);
        for (size_t j = 0; j < out.size(); j++)
            at[j] += count[j];
    }
    for (size_t j = 0; j < out.size(); j++)
        VF_CHECK(c, at[j] == out[j].cols.size(), "frame " << j << " of the output has " << out[j].cols.size() << " columns");
    c.labelIf(!s[0].sameShape || !s[1].sameShape, "columns change");
}

// a column of the same name in two inputs, at any position, also if it appears in a later frame only
void clash(Ctx& c) {
    size_t rows = size_t(c.g.range(1, 6));
    std::vector<sql::Source> s;
    std::vector<std::string> names;
    for (size_t i = 0; i < 2; i++) {
        sql::SourceOpts o;
        o.rows    = rows;
        o.prefix  = std::string(1, char('a' + i)) + "_";
        o.maxCols = 4;
        s.push_back(sql::genSource(c.g, o));
        names.push_back(std::string(1, char('a' + i)) + ".odb");
    }
    // rename a column of one input in one of its frames and those after it
    size_t i = c.g.index(2), j = 1 - i;
    size_t fi = c.g.index(s[i].frames.size()), fj = c.g.index(s[j].frames.size());
    std::string name = c.g.pick(s[j].frames[fj].cols).name, old = c.g.pick(s[i].frames[fi].cols).name;
    std::string bytes;
    size_t row = 0, at = size_t(-1);
    for (size_t k = 0; k < s[i].frames.size(); k++) {
        ref::Frame f = s[i].frames[k];
        if (k >= fi)
            for (auto& x : f.cols)
                if (x.name == old) {
                    x.name = name;
                    at     = std::min(at, row);
                }
        row += f.nrows;
        bytes += gen::encodeAny(c.g, f);
    }
    // the rows in which the other input has it
    row = 0;
    bool meet = false;
    std::vector<bool> has(rows, false);
    for (auto& f : s[j].frames)
        for (size_t r = 0; r < f.nrows; r++, row++)
            has[row] = f.find(name) != nullptr;
    row = 0;
    s[i].bytes  = bytes;
    s[i].frames = ref::decodeAll(bytes);
    for (auto& f : s[i].frames)
        for (size_t r = 0; r < f.nrows; r++, row++)
            meet = meet || (has[row] && f.find(name));
    if (!meet)
        c.discard();
    for (size_t k = 0; k < 2; k++) {
        c.note(names[k] + ":");
        for (auto& f : s[k].frames)
            c.note(gen::describe(f, 5));
        writeFile(c.tmp + "/" + names[k], s[k].bytes);
    }
    // others without it
    for (size_t n = c.g.weighted({2, 2, 1}); n > 0; n--) {
        sql::SourceOpts o;
        o.rows    = rows;
        o.prefix  = std::string(1, char('c' + n)) + "_";
        o.maxCols = 3;
        sql::Source x = sql::genSource(c.g, o);
        std::string f = std::string(1, char('c' + n)) + ".odb";
        writeFile(c.tmp + "/" + f, x.bytes);
        names.insert(names.begin() + long(c.g.index(names.size() + 1)), f);
    }
    c.labelIf(names.size() > 2, "other inputs");
    RunResult r = merge(c, c.g.chance(2, 3), names, {});
    VF_CHECK(c, r.status != 0, "files which both have a column " << name << " are merged");
    c.labelIf(at > 0, "only in later frames");
    c.nontrivial = true;
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C19";
    s.rule =
        "2-4 files of 1-4 frames in any codec whose columns change type, width, order, members and number, merged as they "
        "are or as results of queries by odc merge and MergeTool; the output decoded by the reference decoder; different "
        "numbers of rows and clashing names must be errors; non-trivial: more than one row and several inputs, wide "
        "strings or changing columns, or an expected error";
    s.subs.push_back({"merged", merged, 5000, 100000});
    s.subs.push_back({"queries", queries, 2500, 50000});
    s.subs.push_back({"clash", clash, 1000, 10000});
    return vf::main(argc, argv, s);
}
