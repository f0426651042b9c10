#include "sql.h"

#include <map>

#include <algorithm>
#include <cmath>

namespace sql {

std::string text(const Val& v) {
    if (v.null)
        return "NULL";
    if (v.str)
        return vf::quote(v.s, 60);
    char b[40];
    snprintf(b, sizeof b, "%.17g", v.d);
    return b;
}

bool same(const Val& a, const Val& b, double tol) {
    if (a.null || b.null || a.str != b.str)
        return a.null == b.null && a.str == b.str;
    if (a.str)
        return a.s == b.s;
    return a.d == b.d || std::fabs(a.d - b.d) <= tol * std::max(std::fabs(a.d), std::fabs(b.d));
}

Val cellVal(const ref::Col& c, const ref::Cell& x) {
    Val v;
    if (c.type == ref::STRING) {
        v.str = true;
        v.s   = ref::stripNul(x.s);
        return v;
    }
    v.d    = x.missing ? c.missing : c.isInt() ? double(x.i) : x.d;
    v.null = c.hasMissing && v.d == c.missing;
    return v;
}

size_t Source::rows() const {
    size_t n = 0;
    for (auto& f : frames)
        n += f.nrows;
    return n;
}

static void mutateBits(Src& g, ref::Col& c) {
    std::vector<ref::Bit> b = c.bits;
    std::vector<int> perm;
    for (size_t i = 0; i < b.size(); i++)
        perm.push_back(int(i));
    g.shuffle(perm);
    c.bits.clear();
    int left = 31 - int(b.size());
    for (int i : perm) {
        ref::Bit x = b[size_t(i)];
        if (left > 0 && g.chance(1, 3)) {
            x.size = 1 + int(g.range(0, std::min(left, 8)));
            left -= x.size - 1;
        }
        else if (x.size - 1 <= left)
            left -= x.size - 1;
        else
            x.size = 1;
        c.bits.push_back(x);
    }
    if (left > 0 && g.chance(1, 3))
        c.bits.insert(c.bits.begin() + long(g.index(c.bits.size() + 1)), ref::Bit{"additional", 1});
}

// the same missing values for columns of the same name, as long as no cell has them for a value
static void declareSame(Src& g, Frame& f, std::map<std::string, double>& common) {
    for (auto& c : f.cols) {
        if (c.type == ref::STRING || c.type == ref::BITFIELD)
            continue;
        if (!common.count(c.name))
            common[c.name] = g.chance(1, 2) ? g.pick({-32768., 12345678., -1., 1., -1048576.}) : 0;
        double v = common[c.name];
        if (v == 0)
            continue;
        c.missing = v;
        for (auto& x : c.cells)
            if (!x.missing && (c.isInt() ? double(x.i) : double(ref::f32(x.d))) == v)
                x.missing = true;
    }
}

Source genSource(Src& g, const SourceOpts& so) {
    Source s;
    gen::Opts o;
    o.sqlSafe  = true;
    o.special  = false;
    o.nan      = false;
    o.binary   = false;
    o.maxCols  = so.maxCols;
    o.maxRows  = so.maxRows;
    o.maxWidth = so.narrowStrings ? 1 : 4;
    o.dupShort = so.dupShort;
    o.props    = so.props;
    o.edgeShape = false;
    std::vector<ref::Col> base = gen::genSchema(g, o);
    for (auto& c : base) {  // (the name of a table may not be a keyword)
        size_t at = c.name.find("@desc");
        if (at != std::string::npos)
            c.name.insert(at + 5, "r");
    }
    // a name without a table that others have with one would be ambiguous
    for (auto& c : base)
        for (auto& x : base)
            if (&x != &c && c.name == gen::shortName(x.name))
                c.name += "@own";
    for (auto& c : base)
        c.name = so.prefix + c.name;
    size_t n = g.chance(1, 3) ? 1 : size_t(g.range(1, so.maxFrames));
    if (so.rows)
        n = std::min(n, so.rows);
    size_t left = so.rows;
    // rows are compared by the values in them, whatever these stand for (eckit): see KF6
    bool declared = !so.plain && g.chance(1, 2);
    s.sameMissing = !declared || n == 1 || g.chance(1, 2);
    std::map<std::string, double> common;
    for (size_t i = 0; i < n; i++) {
        Frame f;
        f.cols = base;
        if (i && !g.chance(1, 4)) {
            for (auto& c : f.cols) {
                if (c.type == ref::STRING && so.widths && !so.narrowStrings && g.chance(1, 2))
                    c.width = 8 * size_t(g.range(1, 4));
                if ((c.type == ref::INTEGER || c.isReal()) && so.types && g.chance(1, 5))
                    c.type = g.pick<int>({ref::INTEGER, ref::REAL, ref::DOUBLE});
                if (c.type == ref::BITFIELD && so.bits && !c.bits.empty() && g.chance(1, 3))
                    mutateBits(g, c);
            }
            if (so.vary && g.chance(1, 3)) {
                ref::Col x = gen::genColumn(g, o);
                x.name     = so.prefix + "extra" + std::to_string(i) + (g.chance(1, 2) ? "" : "@t");
                f.cols.push_back(x);
            }
            if (so.vary && g.chance(1, 2)) {
                std::vector<int> perm;
                for (size_t k = 0; k < f.cols.size(); k++)
                    perm.push_back(int(k));
                g.shuffle(perm);
                std::vector<ref::Col> v;
                for (int k : perm)
                    v.push_back(f.cols[size_t(k)]);
                f.cols = v;
            }
        }
        f.nrows = size_t(g.range(1, so.maxRows));
        if (so.rows) {
            f.nrows = i + 1 == n ? left : size_t(g.range(1, int(left - (n - i - 1))));
            left -= f.nrows;
        }
        for (auto& c : f.cols) {
            gen::Opts fo = o;
            fo.special = fo.nan = so.special;
            if (so.binary && c.type == ref::STRING) {
                fo.sqlSafe = false;
                fo.binary  = true;
            }
            gen::fill(g, c, f.nrows, fo);
            if (so.few && c.cells.size() > 3) {
                size_t n = size_t(g.range(1, 3));
                for (size_t r = n; r < c.cells.size(); r++)
                    c.cells[r] = c.cells[g.index(n)];
            }
        }
        if (s.sameMissing && declared)
            declareSame(g, f, common);
        else if (!s.sameMissing)
            gen::declare(g, f);
        if (so.props)
            f.props = gen::genProps(g);
        s.bytes += so.plain ? gen::encodePlain(f) : gen::encodeAny(g, f);
    }
    s.frames = ref::decodeAll(s.bytes);
    for (auto& f : s.frames)
        for (auto& c : s.cols()) {
            auto* x = f.find(c.name);
            bool eq = x && x->type == c.type && x->width == c.width && x->bits.size() == c.bits.size();
            for (size_t k = 0; eq && k < c.bits.size(); k++)
                eq = x->bits[k].name == c.bits[k].name && x->bits[k].size == c.bits[k].size;
            s.sameShape = s.sameShape && eq;
        }
    return s;
}

// --------------------------------------------------------------------------------------------- expressions

using Eval = std::function<Val(const Frame&, size_t)>;

struct Ex {
    std::string text;
    Eval eval;
    bool str = false;
    std::string col, member;
    std::string title;
};

static Eval colEval(const std::string& name) {
    return [name](const Frame& f, size_t r) {
        auto* c = f.find(name);
        if (!c)
            throw vf::Failure{"harness: no column " + name};
        return cellVal(*c, c->cells[r]);
    };
}

static Eval memberEval(const std::string& name, const std::string& member) {
    return [name, member](const Frame& f, size_t r) {
        auto* c = f.find(name);
        Val v   = cellVal(*c, c->cells[r]);
        if (v.null)
            return v;
        int shift = 0;
        for (auto& b : c->bits) {
            if (b.name == member) {
                v.d = double((uint64_t(int64_t(v.d)) >> shift) & ((uint64_t(1) << b.size) - 1));
                return v;
            }
            shift += b.size;
        }
        throw vf::Failure{"harness: no member " + member};
    };
}

std::string refName(Src& g, const Source& s, const std::string& full) {
    std::string sh = gen::shortName(full);
    int n = 0;
    bool plain = false;
    for (auto& c : s.cols()) {
        n += gen::shortName(c.name) == sh;
        plain = plain || c.name == sh;
    }
    (void)plain;
    return n == 1 && g.chance(1, 2) ? sh : full;
}

static Ex columnEx(Src& g, const Source& s, const ref::Col& c) {
    Ex e;
    e.text  = refName(g, s, c.name);
    e.eval  = colEval(c.name);
    e.str   = c.type == ref::STRING;
    e.col   = c.name;
    e.title = c.name;
    return e;
}

static Ex memberEx(Src& g, const Source& s, const ref::Col& c) {
    Ex e;
    auto& b         = g.pick(c.bits);
    std::string sh  = gen::shortName(c.name), suffix = c.name.substr(sh.size());
    std::string ref = refName(g, s, c.name);
    e.text          = sh + "." + b.name + (ref == sh ? "" : suffix);
    e.title         = sh + "." + b.name + suffix;
    e.eval          = memberEval(c.name, b.name);
    e.col           = c.name;
    e.member        = b.name;
    return e;
}

static const ref::Col* pickCol(Src& g, const Source& s, const std::function<bool(const ref::Col&)>& p) {
    std::vector<const ref::Col*> v;
    for (auto& c : s.cols())
        if (p(c))
            v.push_back(&c);
    return v.empty() ? nullptr : g.pick(v);
}

// a number that can be written in a query
static std::string number(double d) {
    char b[64];
    for (int p : {0, 3, 6, 12}) {
        snprintf(b, sizeof b, "%.*f", p, d);
        if (strtod(b, nullptr) == d)
            return b;
    }
    snprintf(b, sizeof b, "%.3f", d);
    return b;
}

// a value to compare e with: often one it has
static Val constant(Src& g, const Source& s, const Ex& e) {
    Val v;
    v.str = e.str;
    if (s.rows() && !g.chance(1, 5)) {
        auto& f = g.pick(s.frames);
        if (f.nrows)
            v = e.eval(f, g.index(f.nrows));
    }
    if (v.str) {
        if (v.s.size() && g.chance(1, 6))
            v.s.pop_back();
        return v;
    }
    if (v.null)
        v.d = double(g.range(0, 5));
    v.null = false;
    v.d += double(g.weighted({5, 1, 1}) == 1 ? 1 : 0);
    if (std::fabs(v.d) > 1e12)
        v.d = 7;
    v.d = strtod(number(v.d).c_str(), nullptr);
    return v;
}

static std::string literal(Src& g, const Val& v) {
    return v.str ? "'" + v.s + "'" : number(v.d);
}

static Ex numeric(Src& g, const Source& s, int depth);

static Ex atom(Src& g, const Source& s, bool arithmetic) {
    auto* b = g.chance(1, 3) ? pickCol(g, s, [](const ref::Col& c) { return !c.bits.empty(); }) : nullptr;
    if (b)
        return memberEx(g, s, *b);
    if (arithmetic && g.chance(1, 4))
        if (pickCol(g, s, [](const ref::Col& c) { return c.type != ref::STRING; }))
            for (int i = 0; i < 3; i++) {
                Ex e = numeric(g, s, 1);
                if (e.text.find_first_of("abcdefghijklmnopqrstuvwxyz_") != std::string::npos)
                    return e;
            }
    return columnEx(g, s, g.pick(s.cols()));
}

static Ex numeric(Src& g, const Source& s, int depth) {
    if (depth <= 0 || g.chance(1, 4) || !pickCol(g, s, [](const ref::Col& c) { return c.type != ref::STRING; })) {
        auto* c = pickCol(g, s, [](const ref::Col& c) { return c.type != ref::STRING; });
        if (c && !g.chance(1, 4))
            return !c->bits.empty() && g.chance(1, 2) ? memberEx(g, s, *c) : columnEx(g, s, *c);
        Ex e;
        double d = double(g.range(0, 9)) + (g.chance(1, 3) ? 0.25 : 0);
        e.text   = number(d);
        e.eval   = [d](const Frame&, size_t) {
            Val v;
            v.d = d;
            return v;
        };
        return e;
    }
    // (the engine refuses conditions that need no column)
    Ex a = numeric(g, s, 0), b = numeric(g, s, depth - 1), e;
    for (int i = 0; i < 10 && a.col.empty(); i++)
        a = numeric(g, s, 0);
    if (a.col.empty()) {
        auto* c = pickCol(g, s, [](const ref::Col& c) { return c.type != ref::STRING; });
        a       = columnEx(g, s, *c);
    }
    if (g.chance(1, 2))
        std::swap(a, b);
    char op = "+-*"[g.index(3)];
    auto x = a.eval, y = b.eval;
    // (0 times a missing value is 0 to the engine)
    for (auto& f : s.frames)
        for (size_t r = 0; op == '*' && r < f.nrows; r++)
            if (x(f, r).null || y(f, r).null)
                op = '+';
    e.text = "(" + a.text + " " + op + " " + b.text + ")";
    e.eval = [x, y, op](const Frame& f, size_t r) {
        Val p = x(f, r), q = y(f, r);
        Val v;
        v.null = p.null || q.null;
        v.d    = op == '+' ? p.d + q.d : op == '-' ? p.d - q.d : p.d * q.d;
        return v;
    };
    return e;
}

static int compare(const Val& a, const Val& b) {
    if (a.str)
        return a.s < b.s ? -1 : a.s > b.s ? 1 : 0;
    return a.d < b.d ? -1 : a.d > b.d ? 1 : 0;
}

static Cond simple(Src& g, const Source& s) {
    Cond c;
    Ex e     = atom(g, s, true);
    auto ev  = e.eval;
    bool neg = g.chance(1, 5);
    c.unknown = [ev](const Frame& f, size_t r) { return ev(f, r).null; };
    switch (g.weighted({5, 2, 2, 1, 2})) {
        case 1: {  // in
            std::vector<Val> l;
            size_t n = size_t(g.range(1, 4));
            std::string t;
            for (size_t i = 0; i < n; i++) {
                l.push_back(constant(g, s, e));
                t += (i ? "," : "") + literal(g, l.back());
            }
            c.text = e.text + (neg ? " not in (" : " in (") + t + ")";
            c.eval = [ev, l, neg](const Frame& f, size_t r) {
                Val v = ev(f, r);
                if (v.null)
                    return false;
                bool in = false;
                for (auto& x : l)
                    in = in || compare(v, x) == 0;
                return in != neg;
            };
            return c;
        }
        case 2:  // between
            if (!e.str) {
                Val a = constant(g, s, e), b = constant(g, s, e);
                if (b.d < a.d)
                    std::swap(a, b);
                c.text = e.text + (neg ? " not between " : " between ") + literal(g, a) + " and " + literal(g, b);
                c.eval = [ev, a, b, neg](const Frame& f, size_t r) {
                    Val v = ev(f, r);
                    return !v.null && (v.d >= a.d && v.d <= b.d) != neg;
                };
                return c;
            }
            break;
        case 3:  // null
            if (!e.str) {
                c.text = e.text + (neg ? " is not null" : " is null");
                c.eval = [ev, neg](const Frame& f, size_t r) { return ev(f, r).null != neg; };
                c.unknown = [](const Frame&, size_t) { return false; };
                return c;
            }
            break;
        case 4: {  // another expression
            if (e.str)
                break;
            Ex b      = numeric(g, s, 1);
            auto bv   = b.eval;
            auto* op  = g.pick<const char*>({"<", "<=", "=", ">", ">=", "<>"});
            int k     = 0;
            for (auto* x : {"<", "<=", "=", ">", ">=", "<>"}) {
                if (x == std::string(op))
                    break;
                k++;
            }
            c.text    = e.text + " " + op + " " + b.text;
            c.unknown = [ev, bv](const Frame& f, size_t r) { return ev(f, r).null || bv(f, r).null; };
            c.eval = [ev, bv, k](const Frame& f, size_t r) {
                Val v = ev(f, r), w = bv(f, r);
                if (v.null || w.null)
                    return false;
                int q = compare(v, w);
                return k == 0 ? q < 0 : k == 1 ? q <= 0 : k == 2 ? q == 0 : k == 3 ? q > 0 : k == 4 ? q >= 0 : q != 0;
            };
            return c;
        }
        default:
            break;
    }
    Val x = constant(g, s, e);
    int k = int(g.index(e.str ? 2 : 6));  // < and the like compare the bytes of strings as numbers (eckit): see KF5
    const char* ops[] = {"=", "<>", "<", "<=", ">", ">="};
    c.text = e.text + " " + ops[k] + " " + literal(g, x);
    if (neg)
        c.text = "not (" + c.text + ")";
    c.eval = [ev, x, k, neg](const Frame& f, size_t r) {
        Val v = ev(f, r);
        if (v.null)
            return false;
        int q  = compare(v, x);
        bool b = k == 0 ? q == 0 : k == 1 ? q != 0 : k == 2 ? q < 0 : k == 3 ? q <= 0 : k == 4 ? q > 0 : q >= 0;
        return b != neg;
    };
    return c;
}

Cond genCond(Src& g, const Source& s, int depth) {
    if (depth <= 0 || g.chance(1, 2))
        return simple(g, s);
    Cond a = genCond(g, s, depth - 1), b = genCond(g, s, depth - 1), c;
    bool isAnd = g.chance(1, 2);
    // "or" whose first operand compares a missing cell is not true, whatever the second is (eckit): see KF2
    auto certain = [&](const Cond& x) {
        for (auto& f : s.frames)
            for (size_t r = 0; r < f.nrows; r++)
                if (x.unknown(f, r))
                    return false;
        return true;
    };
    if (!isAnd && !certain(a)) {
        std::swap(a, b);
        isAnd = !certain(a);
    }
    c.text     = "(" + a.text + (isAnd ? " and " : " or ") + b.text + ")";
    auto x = a.eval, y = b.eval;
    c.eval = [x, y, isAnd](const Frame& f, size_t r) {
        bool p = x(f, r), q = y(f, r);
        return isAnd ? p && q : p || q;
    };
    auto u = a.unknown, w = b.unknown;
    c.unknown = [u, w](const Frame& f, size_t r) { return u(f, r) || w(f, r); };
    return c;
}

// --------------------------------------------------------------------------------------------- queries

std::string Query::text(const std::string& from, const std::string& into) const {
    return select + (into.empty() ? "" : " into \"" + into + "\"") + (from.empty() ? "" : " from \"" + from + "\"") +
           (where.empty() ? "" : " where " + where) + (order.empty() ? "" : " order by " + order) + ";";
}

int Query::type(const Source& s, size_t frame, size_t col) const {
    auto& o = out[col];
    if (o.col.empty())
        return -1;
    if (!o.member.empty())
        return ref::INTEGER;
    return s.frames[frame].find(o.col)->type;
}

const ref::Col* Query::bits(const Source& s, size_t frame, size_t col) const {
    auto& o = out[col];
    if (o.col.empty() || !o.member.empty())
        return nullptr;
    return s.frames[frame].find(o.col);
}

static bool before(const Val& a, const Val& b) {  // NULL first
    if (a.null || b.null)
        return a.null && !b.null;
    return compare(a, b) < 0;
}

Query genQuery(Src& g, const Source& s, const QueryOpts& o) {
    Query q;
    std::vector<Ex> items;
    auto add = [&](const Ex& e, const std::string& title) {
        items.push_back(e);
        q.out.push_back(Out{title, e.col, e.member});
    };
    std::string list;
    struct Agg {
        int fn;  // -1: none; 0 count(*) 1 count 2 min 3 max 4 sum 5 avg
        Ex e;
    };
    std::vector<Agg> aggs;
    q.grouped = o.group && !o.star && s.sameMissing && g.chance(1, 6);
    if (q.grouped) {
        size_t n = size_t(g.range(1, 4));
        bool any = false;
        for (size_t i = 0; i < n; i++) {
            Agg a;
            a.fn = g.chance(1, 3) && (i + 1 < n || any) ? -1 : int(g.range(0, 5));
            std::string t;
            if (a.fn == -1) {
                a.e = atom(g, s, false);
                t   = a.e.text;
            }
            else {
                any = true;
                auto* c = pickCol(g, s, [](const ref::Col& c) { return c.type != ref::STRING; });
                if (!c)
                    a.fn = 0;
                else
                    a.e = !c->bits.empty() && g.chance(1, 2) ? memberEx(g, s, *c) : columnEx(g, s, *c);
                static const char* fn[] = {"count(*)", "count", "min", "max", "sum", "avg"};
                t = a.fn == 0 ? fn[0] : std::string(fn[a.fn]) + "(" + a.e.text + ")";
                a.e.col = a.e.member = a.e.title = "";
            }
            std::string alias = "k" + std::to_string(i);
            t += " as " + alias;
            list += (i ? ", " : "") + t;
            aggs.push_back(a);
            q.out.push_back(Out{alias, a.e.col, a.e.member});
        }
        q.exact = false;
    }
    else if (o.star || g.chance(1, 4)) {
        list = "*";
        for (auto& c : s.cols()) {
            Ex e = columnEx(g, s, c);
            add(e, c.name);
        }
    }
    else {
        size_t n = size_t(g.range(1, 5));
        for (size_t i = 0; i < n; i++) {
            auto* b = g.chance(1, 8) ? pickCol(g, s, [](const ref::Col& c) { return !c.bits.empty(); }) : nullptr;
            if (b && !o.uniqueTitles) {
                std::string sh = gen::shortName(b->name), suffix = b->name.substr(sh.size());
                list += (list.empty() ? "" : ", ") + sh + ".*" + (refName(g, s, b->name) == sh ? "" : suffix);
                for (auto& m : b->bits) {
                    Ex e;
                    e.eval   = memberEval(b->name, m.name);
                    e.col    = b->name;
                    e.member = m.name;
                    add(e, sh + "." + m.name + suffix);
                }
                continue;
            }
            Ex e = atom(g, s, o.expressions);
            std::string t = e.text, title = e.title;
            if (o.uniqueTitles || g.chance(1, 5)) {
                title = "k" + std::to_string(i);
                t += " as " + title;
            }
            list += (list.empty() ? "" : ", ") + t;
            add(e, title);
        }
    }
    q.distinct = o.distinct && !q.grouped && s.sameMissing && g.chance(1, 6);
    // DISTINCT compares what the engine computed for missing members and expressions (eckit): see KF3
    for (auto& e : items)
        if (e.col.empty() || !e.member.empty())
            for (auto& f : s.frames)
                for (size_t r = 0; q.distinct && r < f.nrows; r++)
                    q.distinct = !e.eval(f, r).null;
    q.select   = std::string("select ") + (q.distinct ? "distinct " : "") + list;
    Cond cond;
    if (o.where && !g.chance(1, 4)) {
        cond    = genCond(g, s, int(g.range(0, 2)));
        q.where = cond.text;
    }
    size_t limit = ~size_t(0);
    if (o.rownumber && g.chance(1, 8)) {
        limit          = size_t(g.range(0, int64_t(s.rows()) + 2));
        std::string rn = "rownumber() <= " + std::to_string(limit);
        q.where        = q.where.empty() ? rn : g.chance(1, 2) ? rn + " and " + q.where : q.where + " and " + rn;
    }
    struct Key {
        Ex e;
        bool desc;
    };
    std::vector<Key> keys;
    if (o.order && !q.grouped && s.sameMissing && g.chance(1, 4)) {
        size_t n = size_t(g.range(1, 2));
        for (size_t i = 0; i < n; i++) {
            Ex e;
            // distinct rows are ordered by what was selected
            std::vector<size_t> named;
            for (size_t k = 0; k < items.size(); k++)
                if (!items[k].col.empty() && !items[k].text.empty())
                    named.push_back(k);
            if (!named.empty() && (q.distinct || g.chance(3, 4)))
                e = items[g.pick(named)];
            else if (q.distinct)
                break;
            else
                e = atom(g, s, false);
            bool desc = g.chance(1, 3);
            bool clash = false;
            for (auto& k : keys)
                clash = clash || (k.e.col == e.col && k.e.member == e.member);
            // the members of bitfields and the width of strings to order by are those of the first frame (eckit): see KF4
            if (e.str)
                for (auto& f : s.frames)
                    clash = clash || f.find(e.col)->width != s.frames[0].find(e.col)->width;
            if (!e.member.empty())
                for (auto& f : s.frames) {
                    auto &x = f.find(e.col)->bits, &y = s.frames[0].find(e.col)->bits;
                    clash   = clash || x.size() != y.size();
                    for (size_t k = 0; !clash && k < x.size(); k++)
                        clash = x[k].name != y[k].name || x[k].size != y[k].size;
                }
            if (clash)
                continue;
            q.order += (q.order.empty() ? "" : ", ") + e.text + (desc ? " desc" : g.chance(1, 3) ? " asc" : "");
            keys.push_back(Key{e, desc});
        }
        q.ordered = !keys.empty();
    }
    // --- evaluation
    struct Src2 {
        size_t frame, row;
    };
    std::vector<Src2> rows;
    size_t n = 0;
    for (size_t i = 0; i < s.frames.size(); i++)
        for (size_t r = 0; r < s.frames[i].nrows; r++)
            if (n++ < limit && (!cond.eval || cond.eval(s.frames[i], r)))
                rows.push_back(Src2{i, r});
    if (q.grouped) {
        std::vector<std::pair<std::vector<Val>, std::vector<Src2>>> groups;
        for (auto& x : rows) {
            std::vector<Val> key;
            for (auto& a : aggs)
                if (a.fn == -1)
                    key.push_back(a.e.eval(s.frames[x.frame], x.row));
            size_t k = 0;
            for (; k < groups.size(); k++) {
                bool eq = true;
                for (size_t j = 0; eq && j < key.size(); j++)
                    eq = same(groups[k].first[j], key[j]);
                if (eq)
                    break;
            }
            if (k == groups.size())
                groups.push_back({key, {}});
            groups[k].second.push_back(x);
        }
        for (auto& gr : groups) {
            Row r;
            r.frame  = gr.second[0].frame;
            size_t k = 0;
            for (auto& a : aggs) {
                Val v;
                if (a.fn == -1)
                    v = gr.first[k++];
                else if (a.fn == 0)
                    v.d = double(gr.second.size());
                else {
                    size_t cnt = 0;
                    double mn = 0, mx = 0, sum = 0;
                    for (auto& x : gr.second) {
                        Val w = a.e.eval(s.frames[x.frame], x.row);
                        if (w.null)
                            continue;
                        mn = cnt ? std::min(mn, w.d) : w.d;
                        mx = cnt ? std::max(mx, w.d) : w.d;
                        sum += w.d;
                        cnt++;
                    }
                    v.null = cnt == 0 && a.fn != 1;
                    v.d    = a.fn == 1 ? double(cnt) : a.fn == 2 ? mn : a.fn == 3 ? mx : a.fn == 4 ? sum : cnt ? sum / double(cnt) : 0;
                }
                r.v.push_back(v);
            }
            q.rows.push_back(r);
        }
        return q;
    }
    std::vector<std::vector<Val>> kv;
    for (auto& x : rows) {
        Row r;
        r.frame = x.frame;
        for (auto& e : items) {
            r.v.push_back(e.eval(s.frames[x.frame], x.row));
        }
        if (q.distinct) {
            bool dup = false;
            for (auto& p : q.rows) {
                bool eq = true;
                for (size_t j = 0; eq && j < r.v.size(); j++)
                    eq = same(p.v[j], r.v[j]);
                dup = dup || eq;
            }
            if (dup)
                continue;
        }
        std::vector<Val> k;
        for (auto& key : keys)
            k.push_back(key.e.eval(s.frames[x.frame], x.row));
        kv.push_back(k);
        q.rows.push_back(r);
    }
    if (q.ordered) {
        std::vector<size_t> idx;
        for (size_t i = 0; i < q.rows.size(); i++)
            idx.push_back(i);
        std::stable_sort(idx.begin(), idx.end(), [&](size_t a, size_t b) {
            for (size_t k = 0; k < keys.size(); k++) {
                const Val &x = kv[a][k], &y = kv[b][k];
                if (before(x, y))
                    return !keys[k].desc;
                if (before(y, x))
                    return keys[k].desc;
            }
            return false;
        });
        std::vector<Row> v;
        for (size_t i : idx)
            v.push_back(q.rows[i]);
        q.rows = v;
    }
    return q;
}

// --------------------------------------------------------------------------------------------- stored results

// cells whose value happens to be the missing value of the column they are stored in
// or, in REAL columns, is the same in single precision
bool coincides(const Val& w, const Val& x, const ref::Col& c) {
    if (c.type == ref::REAL && !w.null && !x.null && ref::f32(w.d) == ref::f32(x.d))
        return true;
    return !w.null && !w.str && x.null && std::fabs(w.d) == 2147483647;
}

Val stored(const ref::Col& c, const ref::Cell& x) {
    Val v;
    v.str = c.type == ref::STRING;
    if (v.str)
        v.s = x.s;
    else {
        v.null = x.missing;
        v.d    = c.isReal() ? x.d : double(x.i);
    }
    return v;
}

static std::string rowText(const std::vector<Val>& v) {
    std::string s;
    for (auto& x : v)
        s += (s.empty() ? "" : ", ") + text(x);
    return "(" + s + ")";
}

bool sameBits(const ref::Col& a, const ref::Col& b) {
    if (a.bits.size() != b.bits.size())
        return false;
    for (size_t k = 0; k < a.bits.size(); k++)
        if (a.bits[k].name != b.bits[k].name || a.bits[k].size != b.bits[k].size)
            return false;
    return true;
}

std::string differs(const Source& s, const Query& q, const std::vector<ref::Frame>& out, const std::vector<size_t>* only) {
    size_t at = 0, n = only ? only->size() : q.rows.size();
    for (size_t i = 0; i < out.size(); i++) {
        auto& f = out[i];
        std::string in = "frame " + std::to_string(i) + ", ";
        if (f.cols.size() != q.out.size())
            return in + std::to_string(f.cols.size()) + " columns instead of " + std::to_string(q.out.size());
        for (size_t k = 0; k < f.cols.size(); k++)
            if (!q.out[k].title.empty() && f.cols[k].name != q.out[k].title)
                return in + "column " + std::to_string(k) + " named " + f.cols[k].name + " instead of " + q.out[k].title;
        for (size_t r = 0; r < f.nrows; r++, at++) {
            if (at >= n)
                return "more than the " + std::to_string(n) + " rows of the result";
            auto& w = q.rows[only ? (*only)[at] : at];
            std::vector<Val> x;
            for (auto& c : f.cols)
                x.push_back(stored(c, c.cells[r]));
            for (size_t k = 0; k < x.size(); k++) {
                std::string where = "row " + std::to_string(at) + ", column " + std::to_string(k) + ": ";
                if (!coincides(w.v[k], x[k], f.cols[k]) && !same(w.v[k], x[k], q.exact ? 0 : 1e-11))
                    return where + text(x[k]) + " stored instead of " + text(w.v[k]) + "; row " + rowText(x) + " instead of " + rowText(w.v);
                int t = q.grouped && !s.sameShape ? -1 : q.type(s, w.frame, k);
                if (t != -1 && f.cols[k].type != t)
                    return where + "type " + ref::typeName(f.cols[k].type) + " instead of " + ref::typeName(t);
                if (t == ref::BITFIELD && !sameBits(f.cols[k], *q.bits(s, w.frame, k)))
                    return where + "other bitfield members than the source has";
            }
        }
    }
    if (at != n)
        return std::to_string(at) + " rows stored instead of " + std::to_string(n);
    return "";
}

}  // namespace sql
