#include "gen.h"
#include <algorithm>
#include <cfloat>
#include <climits>

namespace gen {

static const char* kNames[]  = {"lat", "obsvalue", "statid", "date", "a", "x1", "varno", "seqno", "flags", "Zed", "report_status",
                               "b_2", "expver", "long_column_name_for_testing_purposes"};
static const char* kTables[] = {"hdr", "body", "desc", "t"};

std::string genName(Src& g, const Opts& o) {
    std::string n = kNames[g.index(sizeof kNames / sizeof *kNames)];
    if (g.chance(1, 3))
        n += std::to_string(g.range(0, 9));
    if (o.suffixes && g.chance(1, 3))
        n += std::string("@") + kTables[g.index(4)];
    if (o.sqlSafe && n[0] == 'Z')
        n[0] = 'z';  // queries name columns in lower case
    return n;
}

Col genColumn(Src& g, const Opts& o) {
    Col c;
    c.name = genName(g, o);
    std::vector<int> types;
    if (o.integers)
        types.push_back(ref::INTEGER);
    if (o.strings)
        types.push_back(ref::STRING);
    if (o.doubles)
        types.push_back(ref::DOUBLE);
    if (o.reals)
        types.push_back(ref::REAL);
    if (o.bitfields)
        types.push_back(ref::BITFIELD);
    c.type    = g.pick(types);
    c.missing = ref::defaultMissing(c.type);
    if (c.type == ref::STRING)
        c.width = 8 * size_t(1 + (g.chance(1, 2) ? 0 : g.range(0, o.maxWidth >= 4 && g.chance(1, 12) ? 39 : o.maxWidth - 1)));
    if (c.type == ref::BITFIELD && o.members && !g.chance(1, 6)) {
        int left = o.negativeBits ? 32 : 31;
        int n    = int(g.range(1, g.chance(1, 6) ? 32 : 6));
        for (int i = 0; i < n && left > 0; i++) {
            int s = n > 6 || g.chance(1, 2) ? 1 : int(g.range(1, 12));
            s     = std::min(s, left);
            left -= s;
            static const char* bn[] = {"active", "passive", "rejected", "blacklisted", "use", "m"};
            c.bits.push_back(Bit{(i < 6 ? std::string(bn[i]) : "n" + std::to_string(i) + "_") + (g.chance(1, 4) ? std::to_string(g.range(0, 3)) : ""), s});
        }
    }
    return c;
}

std::vector<Col> genSchema(Src& g, const Opts& o) {
    std::vector<Col> v;
    int n = int(g.range(o.minCols, o.maxCols));
    if (o.wide) {
        Opts narrow = o;
        narrow.wide = false;
        std::vector<Col> proto = genSchema(g, narrow);
        size_t total           = size_t(g.range(250, 290));
        for (size_t i = 0; i < total; i++) {
            Col c     = proto[i % proto.size()];
            size_t at = c.name.find('@');
            c.name    = shortName(c.name) + "_" + std::to_string(i) + (at == std::string::npos ? "" : c.name.substr(at));
            v.push_back(c);
        }
        return v;
    }
    for (int i = 0; i < n; i++) {
        Col c = genColumn(g, o);
        for (int k = 0;; k++) {
            bool clash = false;
            for (auto& x : v) {
                std::string a = x.name, b = c.name;
                for (auto& ch : a) ch = char(tolower(ch));
                for (auto& ch : b) ch = char(tolower(ch));
                clash = clash || (o.dupShort ? a == b : shortName(a) == shortName(b));
            }
            if (!clash)
                break;
            size_t at = c.name.find('@');
            std::string s = shortName(c.name) + "_" + std::to_string(i) + (k ? std::to_string(k) : "");
            c.name = at == std::string::npos ? s : s + c.name.substr(at);
        }
        v.push_back(c);
    }
    return v;
}

static double genDouble(Src& g, const Opts& o) {
    switch (g.weighted({4, 3, 3, 2, 2})) {
        case 0:
            return double(g.range(0, 20));
        case 1:
            return double(g.range(-100000, 100000)) / 64.0;
        case 2:
            return double(g.range(-1000000, 1000000)) / 1000.0;
        case 3: {
            if (!o.special)
                return double(g.range(-1000, 1000)) / 7.0;
            uint64_t u = g.draw(~0ull);
            double d;
            memcpy(&d, &u, 8);
            if (!std::isfinite(d))
                d = double(u % 1000003);
            return d;
        }
        default: {
            static const double sp[] = {0.0,      -0.0,       -2147483646.0, -2147483648.0, 2147483647.0, 2147483646.0,
                                        DBL_MAX,  -DBL_MAX,   DBL_MIN,       5e-324,        1e-300,       FLT_MAX,
                                        -FLT_MAX, FLT_MIN,    -1.0,          1e15,          0.1,          -2147483647.5,
                                        HUGE_VAL, -HUGE_VAL};
            if (o.nan && g.chance(1, 6))
                return std::nan("");
            size_t n = sizeof sp / sizeof *sp;
            return o.special ? sp[g.index(n)] : double(g.range(-3, 3));
        }
    }
}
static double genFloat(Src& g, const Opts& o) {
    switch (g.weighted({4, 3, 3, 2, 2})) {
        case 0:
            return double(g.range(0, 20));
        case 1:
            return double(float(g.range(-100000, 100000) / 64.0));
        case 2:
            return g.range(-1000000, 1000000) / 1000.0;  // rounded to single precision on encoding
        case 3: {
            if (!o.special)
                return double(float(g.range(-1000, 1000) / 8.0));
            uint32_t u = uint32_t(g.draw(0xffffffffu));
            float f;
            memcpy(&f, &u, 4);
            if (!std::isfinite(f))
                f = float(u % 1000003);
            return double(f);
        }
        default: {
            static const float sp[] = {0.0f,    -0.0f,    FLT_MAX, -FLT_MAX, FLT_MIN,           -FLT_MIN, 1e-45f,
                                       -1e-45f, 1.5e-40f, 1e30f,   -1.0f,    16777216.0f,       0.1f,     -2147483648.0f,
                                       2147483648.0f};
            if (o.nan && g.chance(1, 6))
                return std::nan("");
            return o.special ? double(sp[g.index(sizeof sp / sizeof *sp)]) : double(g.range(-3, 3));
        }
    }
}

static std::string genString(Src& g, size_t width, const Opts& o) {
    std::string s;
    size_t len;
    switch (g.weighted({3, 2, 2, 2})) {
        case 0:
            len = size_t(g.range(0, int64_t(std::min<size_t>(width, 4))));
            break;
        case 1:
            len = size_t(g.range(0, int64_t(width)));
            break;
        case 2:
            len = width;
            break;
        default:
            len = width > 8 ? 8 * size_t(g.range(1, int64_t(width / 8))) : size_t(g.range(6, 8));
    }
    if (!o.emptyStrings && len == 0)
        len = 1;
    int mode = o.binary ? int(g.weighted({4, 1, 1})) : int(g.weighted({4, 1}));
    for (size_t i = 0; i < len; i++) {
        if (mode == 0)
            s += char('a' + g.draw(g.chance(1, 4) ? 25 : 2));
        else if (mode == 1)
            s += o.sqlSafe ? char("abcxyzABC0123456789_.-+:"[g.draw(23)]) : char(32 + g.draw(94));
        else
            s += char(1 + g.draw(254));
    }
    return s;
}

void fill(Src& g, Col& c, size_t nrows, const Opts& o) {
    c.cells.assign(nrows, Cell());
    bool canMiss    = o.missing && c.type != ref::STRING;
    int missMode    = canMiss ? int(g.weighted({5, 4, 1, 1, 1, 1})) : 0;
    int repeatEvery = int(g.weighted({3, 2, 1}));  // 0: never, 1: often, 2: nearly always
    bool isConst    = g.chance(1, 5);
    std::vector<Cell> pool;
    int poolSize = 0;
    // ranges for integers
    int64_t base = 0, span = 0;
    bool wild = false;
    if (c.type == ref::INTEGER) {
        static const int64_t spans[] = {1, 3, 100, 253, 254, 255, 256, 257, 300, 65533, 65534, 65535, 65536, 65537, 1000000};
        span = spans[g.index(sizeof spans / sizeof *spans)];
        wild = g.chance(1, 6);
        base = g.chance(1, 2) ? g.range(0, 1000) : g.edgy(-2147483647LL - 1, 2147483646LL);
        if (base + span > 2147483646LL)
            base = 2147483646LL - span;
    }
    else if (c.type == ref::BITFIELD) {
        int nb = 0;
        for (auto& b : c.bits)
            nb += b.size;
        if (nb == 0)
            nb = 10;
        if (nb > 31 && !o.negativeBits)
            nb = 31;
        span = (int64_t(1) << nb) - 1;
        if (g.chance(1, 2)) {
            static const int64_t spans[] = {1, 7, 254, 255, 256, 65534, 65535, 65536};
            span = std::min(span, spans[g.index(8)]);
        }
        base = 0;
        if (g.chance(1, 3))
            base = std::min<int64_t>(((int64_t(1) << nb) - 1) - span, g.range(0, 1 << 20));
        if (base < 0)
            base = 0;
    }
    else if (c.type == ref::STRING) {
        static const int sizes[] = {1, 2, 5, 20, 255, 256, 257, 400};
        poolSize = g.chance(1, 2) ? sizes[g.index(8)] : int(g.range(1, 8));
        if (size_t(poolSize) > nrows)
            poolSize = int(nrows);
        // strings that share a prefix longer than 8 bytes
        std::string prefix;
        if (c.width > 8 && g.chance(1, 2))
            prefix = genString(g, c.width - 8, o);
        for (int i = 0; i < poolSize; i++) {
            Cell x;
            x.s = prefix + genString(g, c.width - prefix.size(), o);
            pool.push_back(x);
        }
        if (poolSize > 200 && c.width >= 8 && g.chance(2, 3)) {
            // distinct by construction
            for (int i = 0; i < poolSize; i++)
                pool[i].s = "s" + std::to_string(i);
        }
    }
    auto value = [&]() {
        Cell x;
        switch (c.type) {
            case ref::INTEGER:
                if (wild)
                    x.i = g.edgy(-2147483647LL - 1, 2147483646LL);
                else
                    switch (g.weighted({3, 1, 1, 1})) {
                        case 0:
                            x.i = base + g.range(0, std::min<int64_t>(span, 10));
                            break;
                        case 1:
                            x.i = base;
                            break;
                        case 2:
                            x.i = base + span;
                            break;
                        default:
                            x.i = base + g.range(0, span);
                    }
                if (x.i == 2147483647LL)
                    x.i--;
                break;
            case ref::BITFIELD:
                switch (g.weighted({3, 1, 2})) {
                    case 0:
                        x.i = base + g.range(0, std::min<int64_t>(span, 7));
                        break;
                    case 1:
                        x.i = base + span;
                        break;
                    default:
                        x.i = base + g.range(0, span);
                }
                break;
            case ref::REAL:
                x.d = genFloat(g, o);
                break;
            case ref::DOUBLE:
                x.d = genDouble(g, o);
                if (x.d == ref::MISSING_REAL)
                    x.d = 1;
                break;
            default:
                x = pool[g.index(pool.size())];
        }
        return x;
    };
    Cell cst = value();
    for (size_t r = 0; r < nrows; r++) {
        Cell x;
        bool rep = r > 0 && (repeatEvery == 1 ? g.chance(1, 2) : repeatEvery == 2 ? g.chance(15, 16) : false);
        if (rep)
            x = c.cells[r - 1];
        else {
            bool miss = false;
            switch (missMode) {
                case 1:
                    miss = g.chance(1, 4);
                    break;
                case 2:
                    miss = true;
                    break;
                case 3:
                    miss = r == 0;
                    break;
                case 4:
                    miss = r + 1 == nrows;
                    break;
                case 5:
                    miss = r != nrows / 2;
                    break;
            }
            if (miss)
                x.missing = true;
            else if (isConst)
                x = cst;
            else if (c.type == ref::STRING && poolSize > 200 && r < pool.size())
                x = pool[r];  // every member of a large pool is used
            else
                x = value();
        }
        if (c.type == ref::BITFIELD && (x.missing || x.i == 0)) {
            x.missing = true;
            x.i       = 0;
        }
        if (x.missing) {
            x.i = int64_t(ref::defaultMissing(c.type));
            x.d = ref::defaultMissing(c.type);
        }
        c.cells[r] = x;
    }
}

std::map<std::string, std::string> genProps(Src& g) {
    std::map<std::string, std::string> m;
    int n = int(g.weighted({3, 2, 1, 1}));
    for (int i = 0; i < n; i++) {
        std::string k, v;
        size_t l = size_t(g.range(1, 12));
        for (size_t j = 0; j < l; j++)
            k += char('a' + g.draw(3));
        l = size_t(g.range(0, 30));
        for (size_t j = 0; j < l; j++)
            v += g.chance(1, 8) ? char(1 + g.draw(254)) : char(32 + g.draw(94));
        m[k] = v;
    }
    return m;
}

static size_t genRows(Src& g, const Opts& o) {
    if (o.edgeShape && o.maxRows >= 30 && g.chance(1, 12)) {
        static const int e[] = {255, 256, 257, 258, 300, 400};
        return size_t(e[g.index(6)]);
    }
    if (g.chance(1, 3))
        return size_t(g.range(o.minRows, std::min(o.maxRows, o.minRows + 4)));
    return size_t(g.range(o.minRows, o.maxRows));
}

// Wide tables: the first columns are filled independently, the others repeat them shifted; then rows repeat leading cells
static void fillAll(Src& g, Frame& f, const Opts& o) {
    if (!o.wide) {
        for (auto& c : f.cols)
            fill(g, c, f.nrows, o);
        return;
    }
    size_t k = 0;
    std::vector<const Col*> model;
    for (auto& c : f.cols) {
        const Col* like = nullptr;
        if (k >= 12)
            for (auto* m : model)
                if (m->type == c.type && m->width == c.width && m->bits.size() == c.bits.size())
                    like = m;
        if (like) {
            c.cells.clear();
            for (size_t r = 0; r < f.nrows; r++)
                c.cells.push_back(like->cells[(r + k) % f.nrows]);
        }
        else
            fill(g, c, f.nrows, o);
        model.push_back(&c);
        k++;
    }
    for (size_t r = 1; r < f.nrows; r++) {
        size_t upTo = g.chance(1, 4) ? size_t(g.range(0, int64_t(f.cols.size()))) : size_t(g.range(250, 262));
        if (g.chance(1, 4))
            upTo = 0;
        for (size_t i = 0; i < std::min(upTo, f.cols.size()); i++)
            f.cols[i].cells[r] = f.cols[i].cells[r - 1];
    }
}

Frame genTable(Src& g, const Opts& o) {
    Frame f;
    f.cols  = genSchema(g, o);
    f.nrows = genRows(g, o);
    fillAll(g, f, o);
    if (o.props)
        f.props = genProps(g);
    return f;
}

Frame genLike(Src& g, const Frame& f, const Opts& o) {
    Frame h = f;
    h.nrows = genRows(g, o);
    fillAll(g, h, o);
    return h;
}

// ---------------------------------------------------------------------------------------------- codecs

void planCodec(Src& g, Col& c, bool simplest) {
    std::vector<std::string> ok;
    size_t n     = c.cells.size();
    bool anyMiss = false, allMiss = n > 0;
    c.strings.clear();
    c.stored.clear();
    c.rawMin.clear();
    if (c.type == ref::STRING) {
        c.missing = ref::MISSING_INT;
        c.min = c.max = 0;
        c.hasMissing  = 0;
        std::vector<std::string> d;
        size_t longest = 0;
        for (auto& x : c.cells) {
            longest = std::max(longest, x.s.size());
            if (std::find(d.begin(), d.end(), x.s) == d.end())
                d.push_back(x.s);
        }
        if (d.empty())
            d.push_back("");
        if (d.size() < 256)
            ok.push_back("int8_string");
        if (d.size() < 65536)
            ok.push_back("int16_string");
        if (longest <= 8)
            ok.push_back("chars");
        if (longest <= 8 && d.size() == 1)
            ok.push_back("constant_string");
        if (d.size() == 1)
            ok.push_back("long_constant_string");
        c.codec = ok[simplest ? 0 : g.index(ok.size())];
        if (c.codec == "constant_string")
            c.rawMin = d[0];
        else if (c.codec != "chars") {
            c.strings = d;
            if (!simplest && c.codec != "long_constant_string" && d.size() < 100 && g.chance(1, 3)) {
                // table order and unused entries are free
                if (g.chance(1, 4)) {
                    size_t room = std::max<size_t>(8, (longest + 7) / 8 * 8) + (unusedMayBeLonger ? 16 : 0);
                    std::string u(1 + g.index(room), '#');
                    if (std::find(d.begin(), d.end(), u) == d.end())
                        d.push_back(u);
                }
                c.strings = d;
                std::vector<int> perm;
                for (size_t i = 0; i < d.size(); i++)
                    perm.push_back(int(i));
                g.shuffle(perm);
                for (size_t i = 0; i < d.size(); i++)
                    c.strings[i] = d[size_t(perm[i])];
                // so is the order in which entries are written: each bears its index
                if ((c.codec == "int8_string" || c.codec == "int16_string") && g.chance(1, 2)) {
                    g.shuffle(perm);
                    c.stored = perm;
                }
            }
        }
        c.width = 8;
        for (auto& s : c.strings)
            c.width = std::max(c.width, (s.size() + 7) / 8 * 8);
        return;
    }
    double mn = 0, mx = 0;
    bool first = true, integral = true, narrow32 = true, floatOk = true, hitSR = false, hitSR2 = false;
    bool sameBits = true;
    for (auto& x : c.cells) {
        if (x.missing) {
            anyMiss = true;
            continue;
        }
        allMiss  = false;
        double v = c.isInt() ? double(x.i) : x.d;
        if (!first && memcmp(&v, &mn, 8) != 0)
            sameBits = false;
        if (first || v < mn)
            mn = v;
        if (first || v > mx)
            mx = v;
        first    = false;
        integral = integral && v == std::floor(v) && std::fabs(v) < 1e15 && !(v == 0 && std::signbit(v));
        narrow32 = narrow32 && v >= -2147483648.0 && v <= 2147483647.0;
        float f  = float(v);
        floatOk  = floatOk && (double(f) == v || std::isnan(v));
        hitSR    = hitSR || f == FLT_MIN;
        hitSR2   = hitSR2 || f == -FLT_MAX;
    }
    c.min = mn;
    c.max = mx;
    if (c.isInt()) {
        double span = mx - mn;
        if (!anyMiss) {
            if (n == 0 || (sameBits && !first))
                ok.push_back("constant");
            if (span <= 255)
                ok.push_back("int8");
            if (span <= 65535)
                ok.push_back("int16");
        }
        if (allMiss || sameBits)
            ok.push_back("constant_or_missing");
        if (span < 255)
            ok.push_back("int8_missing");
        if (span < 65535)
            ok.push_back("int16_missing");
        ok.push_back("int32");  // missing is stored as the missing value itself
    }
    else {
        if (!anyMiss && sameBits && !first)
            ok.push_back("constant");
        if (sameBits || allMiss)
            ok.push_back("real_constant_or_missing");
        if (c.type == ref::DOUBLE)
            ok.push_back("long_real");
        if (c.type == ref::REAL || (floatOk && g.chance(1, 2))) {
            if (!hitSR)
                ok.push_back("short_real");
            if (!hitSR2)
                ok.push_back("short_real2");
            if (hitSR && hitSR2)
                ok.push_back("long_real");
        }
    }
    c.codec      = ok[simplest ? ok.size() - 1 : g.index(ok.size())];
    c.hasMissing = anyMiss ? 1 : 0;
    if (allMiss && (c.codec != "int32"))
        c.min = c.max = 0;
    (void)integral;
    (void)narrow32;
}

void planCodecs(Src& g, Frame& f, bool simplest) {
    for (auto& c : f.cols)
        planCodec(g, c, simplest);
}

static bool sameVal(const Col& c, size_t a, size_t b) {
    const Cell &x = c.cells[a], &y = c.cells[b];
    if (c.type == ref::STRING)
        return x.s == y.s;
    if (x.missing || y.missing)
        return x.missing == y.missing;
    return c.isInt() ? x.i == y.i : memcmp(&x.d, &y.d, 8) == 0;
}

bool impliedFirst(const Col& c) {
    const Cell& x = c.cells[0];
    if (c.type == ref::STRING)
        return x.s.empty() && c.missing == 0 && !std::signbit(c.missing);
    return x.missing;
}

void planMarkers(Src& g, Frame& f, bool impliedStrings) {
    f.markers.clear();
    // a leading string of the first row that is not stored is the declared missing value: an empty string if that is zero
    for (auto& c : f.cols)
        if (impliedStrings && c.type == ref::STRING && f.nrows && c.cells[0].s.empty() && g.chance(1, 3))
            c.missing = 0;
    int mode = int(g.weighted({3, 2, 2}));  // minimal, zero, anything
    for (size_t r = 0; r < f.nrows; r++) {
        int max = 0;
        if (r > 0)
            while (max < int(f.cols.size()) && sameVal(f.cols[size_t(max)], r, r - 1))
                max++;
        else  // leading cells which are not stored in the first row are missing
            while (max < int(f.cols.size()) && impliedFirst(f.cols[size_t(max)]))
                max++;
        f.markers.push_back(mode == 0 ? max : mode == 1 ? 0 : int(g.range(0, max)));
    }
}

std::string encodeAny(Src& g, Frame& f, bool impliedStrings) {
    planCodecs(g, f);
    planMarkers(g, f, impliedStrings);
    f.swapped = g.chance(1, 3);
    f.minor   = g.chance(1, 4) ? 4 : 5;
    return ref::encodeFrame(f);
}

std::string encodePlain(Frame f) {
    Src z;
    z.mode = Src::REPLAY;
    planCodecs(z, f, true);
    f.markers.clear();
    return ref::encodeFrame(f);
}

// ---------------------------------------------------------------------------------------------- text

std::string schemaText(const Frame& f) {
    std::ostringstream o;
    o << f.nrows << " rows x";
    for (auto& c : f.cols) {
        o << " " << c.name << ":" << ref::typeName(c.type);
        if (c.type == ref::STRING)
            o << "[" << c.width << "]";
        if (!c.bits.empty()) {
            o << "{";
            for (auto& b : c.bits)
                o << b.name << ":" << b.size << ";";
            o << "}";
        }
        if (!c.codec.empty())
            o << "/" << c.codec;
    }
    return o.str();
}

std::string describe(const Frame& f, size_t maxRows) {
    std::ostringstream o;
    o << schemaText(f);
    if (f.swapped)
        o << " (other byte order)";
    for (size_t r = 0; r < f.nrows && r < maxRows; r++) {
        o << " | ";
        for (auto& c : f.cols)
            o << (&c == &f.cols[0] ? "" : ",") << ref::cellText(c, c.cells[r]);
    }
    if (f.nrows > maxRows)
        o << " | ...";
    std::string s = o.str();
    return s.size() > 1500 ? s.substr(0, 1500) + "..." : s;
}

std::string diff(const Frame& a, const Frame& b, const Cmp& cmp) {
    std::ostringstream o;
    if (a.cols.size() != b.cols.size()) {
        o << "number of columns: " << a.cols.size() << " vs " << b.cols.size();
        return o.str();
    }
    if (a.nrows != b.nrows) {
        o << "number of rows: " << a.nrows << " vs " << b.nrows;
        return o.str();
    }
    for (size_t k = 0; k < a.cols.size(); k++) {
        const Col &x = a.cols[k], &y = b.cols[k];
        if (cmp.names && x.name != y.name) {
            o << "name of column " << k << ": " << x.name << " vs " << y.name;
            return o.str();
        }
        if (cmp.types && x.type != y.type) {
            o << "type of column " << x.name << ": " << ref::typeName(x.type) << " vs " << ref::typeName(y.type);
            return o.str();
        }
        if (cmp.bits && x.type == ref::BITFIELD) {
            bool same = x.bits.size() == y.bits.size();
            for (size_t i = 0; same && i < x.bits.size(); i++)
                same = x.bits[i].name == y.bits[i].name && x.bits[i].size == y.bits[i].size;
            if (!same) {
                o << "bitfield definition of column " << x.name << " differs";
                return o.str();
            }
        }
        for (size_t r = 0; r < a.nrows; r++) {
            std::string why;
            Cell p = x.cells[r], q = y.cells[r];
            if (cmp.bitsByValue && x.type == ref::BITFIELD && y.type == ref::BITFIELD) {
                if (p.missing)
                    p.missing = false, p.i = int64_t(x.missing);
                if (q.missing)
                    q.missing = false, q.i = int64_t(y.missing);
            }
            if (!ref::sameCell(x, p, y, q, &why)) {
                o << "row " << r << " column " << k << " (" << x.name << "): " << why;
                return o.str();
            }
        }
    }
    if (cmp.props) {
        auto p = a.props, q = b.props;
        p.erase("encoder");
        q.erase("encoder");
        if (p != q) {
            o << "properties differ: " << p.size() << " vs " << q.size();
            return o.str();
        }
    }
    return "";
}

std::string diffRows(const std::vector<Frame>& a, const std::vector<Frame>& b, const Cmp& cmp) {
    size_t i = 0, j = 0, p = 0, q = 0, n = 0;
    for (;;) {
        while (i < a.size() && p == a[i].nrows)
            i++, p = 0;
        while (j < b.size() && q == b[j].nrows)
            j++, q = 0;
        if (i == a.size() && j == b.size())
            return "";
        if (i == a.size() || j == b.size()) {
            size_t more = 0;
            for (size_t k = i; k < a.size(); k++)
                more += a[k].nrows - (k == i ? p : 0);
            for (size_t k = j; k < b.size(); k++)
                more += b[k].nrows - (k == j ? q : 0);
            return "number of rows: " + std::to_string(n + (j == b.size() ? more : 0)) + " vs " + std::to_string(n + (i == a.size() ? more : 0));
        }
        size_t m      = std::min(a[i].nrows - p, b[j].nrows - q);
        std::string d = diff(rows(a[i], p, m), rows(b[j], q, m), cmp);
        if (!d.empty())
            return "from row " + std::to_string(n) + ": " + d;
        p += m, q += m, n += m;
    }
}

Frame join(const std::vector<Frame>& v) {
    Frame f = v.at(0);
    for (size_t i = 1; i < v.size(); i++) {
        for (auto& c : f.cols) {
            const Col* d = v[i].find(c.name);
            if (!d)
                throw std::logic_error("join: no column " + c.name);
            c.cells.insert(c.cells.end(), d->cells.begin(), d->cells.end());
            c.width = std::max(c.width, d->width);
        }
        f.nrows += v[i].nrows;
        for (auto& p : v[i].props)
            f.props.insert(p);
    }
    return f;
}

Frame rows(const Frame& f, size_t from, size_t n) {
    Frame h = f;
    h.nrows = n;
    for (auto& c : h.cols)
        c.cells.assign(f.cols[size_t(&c - &h.cols[0])].cells.begin() + long(from),
                       f.cols[size_t(&c - &h.cols[0])].cells.begin() + long(from + n));
    return h;
}

void declare(Src& g, ref::Frame& f) {
    for (auto& c : f.cols)
        if (c.type != ref::STRING && c.type != ref::BITFIELD) {
            c.missing = ref::defaultMissing(c.type);
            if (!g.chance(1, 3))
                continue;
            double v = g.pick({-1e30, 1e30, -32768.0, 0.5, 12345678.0, -1.0, 1.0});
            if (c.isInt())
                v = g.pick({-32768.0, -2147483648.0, 2147483646.0, 123456789.0, -1.0, 1.0});
            bool used = false;
            for (auto& x : c.cells)
                used = used || (!x.missing && (c.isInt() ? double(x.i) : double(ref::f32(x.d))) == double(c.isInt() ? v : ref::f32(v)));
            if (!used)
                c.missing = v;
        }
}

}  // namespace gen
