// C01: encoding a table and decoding it returns the same table
#include "capi.h"

using namespace vf;

// the table as the library will be asked for it: reals to single precision
static void roundTrip(Ctx& c, const gen::Opts& o, bool bigRows) {
    bool longs = c.g.chance(1, 2);
    capi::setLongs(longs);
    gen::Opts oo = o;
    if (bigRows) {
        oo.minRows   = 200;
        oo.maxRows   = 3000;
        oo.maxCols   = 3;
        oo.edgeShape = false;
    }
    ref::Frame f   = gen::genTable(c.g, oo);
    capi::Layout l = capi::genLayout(c.g, f);
    c.note(std::string(longs ? "longs " : "doubles ") + l.text() + " " + gen::describe(f));
    std::string bytes = capi::encode(f, l);
    c.artifact("encoded.odb", bytes);
    capi::Read r;
    r.columnMajor = c.g.chance(1, 3);
    std::vector<ref::Frame> fr = capi::readAll(bytes, nullptr, r);
    size_t per = l.rowsPerFrame > 0 ? size_t(l.rowsPerFrame) : 10000;
    size_t want = (f.nrows + per - 1) / per;
    VF_CHECK(c, fr.size() == want, "number of frames " << fr.size() << " instead of " << want);
    for (size_t i = 0; i < fr.size(); i++) {
        size_t n = std::min(per, f.nrows - i * per);
        VF_CHECK(c, fr[i].nrows == n, "frame " << i << " has " << fr[i].nrows << " rows instead of " << n);
    }
    ref::Frame back = gen::join(fr);
    std::string d   = gen::diff(f, back);
    VF_CHECK(c, d.empty(), "decoded table differs: " << d);
    // and joined by aggregation
    long limit = -1;
    if (l.rowsPerFrame > 0 && c.g.chance(1, 2))
        limit = long(per) + c.g.range(0, long(f.nrows));
    auto agg = capi::readAll(bytes, &limit);
    d        = gen::diff(f, gen::join(agg));
    VF_CHECK(c, d.empty(), "table decoded with aggregation differs: " << d);

    bool anyMissing = false, wide = false;
    for (auto& col : f.cols) {
        c.label(std::string("type ") + ref::typeName(col.type));
        wide = wide || (col.type == ref::STRING && col.width > 8);
        for (auto& x : col.cells)
            anyMissing = anyMissing || x.missing;
    }
    c.labelIf(anyMissing, "missing cells");
    c.labelIf(wide, "wide strings");
    c.labelIf(fr.size() > 1, "several frames");
    c.label(longs ? "longs" : "doubles");
    c.label(l.kind == 0 ? "row-major" : l.kind == 1 ? "column-major" : "per-column");
    c.nontrivial = f.nrows > 1 && f.cols.size() > 1;
}

// integers of the API's 64 bits: either they come back exactly, or encoding them is an error
static void wideIntegers(Ctx& c, const gen::Opts& o) {
    bool longs = c.g.chance(2, 3);
    capi::setLongs(longs);
    ref::Frame f    = gen::genTable(c.g, o);
    int64_t limit   = longs ? INT64_MAX : int64_t(1) << 53;
    bool beyond     = false;
    bool any        = false;
    for (auto& col : f.cols) {
        if (col.type != ref::INTEGER)
            continue;
        any = true;
        // around a power of two, over a range at which the codecs change
        static const int64_t spans[] = {0, 1, 254, 255, 256, 65534, 65535, 65536, 1 << 20, 1ll << 32, 1ll << 40};
        int64_t span = spans[c.g.index(sizeof spans / sizeof *spans)];
        int bits     = int(c.g.range(30, longs ? 62 : 52));
        int64_t base = (int64_t(1) << bits) + c.g.range(-3, 3);
        if (c.g.chance(1, 2))
            base = -base;
        if (base > 0 && base > limit - span)
            base = limit - span;
        for (auto& x : col.cells) {
            if (x.missing && c.g.chance(1, 2))
                continue;
            int64_t v = base + (c.g.chance(1, 3) ? span : c.g.chance(1, 3) ? 0 : c.g.range(0, span));
            if (c.g.chance(1, 12))
                v = c.g.range(-5, 5);
            if (v == 2147483647)
                v--;
            x.missing = false;
            x.i       = v;
            beyond    = beyond || v > INT32_MAX || v < INT32_MIN;
        }
    }
    if (!any)
        c.discard();
    capi::Layout l = capi::genLayout(c.g, f);
    c.note(std::string(longs ? "longs " : "doubles ") + l.text() + " " + gen::describe(f));
    std::string bytes;
    try {
        bytes = capi::encode(f, l);
    }
    catch (vf::Failure& e) {
        VF_CHECK(c, beyond, "integers of 32 bits were refused: " << e.msg);
        c.label("refused");
        c.nontrivial = true;
        return;
    }
    c.artifact("encoded.odb", bytes);
    std::string d = gen::diff(f, gen::join(capi::readAll(bytes)));
    VF_CHECK(c, d.empty(), "decoded table differs: " << d);
    c.labelIf(beyond, "beyond 32 bits, exact");
    c.nontrivial = beyond;
}

int main(int argc, char** argv) {
    Suite s;
    s.property = "C01";
    s.rule =
        "random tables (1-6 columns of every type, 1-400 or 200-3000 rows, constants, missing cells, value ranges around "
        "the codec limits, strings of up to 40 bytes) encoded through odc_encode from random memory layouts and decoded "
        "back; non-trivial: more than one row and more than one column";
    s.init = capi::init;
    gen::Opts o;
    o.nan = true;
    s.subs.push_back({"small tables", [=](Ctx& c) { roundTrip(c, o, false); }, 12000, 400000});
    s.subs.push_back({"long tables", [=](Ctx& c) { roundTrip(c, o, true); }, 800, 20000});
    gen::Opts wide = o;
    wide.wide = true, wide.maxCols = 4, wide.minRows = 2, wide.maxRows = 8, wide.edgeShape = false;
    s.subs.push_back({"wide tables", [=](Ctx& c) { roundTrip(c, wide, false); }, 300, 10000});
    gen::Opts few = o;
    few.maxCols = 3, few.maxRows = 60;
    s.subs.push_back({"wide integers", [=](Ctx& c) { wideIntegers(c, few); }, 1500, 60000});
    s.assumptions = {
        "integers that do not lie within int32 may be refused (the format has no wider integer codec), but never altered; "
        "strings contain no NUL"};
    return vf::main(argc, argv, s);
}
