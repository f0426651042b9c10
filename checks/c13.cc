// C13: metadata survives encode, decode, aggregation and copy
#include "capi.h"
#include "rows.h"

#include "eckit/io/MemoryHandle.h"
#include "odc/api/Odb.h"

using namespace vf;

namespace {

std::string anyText(Src& g, size_t lo, size_t hi) {
    std::string s;
    size_t n = size_t(g.chance(1, 12) ? g.range(int64_t(lo), int64_t(hi)) : g.range(int64_t(lo), int64_t(std::min<size_t>(hi, 14))));
    for (size_t i = 0; i < n; i++)
        s += g.chance(1, 10) ? char(1 + g.draw(254)) : char(32 + g.draw(94));
    return s;
}

std::map<std::string, std::string> anyProps(Src& g) {
    std::map<std::string, std::string> m;
    size_t n = g.weighted({2, 2, 2, 1});
    if (n == 3)
        n = size_t(g.range(3, 20));
    for (size_t i = 0; i < n; i++)
        m[g.chance(1, 4) ? std::string(1, char('a' + g.draw(3))) : anyText(g, 1, 300)] = anyText(g, 0, 2000);
    return m;
}

// Definitions with names and members of any shape
void elaborate(Src& g, ref::Frame& f) {
    for (auto& col : f.cols) {
        if (g.chance(1, 4)) {
            std::string n = anyText(g, 1, 250);
            for (auto& ch : n)
                if (ch == '@')
                    ch = 'a';
            if (g.chance(1, 3))
                n += "@hdr";
            if (!f.find(n))
                col.name = n;
        }
        if (col.type == ref::BITFIELD) {
            bool shorter = false;
            if (g.chance(1, 2)) {
                col.bits.clear();
                int left = 32;
                size_t n = size_t(g.chance(1, 6) ? g.range(1, 32) : g.range(1, 8));
                for (size_t i = 0; i < n && left > 0; i++) {
                    int s = int(n > 8 ? 1 : g.chance(1, 2) ? 1 : g.range(1, left));
                    left -= s;
                    col.bits.push_back(ref::Bit{g.chance(1, 3) ? anyText(g, 1, 60) : "m" + std::to_string(i), s});
                }
                shorter = true;
            }
            for (size_t i = 0; i < col.bits.size(); i++)
                for (size_t j = 0; j < i; j++)
                    if (col.bits[i].name == col.bits[j].name)
                        col.bits[i].name += "_" + std::to_string(i);
            (void)shorter;
        }
    }
    f.props = anyProps(g);
}

struct Attr {
    std::vector<ref::Col> cols;  // without cells
    size_t nrows = 0;
    std::map<std::string, std::string> props;
    bool encoderProp = false;  // the library adds a property of its own
};

Attr attr(const ref::Frame& f, const ref::Frame& widths, bool own) {
    Attr a;
    a.nrows       = f.nrows;
    a.props       = f.props;
    a.encoderProp = own;
    for (size_t k = 0; k < f.cols.size(); k++) {
        ref::Col c = f.cols[k];
        c.cells.clear();
        c.width = widths.cols[k].width;
        a.cols.push_back(c);
    }
    return a;
}

std::string check(const Attr& a, const ref::Frame& g) {
    std::ostringstream o;
    if (g.nrows != a.nrows)
        o << g.nrows << " rows instead of " << a.nrows;
    if (g.cols.size() != a.cols.size()) {
        o << g.cols.size() << " columns instead of " << a.cols.size();
        return o.str();
    }
    for (size_t k = 0; k < a.cols.size(); k++) {
        auto &x = a.cols[k], &y = g.cols[k];
        if (x.name != y.name)
            o << "column " << k << " is called " << quote(y.name) << " instead of " << quote(x.name) << "; ";
        if (x.type != y.type)
            o << "column " << quote(x.name) << " has type " << y.type << " instead of " << x.type << "; ";
        if (x.width != y.width)
            o << "column " << quote(x.name) << " has element size " << y.width << " instead of " << x.width << "; ";
        if (x.type == ref::BITFIELD) {
            if (x.bits.size() != y.bits.size())
                o << "column " << quote(x.name) << " has " << y.bits.size() << " members instead of " << x.bits.size() << "; ";
            else
                for (size_t b = 0; b < x.bits.size(); b++)
                    if (x.bits[b].name != y.bits[b].name || x.bits[b].size != y.bits[b].size)
                        o << "member " << b << " of " << quote(x.name) << " is " << quote(y.bits[b].name) << ":"
                          << y.bits[b].size << " instead of " << quote(x.bits[b].name) << ":" << x.bits[b].size << "; ";
        }
    }
    auto p = g.props;
    if (a.encoderProp && !a.props.count("encoder")) {
        if (!p.count("encoder"))
            o << "no encoder property; ";
        p.erase("encoder");
    }
    if (p != a.props) {
        o << "properties differ:";
        for (auto& e : a.props)
            if (!p.count(e.first))
                o << " lacks " << quote(e.first);
            else if (p[e.first] != e.second)
                o << " " << quote(e.first) << " is " << quote(p[e.first]) << " instead of " << quote(e.second);
        for (auto& e : p)
            if (!a.props.count(e.first))
                o << " also has " << quote(e.first);
    }
    return o.str();
}

ref::Frame cppAttributes(const odc::api::Frame& f) {
    ref::Frame g;
    g.nrows = f.rowCount();
    for (auto& ci : f.columnInfo()) {
        ref::Col c;
        c.name  = ci.name;
        c.type  = int(ci.type);
        c.width = ci.decodedSize;
        int at  = 0;
        for (auto& b : ci.bitfield) {
            if (b.offset != at)
                throw Failure{"member " + b.name + " of " + ci.name + " is at bit " + std::to_string(b.offset) + " instead of " +
                              std::to_string(at)};
            at += b.size;
            c.bits.push_back(ref::Bit{b.name, b.size});
        }
        if (!f.hasColumn(ci.name))
            throw Failure{"hasColumn() denies " + ci.name};
        g.cols.push_back(c);
    }
    if (g.cols.size() != f.columnCount())
        throw Failure{"columnCount() and columnInfo() disagree"};
    if (f.hasColumn("no such column"))
        throw Failure{"hasColumn() of an unknown column"};
    g.props = f.properties();
    return g;
}

// Every reader of the stream reports want, frame by frame
void verify(Ctx& c, const std::string& bytes, const std::vector<Attr>& want, const long* aggregated) {
    c.artifact("stream.odb", bytes);
    // C: a history of copies
    struct Handle {
        odc_frame_t* fr;
        size_t which;
        const char* held = nullptr;  // strings handed out earlier
        std::string heldText;
    };
    odc_reader_t* rd = nullptr;
    OK(odc_open_buffer(&rd, bytes.data(), long(bytes.size())));
    odc_frame_t* fr = nullptr;
    OK(odc_new_frame(&fr, rd));
    std::vector<Handle> copies;
    auto look = [&](odc_frame_t* h, size_t i, const char* what) {
        ref::Frame g;
        capi::readAttributes(h, g);
        std::string d = check(want[i], g);
        VF_CHECK(c, d.empty(), what << " " << i << ": " << d);
        const char* v = "x";
        OK(odc_frame_property(h, "no such property", &v));
        VF_CHECK(c, v == nullptr || want[i].props.count("no such property"), "an unknown property has a value");
    };
    auto free1 = [&](size_t i) {
        odc_free_frame(copies[i].fr);
        copies.erase(copies.begin() + long(i));
    };
    bool done = false, freed = false, late = false;
    size_t at = 0;
    for (int steps = 0; steps < 200 && !(done && steps > 12); steps++) {
        switch (done ? 2 : c.g.weighted({3, 3, 3, 1})) {
            case 0: {
                int rc = aggregated ? odc_next_frame_aggregated(fr, *aggregated) : odc_next_frame(fr);
                if (rc == ODC_ITERATION_COMPLETE) {
                    VF_CHECK(c, at == want.size(), at << " frames instead of " << want.size());
                    done = true;
                    odc_free_frame(fr);
                    fr = nullptr;
                    if (c.g.chance(1, 2)) {
                        odc_close(rd);
                        rd = nullptr;
                    }
                    break;
                }
                capi::ok(rc, "next frame");
                VF_CHECK(c, at < want.size(), "more than " << want.size() << " frames");
                at++;
                if (c.g.chance(3, 4))
                    look(fr, at - 1, "frame");
                break;
            }
            case 1:
                if (at > 0) {
                    size_t from = copies.empty() || c.g.chance(1, 2) ? ~size_t(0) : c.g.index(copies.size());
                    Handle h{nullptr, from == ~size_t(0) ? at - 1 : copies[from].which, nullptr, ""};
                    OK(odc_copy_frame(from == ~size_t(0) ? fr : copies[from].fr, &h.fr));
                    if (c.g.chance(1, 2) && !want[h.which].cols.empty()) {
                        int t = 0, sz = 0, nb = 0;
                        size_t k = c.g.index(want[h.which].cols.size());
                        OK(odc_frame_column_attributes(h.fr, int(k), &h.held, &t, &sz, &nb));
                        h.heldText = want[h.which].cols[k].name;
                    }
                    copies.push_back(h);
                }
                break;
            case 2:
                if (!copies.empty()) {
                    auto& h = copies[c.g.index(copies.size())];
                    look(h.fr, h.which, "copy of frame");
                    late = late || h.which + 1 < at || done;
                    if (h.held)
                        VF_CHECK(c, h.heldText == h.held, "a name handed out earlier has become " << h.held);
                }
                break;
            default:
                if (!copies.empty()) {
                    free1(c.g.index(copies.size()));
                    freed = true;
                }
        }
    }
    if (!done) {
        while (at < want.size()) {
            capi::ok(aggregated ? odc_next_frame_aggregated(fr, *aggregated) : odc_next_frame(fr), "next frame");
            look(fr, at++, "frame");
        }
        VF_CHECK(c, (aggregated ? odc_next_frame_aggregated(fr, *aggregated) : odc_next_frame(fr)) == ODC_ITERATION_COMPLETE,
                 "more frames");
        odc_free_frame(fr);
    }
    for (auto& h : copies)
        look(h.fr, h.which, "copy of frame");
    while (!copies.empty())
        free1(0);
    if (rd)
        odc_close(rd);
    c.labelIf(late, "copies outlive the frame");
    c.labelIf(freed, "copies freed");

    // C++
    try {
        eckit::MemoryHandle mh(bytes.data(), bytes.size());
        mh.openForRead();
        odc::api::Reader reader(mh, aggregated != nullptr, aggregated ? *aggregated : -1);
        std::vector<odc::api::Frame> kept;
        while (odc::api::Frame f = reader.next()) {
            VF_CHECK(c, kept.size() < want.size(), "more frames in C++");
            std::string d = check(want[kept.size()], cppAttributes(f));
            VF_CHECK(c, d.empty(), "C++ frame " << kept.size() << ": " << d);
            kept.push_back(f);
        }
        VF_CHECK(c, kept.size() == want.size(), kept.size() << " frames in C++ instead of " << want.size());
        for (size_t i = 0; i < kept.size(); i++) {
            std::string d = check(want[i], cppAttributes(kept[i]));
            VF_CHECK(c, d.empty(), "C++ frame " << i << " kept: " << d);
        }
    }
    catch (std::exception& e) {
        c.fail(std::string("exception: ") + e.what());
    }
}

// rows: names, types and members as the row reader gives them (it may join frames with the same columns)
void verifyRows(Ctx& c, const std::string& bytes, const std::vector<Attr>& want) {
    auto got  = rows::read(bytes);
    size_t at = 0;
    for (auto& g : got) {
        size_t n = 0;
        while (n < g.nrows) {
            VF_CHECK(c, at < want.size(), "the row reader has more rows");
            Attr a = want[at++];
            n += a.nrows;
            if (n == a.nrows) {  // the first
                a.nrows = g.nrows;
                for (size_t k = 0; k < a.cols.size() && k < g.cols.size(); k++)
                    a.cols[k].width = g.cols[k].width;
                a.props = g.props;
                a.encoderProp = false;
                std::string d = check(a, g);
                VF_CHECK(c, d.empty(), "row reader: " << d);
            }
        }
    }
}

void encoded(Ctx& c, const gen::Opts& o) {
    capi::setLongs(c.g.chance(1, 2));
    ref::Frame f = gen::genTable(c.g, o);
    elaborate(c.g, f);
    capi::Layout l    = capi::genLayout(c.g, f);
    l.propsTwice      = c.g.chance(1, 3);
    std::string bytes = capi::encode(f, l);
    auto v            = ref::decodeAll(bytes);
    std::vector<Attr> want;
    size_t bits = 0;
    for (auto& h : v) {
        ref::Frame e = f;
        e.nrows      = h.nrows;
        want.push_back(attr(e, h, true));
    }
    for (auto& col : f.cols)
        bits += col.bits.size();
    c.note(l.text() + " " + gen::describe(f, 2));
    for (auto& p : f.props)
        c.note("property " + quote(p.first) + " = " + quote(p.second));
    verify(c, bytes, want, nullptr);
    verifyRows(c, bytes, want);
    // another encoder, set up from what was read
    {
        std::vector<ref::Frame> rd = capi::readAll(bytes);
        std::string again;
        std::vector<Attr> want2;
        for (size_t i = 0; i < rd.size(); i++) {
            std::string b = capi::encode(rd[i]);
            auto w        = ref::decodeAll(b);
            VF_CHECK(c, w.size() == 1, "re-encoding gives " << w.size() << " frames");
            again += b;
            Attr a = want[i];
            a.props = rd[i].props;
            want2.push_back(a);
        }
        verify(c, again, want2, nullptr);
    }
    c.labelIf(bits > 0, "bitfield members");
    c.labelIf(!f.props.empty(), "properties");
    c.labelIf(v.size() > 1, "several frames");
    c.nontrivial = bits > 0 || !f.props.empty();
}

void streams(Ctx& c, const gen::Opts& o, bool aggregated) {
    capi::setLongs(c.g.chance(1, 2));
    size_t n = size_t(c.g.range(1, 6));
    std::string bytes;
    std::vector<Attr> want;
    std::vector<ref::Frame> in;
    size_t joined = 0, props = 0;
    for (size_t i = 0; i < n; i++) {
        ref::Frame f;
        if (i == 0 || c.g.chance(1, aggregated ? 6 : 2)) {
            f = gen::genTable(c.g, o);
            elaborate(c.g, f);
        }
        else {
            f       = gen::genLike(c.g, in.back(), o);
            f.props = anyProps(c.g);
            for (auto& p : in.back().props)
                if (c.g.chance(1, 3))
                    f.props[p.first] = c.g.chance(1, 2) ? p.second : anyText(c.g, 0, 20);
        }
        std::string b = gen::encodeAny(c.g, f);
        ref::Frame h  = ref::decodeAll(b).at(0);
        bool join     = aggregated && !in.empty() && f.cols.size() == in.back().cols.size();
        for (size_t k = 0; join && k < f.cols.size(); k++)
            join = f.cols[k].name == in.back().cols[k].name && f.cols[k].type == in.back().cols[k].type &&
                   h.cols[k].width == in.back().cols[k].width;
        for (size_t k = 0; k < f.cols.size(); k++)
            f.cols[k].width = h.cols[k].width;
        bytes += b;
        if (join) {
            Attr& a = want.back();
            a.nrows += f.nrows;
            for (auto& p : f.props)
                a.props.insert(p);
            joined++;
        }
        else
            want.push_back(attr(f, h, false));
        in.push_back(f);
        props += f.props.size();
        c.note(gen::describe(f, 1));
    }
    long limit = -1;
    verify(c, bytes, want, aggregated ? &limit : nullptr);
    if (!aggregated)
        verifyRows(c, bytes, want);
    c.labelIf(joined > 0, "joined");
    c.labelIf(props > 0, "properties");
    c.nontrivial = n > 1 || props > 0;
}

// The row writer's own metadata and properties
void writer(Ctx& c, const gen::Opts& o) {
    ref::Frame f = gen::genTable(c.g, o);
    elaborate(c.g, f);
    std::vector<rows::Step> steps;
    steps.push_back({rows::Step::HEADER, f, {}});
    steps.push_back({rows::Step::ROWS, f, {}});
    std::string path = c.tmp + "/w.odb";
    size_t buffer    = size_t(c.g.range(1, int64_t(f.nrows) + 2));
    c.note(gen::describe(f, 2) + " row buffer " + std::to_string(buffer));
    rows::write(path, steps, buffer, false, f.props);
    std::string bytes = readFile(path);
    auto v            = ref::decodeAll(bytes);
    std::vector<Attr> want;
    for (auto& h : v) {
        ref::Frame e = f;
        e.nrows      = h.nrows;
        e.props      = h.props;
        for (auto& p : f.props)
            VF_CHECK(c, h.props.count(p.first) && h.props.at(p.first) == p.second, "property " << quote(p.first) << " is lost");
        want.push_back(attr(e, h, false));
    }
    verify(c, bytes, want, nullptr);
    verifyRows(c, bytes, want);
    c.labelIf(v.size() > 1, "several frames");
    c.nontrivial = true;
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C13";
    s.rule =
        "tables with column, member and property names of arbitrary bytes and lengths, up to 32 members per bitfield and "
        "20 properties, through the encoder, hand-encoded streams, aggregation and the row writer; attributes read from "
        "frames and from copies of them in random histories of advancing, copying, freeing and closing, and from the C++ "
        "and row interfaces; non-trivial: there are members, properties or several frames";
    s.init = capi::init;
    gen::Opts o;
    o.maxRows = 8, o.maxCols = 6, o.edgeShape = false;
    s.subs.push_back({"encoder", [=](Ctx& c) { encoded(c, o); }, 6000, 200000});
    s.subs.push_back({"streams", [=](Ctx& c) { streams(c, o, false); }, 4000, 150000});
    s.subs.push_back({"aggregation", [=](Ctx& c) { streams(c, o, true); }, 4000, 150000});
    s.subs.push_back({"row writer", [=](Ctx& c) { writer(c, o); }, 3000, 100000});
    s.assumptions = {"names and properties hold no NUL byte, a column name at most one '@'; members of a bitfield have different names"};
    return vf::main(argc, argv, s);
}
