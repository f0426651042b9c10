// C26: readers, frames, copies and decoders behave independently in any history
#include "capi.h"

#include <memory>
#include <set>
#include <sstream>

#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "odc/api/Odb.h"

#include <fcntl.h>
#include <unistd.h>

#include <memory>

using namespace vf;

namespace {

// What is read: bytes, the frames in them, and (optionally) a damaged end which no frame can be read from
struct Source {
    std::string bytes;
    std::string path;
    int fd = -1;
    std::vector<ref::Frame> frames;
    std::vector<size_t> sizes;  // in bytes
    bool damaged = false;
    ~Source() {
        if (fd >= 0)
            ::close(fd);
    }
};

struct Reader {
    odc_reader_t* h = nullptr;
    const Source* src = nullptr;
    size_t pos = 0;       // frames consumed
    bool atEnd = false;
    bool closed = false;
    bool longs = true;
    std::string kind;
    // for streams
    size_t at = 0, chunk = 0;
};

struct Handle {
    odc_frame_t* h = nullptr;
    Reader* reader = nullptr;
    bool positioned = false;
    size_t first = 0, count = 0;  // constituents
    bool operator==(const Handle& o) const {
        return reader->src == o.reader->src && first == o.first && count == o.count;
    }
};

// A decoder set up for one logical frame, with the memory it decodes to
struct Dec {
    odc_decoder_t* h = nullptr;
    const Source* src = nullptr;
    size_t first = 0, count = 0;
    bool longs = true, columnMajor = false, own = false, decoded = false;
    size_t row = 0;  // bytes per row
    std::vector<char> mem;
    ref::Frame want;
};

long readCb(void* p, void* buf, long n) {
    auto* r = static_cast<Reader*>(p);
    size_t left = r->src->bytes.size() - r->at;
    size_t k = std::min({left, size_t(n), r->chunk});
    memcpy(buf, r->src->bytes.data() + r->at, k);
    r->at += k;
    return long(k);
}

bool compatible(const ref::Frame& a, const ref::Frame& b) {
    if (a.cols.size() != b.cols.size())
        return false;
    for (auto& x : a.cols) {
        const ref::Col* y = b.find(x.name);
        if (!y || y->type != x.type || y->width != x.width)
            return false;
    }
    return true;
}

ref::Frame logical(const Source& s, size_t first, size_t count) {
    std::vector<ref::Frame> v(s.frames.begin() + long(first), s.frames.begin() + long(first + count));
    ref::Frame f = gen::join(v);
    f.props.clear();
    for (auto& x : v)
        f.props.insert(x.props.begin(), x.props.end());
    return f;
}

// values laid out in an array by a decoder
void takeValues(ref::Frame& f, const char* p, bool columnMajor, size_t width, size_t height) {
    size_t off = 0;
    std::vector<char> cell;
    for (auto& c : f.cols) {
        c.cells.clear();
        c.missing = ref::defaultMissing(c.type);
        cell.resize(c.width);
        for (size_t k = 0; k < f.nrows; k++) {
            if (columnMajor) {
                for (size_t e = 0; e < c.width / 8; e++)
                    memcpy(&cell[e * 8], p + off * height + (e * height + k) * 8, 8);
                c.cells.push_back(capi::getCell(c, cell.data(), c.width));
            }
            else
                c.cells.push_back(capi::getCell(c, p + k * width + off, c.width));
        }
        off += c.width;
    }
}

struct World {
    Ctx& c;
    std::vector<std::unique_ptr<Source>> sources;
    std::vector<std::unique_ptr<Reader>> readers;
    std::vector<std::unique_ptr<Handle>> handles;
    std::vector<std::unique_ptr<Dec>> decoders;
    size_t checks = 0, afterOther = 0;

    explicit World(Ctx& ctx) : c(ctx) {}
    ~World() {
        for (auto& d : decoders)
            odc_free_decoder(d->h);
        for (auto& f : handles)
            odc_free_frame(f->h);
        for (auto& r : readers)
            if (!r->closed)
                odc_close(r->h);
    }

    std::string name(const Handle& f) {
        for (size_t i = 0; i < handles.size(); i++)
            if (handles[i].get() == &f)
                return "frame handle " + std::to_string(i);
        return "?";
    }
    std::string name(const Reader& r) {
        for (size_t i = 0; i < readers.size(); i++)
            if (readers[i].get() == &r)
                return "reader " + std::to_string(i);
        return "?";
    }

    void makeSource(const gen::Opts& o, size_t index) {
        auto s = std::make_unique<Source>();
        size_t n = size_t(c.g.weighted({1, 2, 4, 4, 2, 1}));
        for (size_t i = 0; i < n; i++) {
            ref::Frame f = (i == 0 || c.g.chance(1, 4)) ? gen::genTable(c.g, o) : gen::genLike(c.g, s->frames.back(), o);
            f.props      = gen::genProps(c.g);
            std::string b = gen::encodeAny(c.g, f);
            ref::Frame g  = ref::decodeAll(b).at(0);
            for (size_t k = 0; k < f.cols.size(); k++)
                f.cols[k].width = g.cols[k].width;
            s->bytes += b;
            s->sizes.push_back(b.size());
            s->frames.push_back(f);
            c.note("source " + std::to_string(index) + ": " + gen::describe(f, 3));
        }
        if (n > 0 && c.g.chance(1, 5)) {
            // another frame of which only a part is there: the data is cut, so that it cannot be advanced over
            ref::Frame f  = gen::genTable(c.g, o);
            std::string b = gen::encodeAny(c.g, f);
            size_t cut    = size_t(c.g.range(8, int64_t(b.size()) - 1));
            // n.b. a frame whose header is complete can be positioned on: cut within the header
            cut = std::min(cut, size_t(30));
            s->bytes += b.substr(0, cut);
            s->damaged = true;
            c.note("source " + std::to_string(index) + ": ends with " + std::to_string(cut) + " bytes of another frame");
        }
        s->path = c.tmp + "/s" + std::to_string(index) + ".odb";
        vf::writeFile(s->path, s->bytes);
        c.artifact("s" + std::to_string(index) + ".odb", s->bytes);
        sources.push_back(std::move(s));
    }

    void open() {
        auto r  = std::make_unique<Reader>();
        r->src  = sources[c.g.index(sources.size())].get();
        auto& s = const_cast<Source&>(*r->src);
        switch (c.g.weighted({3, 3, 2, 2, 1})) {
            case 0:
                r->kind = "path";
                OK(odc_open_path(&r->h, s.path.c_str()));
                break;
            case 1:
                r->kind = "buffer";
                OK(odc_open_buffer(&r->h, s.bytes.data(), long(s.bytes.size())));
                break;
            case 2:
                r->kind  = "stream";
                r->chunk = size_t(c.g.pick({1000000, 7, 1, 100}));
                OK(odc_open_stream(&r->h, r.get(), readCb));
                break;
            case 3: {
                r->kind = "descriptor";
                int fd  = ::open(s.path.c_str(), O_RDONLY);
                OK(odc_open_file_descriptor(&r->h, fd));
                ::close(fd);
                break;
            }
            default:
                r->kind = "shared descriptor";  // the file offset is shared by all readers of it
                if (s.fd < 0)
                    s.fd = ::open(s.path.c_str(), O_RDONLY);
                OK(odc_open_file_descriptor(&r->h, s.fd));
                break;
        }
        c.label("opened by " + r->kind);
        readers.push_back(std::move(r));
        for (size_t i = 0; i < sources.size(); i++)
            if (sources[i].get() == readers.back()->src)
                c.note("open " + name(*readers.back()) + " on source " + std::to_string(i) + " by " + readers.back()->kind);
    }

    std::vector<Reader*> live() {
        std::vector<Reader*> v;
        for (auto& r : readers)
            if (!r->closed)
                v.push_back(r.get());
        return v;
    }
    std::vector<Handle*> usable() {
        std::vector<Handle*> v;
        for (auto& f : handles)
            if (!f->reader->closed)
                v.push_back(f.get());
        return v;
    }

    void newFrame() {
        auto l = live();
        if (l.empty())
            return;
        auto f    = std::make_unique<Handle>();
        f->reader = c.g.pick(l);
        OK(odc_new_frame(&f->h, f->reader->h));
        handles.push_back(std::move(f));
        c.note(name(*handles.back()) + " of " + name(*handles.back()->reader));
    }

    // advances a handle; the integer behaviour of a frame is that of the time when it is read
    void next(Handle& f) {
        Reader& r         = *f.reader;
        const Source& s   = *r.src;
        bool aggregated   = c.g.chance(1, 2);
        long limit        = -1;
        if (aggregated && c.g.chance(1, 2))
            limit = c.g.range(0, 60);
        // the expected outcome
        size_t count = 0;
        bool error   = false;
        if (!r.atEnd) {
            if (r.pos < s.frames.size()) {
                size_t rows = s.frames[r.pos].nrows;
                count       = 1;
                if (aggregated) {
                    while (r.pos + count < s.frames.size()) {
                        const auto& g = s.frames[r.pos + count];
                        if ((limit >= 0 && rows + g.nrows > size_t(limit)) || !compatible(s.frames[r.pos], g))
                            break;
                        rows += g.nrows;
                        count++;
                    }
                    error = limit >= 0 && rows > size_t(limit);
                    // looking for more frames to join finds the damage
                    error = error || (s.damaged && r.pos + count == s.frames.size());
                }
            }
            else
                error = s.damaged;
        }
        int rc = aggregated ? odc_next_frame_aggregated(f.h, limit) : odc_next_frame(f.h);
        std::string what = "advance " + name(f) + (aggregated ? " aggregated" : "") +
                           (limit >= 0 ? " up to " + std::to_string(limit) : "") + " from " + std::to_string(r.pos);
        c.note(what + ": " + std::to_string(rc));
        if (error) {
            c.label("advance fails");
            VF_CHECK(c, rc != ODC_SUCCESS && rc != ODC_ITERATION_COMPLETE, what << " should fail, returned " << rc);
            return;  // the handle keeps its position, and so does the reader
        }
        if (count == 0) {
            VF_CHECK(c, rc == ODC_ITERATION_COMPLETE, what << ": expected the end of the data, got " << rc << " "
                                                           << (rc ? odc_error_string(rc) : ""));
            r.atEnd      = true;
            f.positioned = false;
            return;
        }
        VF_CHECK(c, rc == ODC_SUCCESS, what << " failed: " << odc_error_string(rc));
        f.positioned = true;
        f.first      = r.pos;
        f.count      = count;
        r.pos += count;
        c.labelIf(count > 1, "several frames joined");
    }

    void checkAttributes(Handle& f) {
        if (!f.positioned) {
            long n;
            int k;
            VF_CHECK(c, odc_frame_row_count(f.h, &n) != ODC_SUCCESS, name(f) << " has rows though it has no position");
            VF_CHECK(c, odc_frame_column_count(f.h, &k) != ODC_SUCCESS,
                     name(f) << " has columns though it has no position");
            VF_CHECK(c, odc_frame_properties_count(f.h, &k) != ODC_SUCCESS,
                     name(f) << " has properties though it has no position");
            return;
        }
        ref::Frame want = logical(*f.reader->src, f.first, f.count);
        ref::Frame got;
        capi::readAttributes(f.h, got);
        VF_CHECK(c, got.nrows == want.nrows, name(f) << ": " << got.nrows << " rows instead of " << want.nrows);
        VF_CHECK(c, got.cols.size() == want.cols.size(), name(f) << ": number of columns");
        for (size_t k = 0; k < want.cols.size(); k++) {
            auto &a = want.cols[k], &b = got.cols[k];
            VF_CHECK(c, a.name == b.name && a.type == b.type && a.width == b.width,
                     name(f) << ": column " << k << " is " << b.name << " type " << b.type << " size " << b.width
                             << ", expected " << a.name << " type " << a.type << " size " << a.width);
            VF_CHECK(c, a.bits.size() == b.bits.size(), name(f) << ": bitfield members of " << a.name);
            for (size_t i = 0; i < a.bits.size(); i++)
                VF_CHECK(c, a.bits[i].name == b.bits[i].name && a.bits[i].size == b.bits[i].size,
                         name(f) << ": bitfield member " << i << " of " << a.name);
        }
        VF_CHECK(c, got.props == want.props, name(f) << ": properties differ");
        checks++;
    }

    void checkValues(Handle& f) {
        if (!f.positioned)
            return;
        ref::Frame want = logical(*f.reader->src, f.first, f.count);
        capi::Read r;
        r.columnMajor = c.g.chance(1, 3);
        r.threads     = int(c.g.chance(1, 4) ? c.g.range(2, 4) : 1);
        c.note("decode " + name(f));
        ref::Frame got  = capi::readFrame(f.h, r);
        std::string d   = gen::diff(want, got);
        VF_CHECK(c, d.empty(), name(f) << " (frames " << f.first << "+" << f.count << "): " << d);
        checks++;
    }

    void newDecoder(Handle& f) {
        if (!f.positioned)
            return;
        auto d       = std::make_unique<Dec>();
        d->want      = logical(*f.reader->src, f.first, f.count);
        d->src       = f.reader->src;
        d->first     = f.first;
        d->count     = f.count;
        d->row       = d->want.rowWidth();
        OK(odc_new_decoder(&d->h));
        decoders.push_back(std::move(d));
        Dec& x = *decoders.back();
        OK(odc_decoder_defaults_from_frame(x.h, f.h));
        x.columnMajor = c.g.chance(1, 3);
        if (x.want.nrows > 0 && c.g.chance(1, 2)) {
            x.own = true;
            x.mem.assign(x.row * x.want.nrows + 64, '\x5a');
            OK(odc_decoder_set_data_array(x.h, x.mem.data(), long(x.row), long(x.want.nrows), x.columnMajor));
        }
        else if (x.columnMajor)
            OK(odc_decoder_set_column_major(x.h, true));
        c.note("decoder " + std::to_string(decoders.size() - 1) + " for " + name(f));
    }

    // any handle which is on the same data
    void decodeAgain() {
        if (decoders.empty())
            return;
        size_t i = c.g.index(decoders.size());
        Dec& d   = *decoders[i];
        std::vector<Handle*> v;
        for (auto f : usable())
            if (f->positioned && f->reader->src == d.src && f->first == d.first && f->count == d.count)
                v.push_back(f);
        if (v.empty())
            return;
        Handle& f = *c.g.pick(v);
        if (d.own)
            std::fill(d.mem.begin(), d.mem.end(), '\x5a');
        long rows = -1;
        c.note("decoder " + std::to_string(i) + " decodes " + name(f));
        c.labelIf(d.decoded, "decoder reused");
        OK(odc_decode_threaded(d.h, f.h, &rows, int(c.g.range(1, 3))));
        VF_CHECK(c, rows == long(d.want.nrows), "decoded " << rows << " rows of " << d.want.nrows);
        d.decoded = true;
        d.longs   = capi::longs();
        checkDecoder(i);
    }

    // what has been decoded stays
    void checkDecoder(size_t i) {
        Dec& d = *decoders[i];
        if (!d.decoded || d.want.nrows == 0)
            return;
        const void* p = nullptr;
        long w = 0, h = 0;
        bool cm = false;
        OK(odc_decoder_data_array(d.h, &p, &w, &h, &cm));
        VF_CHECK(c, size_t(w) == d.row && size_t(h) == d.want.nrows && cm == d.columnMajor,
                 "the array of decoder " << i << " is " << w << "x" << h);
        if (d.own)
            VF_CHECK(c, p == d.mem.data(), "decoder " << i << " reports another array");
        ref::Frame got = d.want;
        takeValues(got, static_cast<const char*>(p), d.columnMajor, d.row, d.want.nrows);
        std::string e = gen::diff(d.want, got);
        VF_CHECK(c, e.empty(), "array of decoder " << i << ": " << e);
        for (size_t k = d.row * d.want.nrows; d.own && k < d.mem.size(); k++)
            VF_CHECK(c, d.mem[k] == '\x5a', "decoder " << i << " wrote after its array");
        checks++;
    }

    // calls which must fail, and must not change anything
    void misuse() {
        auto u = usable();
        if (u.empty())
            return;
        Handle& f = *c.g.pick(u);
        const char* s = nullptr;
        int k = 0;
        int rc = ODC_SUCCESS;
        std::string what;
        switch (c.g.index(8)) {
            case 0:
                what = "attributes of column -1";
                rc   = odc_frame_column_attributes(f.h, -1, &s, &k, nullptr, nullptr);
                break;
            case 1:
                what = "attributes of a column too many";
                rc   = odc_frame_column_attributes(f.h, f.positioned ? int(f.reader->src->frames[f.first].cols.size()) : 0,
                                                 &s, &k, nullptr, nullptr);
                break;
            case 2:
                what = "a bitfield member too many";
                rc   = odc_frame_bitfield_attributes(f.h, 0, 1000, &s, &k, nullptr);
                break;
            case 3:
                what = "property 1000";
                rc   = odc_frame_property_idx(f.h, 1000, &s, &s);
                break;
            case 4: {
                what = "decode of an unknown column";
                odc_decoder_t* d = nullptr;
                OK(odc_new_decoder(&d));
                if (f.positioned)
                    OK(odc_decoder_defaults_from_frame(d, f.h));
                OK(odc_decoder_add_column(d, "no such column"));
                rc = odc_decode(d, f.h, nullptr);
                OK(odc_free_decoder(d));
                break;
            }
            case 5: {
                what = "decode to an array too small";
                odc_decoder_t* d = nullptr;
                std::vector<char> mem(8, '\x5a');
                OK(odc_new_decoder(&d));
                if (f.positioned)
                    OK(odc_decoder_defaults_from_frame(d, f.h));
                long n   = f.positioned ? long(logical(*f.reader->src, f.first, f.count).nrows) : 0;
                size_t w = f.positioned ? logical(*f.reader->src, f.first, f.count).rowWidth() : 0;
                if (n < 2 && w <= 8) {
                    OK(odc_free_decoder(d));
                    return;
                }
                OK(odc_decoder_set_data_array(d, mem.data(), 8, 1, false));
                long rows;
                rc = odc_decode(d, f.h, &rows);
                OK(odc_free_decoder(d));
                break;
            }
            case 6: {
                what = "opening a file that does not exist";
                odc_reader_t* r = nullptr;
                rc = odc_open_path(&r, (c.tmp + "/none.odb").c_str());
                break;
            }
            default: {
                if (decoders.empty())
                    return;
                size_t i = c.g.index(decoders.size());
                what     = "setting a column that decoder " + std::to_string(i) + " lacks";
                rc       = odc_decoder_column_set_data_size(decoders[i]->h, 1000, 8);
            }
        }
        c.note(what + " on " + name(f));
        VF_CHECK(c, rc != ODC_SUCCESS && rc != ODC_ITERATION_COMPLETE, what << " succeeded");
        c.label("failed call");
    }
};

void history(Ctx& c, const gen::Opts& o, size_t maxSteps) {
    World w(c);
    bool longs = c.g.chance(1, 2);
    capi::setLongs(longs);
    size_t ns = size_t(c.g.range(1, 3));
    for (size_t i = 0; i < ns; i++)
        w.makeSource(o, i);
    w.open();
    w.newFrame();
    size_t steps = size_t(c.g.range(5, int64_t(maxSteps)));
    size_t copies = 0, frees = 0, advances = 0;
    for (size_t i = 0; i < steps; i++) {
        auto u = w.usable();
        switch (c.g.weighted({10, 4, 6, 4, 2, 2, 3, 3, 2, 1, 3, 3})) {
            case 0:
                if (!u.empty()) {
                    w.next(*c.g.pick(u));
                    advances++;
                }
                break;
            case 1:
                if (!u.empty())
                    w.checkAttributes(*c.g.pick(u));
                break;
            case 2:
                if (!u.empty())
                    w.checkValues(*c.g.pick(u));
                break;
            case 3:
                if (!u.empty() && w.handles.size() < 12) {
                    Handle& f = *c.g.pick(u);
                    auto k    = std::make_unique<Handle>(f);
                    k->h      = nullptr;
                    OK(odc_copy_frame(f.h, &k->h));
                    VF_CHECK(c, k->h && k->h != f.h, "the copy is the frame itself");
                    w.handles.push_back(std::move(k));
                    c.note(w.name(*w.handles.back()) + " copies " + w.name(f));
                    copies++;
                }
                break;
            case 4:
                if (w.readers.size() < 6)
                    w.open();
                break;
            case 5:
                if (w.handles.size() < 12)
                    w.newFrame();
                break;
            case 6:
                if (!u.empty() && w.decoders.size() < 6)
                    w.newDecoder(*c.g.pick(u));
                break;
            case 7:
                w.decodeAgain();
                break;
            case 8:
                if (w.handles.size() > 1) {
                    size_t k = c.g.index(w.handles.size());
                    c.note("free " + w.name(*w.handles[k]));
                    OK(odc_free_frame(w.handles[k]->h));
                    w.handles.erase(w.handles.begin() + long(k));
                    frees++;
                }
                break;
            case 9: {
                auto l = w.live();
                if (l.size() > 1) {
                    Reader* r = c.g.pick(l);
                    c.note("close " + w.name(*r));
                    // its frames can only be freed from now on
                    OK(odc_close(r->h));
                    r->closed = true;
                    frees++;
                    c.label("reader closed before its frames are freed");
                }
                break;
            }
            case 10:
                if (!w.decoders.empty()) {
                    size_t k = c.g.index(w.decoders.size());
                    w.checkDecoder(k);
                    if (c.g.chance(1, 4)) {
                        c.note("free decoder " + std::to_string(k));
                        OK(odc_free_decoder(w.decoders[k]->h));
                        w.decoders.erase(w.decoders.begin() + long(k));
                    }
                }
                break;
            default:
                w.misuse();
        }
    }
    // all that is left still is what it was
    for (auto f : w.usable()) {
        w.checkAttributes(*f);
        w.checkValues(*f);
    }
    for (size_t k = 0; k < w.decoders.size(); k++)
        w.checkDecoder(k);
    size_t open = w.live().size();
    c.labelIf(open > 1, "several readers");
    c.labelIf(copies > 0, "copied frames");
    c.labelIf(frees > 0, "freed early");
    c.nontrivial = w.checks >= 3 && advances >= 2 && (copies > 0 || open > 1 || w.handles.size() > 1);
}

// ------------------------------------------------------------------------------------- C++ objects

// a frame object, and what it should be
struct Slot {
    odc::api::Frame f;
    bool set = false;
    const Source* src = nullptr;  // null: result of a filter, on memory of its own
    odc::api::Reader* reader = nullptr;
    size_t first = 0, count = 0;
    ref::Frame want;
    // as handed out, valid until the object changes
    const std::vector<odc::api::ColumnInfo>* info = nullptr;
    const std::map<std::string, std::string>* props = nullptr;
};

struct CppReader {
    std::unique_ptr<eckit::DataHandle> dh;
    std::unique_ptr<odc::api::Reader> r;
    const Source* src = nullptr;
    bool aggregated = false;
    long limit = -1;
    size_t pos = 0;
    bool atEnd = false;
};

struct Spanned {
    std::unique_ptr<odc::api::Span> span;
    const Source* src = nullptr;
    size_t first = 0, count = 0;
    std::vector<std::string> columns;
    std::string text;
};

struct SpanText : odc::api::SpanVisitor {
    std::ostringstream os;
    SpanText() { os.precision(17); }
    void operator()(const std::string& n, const std::set<long>& v) override {
        os << n << " integers";
        for (long x : v)
            os << " " << x;
        os << "\n";
    }
    void operator()(const std::string& n, const std::set<double>& v) override {
        os << n << " reals";
        for (double x : v)
            os << " " << x;
        os << "\n";
    }
    void operator()(const std::string& n, const std::set<std::string>& v) override {
        os << n << " strings";
        for (auto& x : v)
            os << " " << quote(x);
        os << "\n";
    }
};

std::string text(const odc::api::Span& s) {
    SpanText t;
    s.visit(t);
    return t.os.str();
}

struct Cpp {
    Ctx& c;
    World w;
    std::vector<std::unique_ptr<CppReader>> readers;
    std::vector<std::unique_ptr<Slot>> slots;
    std::vector<Spanned> spans;

    explicit Cpp(Ctx& ctx) : c(ctx), w(ctx) {}
    ~Cpp() { slots.clear(); }

    std::string name(const Slot& x) {
        for (size_t i = 0; i < slots.size(); i++)
            if (slots[i].get() == &x)
                return "frame " + std::to_string(i);
        return "a frame";
    }

    void open() {
        auto r        = std::make_unique<CppReader>();
        size_t i      = c.g.index(w.sources.size());
        r->src        = w.sources[i].get();
        r->aggregated = c.g.chance(1, 2);
        if (r->aggregated && c.g.chance(1, 2))
            r->limit = c.g.range(0, 60);
        int how = int(c.g.index(3));
        if (how == 0)
            r->r.reset(new odc::api::Reader(r->src->path, r->aggregated, r->limit));
        else if (how == 1) {
            r->dh.reset(new eckit::MemoryHandle(r->src->bytes.data(), r->src->bytes.size()));
            r->dh->openForRead();
            r->r.reset(new odc::api::Reader(*r->dh, r->aggregated, r->limit));
        }
        else
            r->r.reset(new odc::api::Reader(new eckit::MemoryHandle(r->src->bytes.data(), r->src->bytes.size()), r->aggregated, r->limit));
        c.note("reader " + std::to_string(readers.size()) + " on source " + std::to_string(i) + (r->aggregated ? " aggregated" : "") +
               " up to " + std::to_string(r->limit));
        readers.push_back(std::move(r));
    }

    // what the next frame is; none: the end
    size_t expect(const CppReader& r, bool aggregated, long limit, bool& error) {
        const Source& s = *r.src;
        error           = false;
        if (r.atEnd)
            return 0;
        if (r.pos >= s.frames.size()) {
            error = s.damaged;
            return 0;
        }
        size_t rows = s.frames[r.pos].nrows, count = 1;
        while (aggregated && r.pos + count < s.frames.size()) {
            const auto& g = s.frames[r.pos + count];
            if ((limit >= 0 && rows + g.nrows > size_t(limit)) || !compatible(s.frames[r.pos], g))
                break;
            rows += g.nrows;
            count++;
        }
        error = (limit >= 0 && rows > size_t(limit)) || (aggregated && s.damaged && r.pos + count == s.frames.size());
        return count;
    }

    void next(Slot& x, size_t ri) {
        CppReader& r    = *readers[ri];
        bool aggregated = r.aggregated, own = c.g.chance(1, 2);
        long limit      = r.limit;
        if (own) {
            aggregated = c.g.chance(1, 2);
            limit      = aggregated && c.g.chance(1, 2) ? c.g.range(0, 60) : -1;
        }
        bool error   = false;
        size_t count = expect(r, aggregated, limit, error);
        std::string what = name(x) + " = next of reader " + std::to_string(ri) + (own ? " (mode given)" : "") + (aggregated ? " aggregated" : "") +
                           " up to " + std::to_string(limit);
        c.note(what);
        bool failed = false;
        try {
            if (own)
                x.f = r.r->next(aggregated, limit);
            else
                x.f = r.r->next();
        }
        catch (std::exception&) {
            failed = true;
        }
        VF_CHECK(c, failed == error, what << (error ? " should fail" : " fails"));
        if (failed) {
            c.label("advance fails");
            return;
        }
        VF_CHECK(c, bool(x.f) == (count > 0), what << (count ? " reports the end" : " gives a frame after the last"));
        x.info  = nullptr;
        x.props = nullptr;
        x.set   = count > 0;
        if (!count) {
            r.atEnd = true;
            return;
        }
        x.src    = r.src;
        x.reader = r.r.get();
        x.first  = r.pos;
        x.count  = count;
        x.want   = logical(*r.src, r.pos, count);
        r.pos += count;
        c.labelIf(count > 1, "several frames joined");
    }

    void state(Slot& to, const Slot& from) {
        to.set    = from.set;
        to.src    = from.src;
        to.reader = from.reader;
        to.first  = from.first;
        to.count  = from.count;
        to.want   = from.want;
        to.info   = nullptr;
        to.props  = nullptr;
    }

    void attributes(Slot& x) {
        VF_CHECK(c, bool(x.f) == x.set, name(x) << (x.set ? " is empty" : " is not empty"));
        if (!x.set)
            return;
        const auto& v = x.f.columnInfo();
        const auto& p = x.f.properties();
        VF_CHECK(c, !x.info || x.info == &v, "the column information of " << name(x) << " moved");
        VF_CHECK(c, !x.props || x.props == &p, "the properties of " << name(x) << " moved");
        x.info  = &v;
        x.props = &p;
        VF_CHECK(c, x.f.rowCount() == x.want.nrows, name(x) << " has " << x.f.rowCount() << " rows instead of " << x.want.nrows);
        VF_CHECK(c, v.size() == x.want.cols.size() && x.f.columnCount() == v.size(), name(x) << ": number of columns");
        for (size_t k = 0; k < v.size(); k++) {
            const ref::Col& a = x.want.cols[k];
            VF_CHECK(c, v[k].name == a.name && int(v[k].type) == int(a.type) && v[k].decodedSize == a.width && x.f.hasColumn(a.name),
                     name(x) << ": column " << k << " is " << v[k].name);
            VF_CHECK(c, v[k].bitfield.size() == a.bits.size(), name(x) << ": members of " << a.name);
            for (size_t i = 0; i < a.bits.size(); i++)
                VF_CHECK(c, v[k].bitfield[i].name == a.bits[i].name && size_t(v[k].bitfield[i].size) == size_t(a.bits[i].size),
                         name(x) << ": member " << i << " of " << a.name);
        }
        if (!x.src)
            return;
        VF_CHECK(c, p == x.want.props, name(x) << ": properties differ");
        // the bytes it comes from
        size_t at = 0, len = 0;
        for (size_t i = 0; i < x.first + x.count; i++)
            (i < x.first ? at : len) += x.src->sizes.at(i);
        VF_CHECK(c, size_t((long long)x.f.offset()) == at && size_t((long long)x.f.length()) == len,
                 name(x) << " is at " << (long long)x.f.offset() << "+" << (long long)x.f.length() << ", not " << at << "+" << len);
        if (c.g.chance(1, 3)) {
            eckit::Buffer b = x.f.encodedData();
            VF_CHECK(c, std::string(static_cast<const char*>(b.data()), b.size()) == x.src->bytes.substr(at, len), "encoded data of " << name(x));
        }
        w.checks++;
    }

    void values(Slot& x) {
        if (!x.set)
            return;
        c.note("decode " + name(x));
        ref::Frame got = x.want;
        std::vector<std::string> names;
        std::vector<std::vector<char>> mem(got.cols.size());
        std::vector<odc::api::StridedData> sd;
        for (size_t k = 0; k < got.cols.size(); k++) {
            size_t s = got.cols[k].width + 8 * size_t(c.g.range(0, 1));
            mem[k].assign(s * got.nrows + 8, '\x5a');
            names.push_back(got.cols[k].name);
            sd.emplace_back(mem[k].data(), got.nrows, got.cols[k].width, s);
        }
        odc::api::Decoder d(names, sd);
        size_t times = size_t(c.g.range(1, 2));
        for (size_t t = 0; t < times; t++)
            d.decode(x.f, size_t(c.g.range(1, 3)));
        for (size_t k = 0; k < got.cols.size(); k++) {
            ref::Col& col = got.cols[k];
            col.cells.clear();
            col.missing = ref::defaultMissing(col.type);
            for (size_t r = 0; r < got.nrows; r++)
                col.cells.push_back(capi::getCell(col, &mem[k][r * sd[k].stride()], col.width));
        }
        std::string e = gen::diff(x.want, got);
        VF_CHECK(c, e.empty(), name(x) << ": " << e);
        w.checks++;
    }

    void span(Slot& x) {
        if (!x.set || !x.src || x.want.nrows == 0 || spans.size() > 8)
            return;
        Spanned s;
        for (auto& k : x.want.cols)
            if (k.width == 8 && c.g.chance(1, 2))
                s.columns.push_back(k.name);
        c.note("span of " + std::to_string(s.columns.size()) + " columns of " + name(x));
        try {
            s.span.reset(new odc::api::Span(x.f.span(s.columns, false)));
        }
        catch (std::exception&) {
            // n.b. C12 says which
            c.label("no span");
            return;
        }
        s.src   = x.src;
        s.first = x.first;
        s.count = x.count;
        s.text  = text(*s.span);
        for (auto& o : spans)
            if (o.src == s.src && o.first == s.first && o.count == s.count && o.columns == s.columns) {
                VF_CHECK(c, o.text == s.text, "another span of the same frame and columns: " << s.text << " and " << o.text);
                c.label("the same span again");
            }
        spans.push_back(std::move(s));
    }

    void oldSpan() {
        if (spans.empty())
            return;
        Spanned& s = spans[c.g.index(spans.size())];
        if (c.g.chance(1, 2))
            s.span.reset(new odc::api::Span(std::move(*s.span)));
        else {
            odc::api::Span t;
            t       = std::move(*s.span);
            *s.span = std::move(t);
        }
        VF_CHECK(c, text(*s.span) == s.text, "a span changed from " << s.text << " to " << text(*s.span));
        size_t at = 0;
        for (size_t i = 0; i < s.first; i++)
            at += s.src->sizes.at(i);
        VF_CHECK(c, size_t((long long)s.span->offset()) == at, "offset of a span");
        w.checks++;
    }

    // a new frame on memory of its own
    void filter(Slot& x) {
        if (!x.set || x.want.nrows == 0)
            return;
        auto y = std::make_unique<Slot>();
        c.note("filter " + name(x));
        try {
            y->f = x.f.filter("select *");
        }
        catch (std::exception& e) {
            // n.b. names the query language cannot tell apart (C16, C17)
            c.label("not filtered");
            return;
        }
        c.label("filtered");
        y->set  = bool(y->f);
        if (!y->set)
            return;
        std::vector<ref::Frame> all = ref::decodeAll(bytesOf(y->f));
        y->want                     = gen::join(all);
        slots.push_back(std::move(y));
    }

    std::string bytesOf(odc::api::Frame& f) {
        eckit::Buffer b = f.encodedData();
        return std::string(static_cast<const char*>(b.data()), b.size());
    }
};

void cppHistory(Ctx& c, const gen::Opts& o, size_t maxSteps) {
    capi::setLongs(c.g.chance(1, 2));
    Cpp k(c);
    size_t ns = size_t(c.g.range(1, 3));
    for (size_t i = 0; i < ns; i++)
        k.w.makeSource(o, i);
    auto& g = c.g;
    try {
        k.open();
        k.slots.push_back(std::make_unique<Slot>());
        size_t steps = size_t(g.range(5, int64_t(maxSteps)));
        size_t copies = 0;
        for (size_t i = 0; i < steps; i++) {
            Slot& x = *k.slots[g.index(k.slots.size())];
            Slot& y = *k.slots[g.index(k.slots.size())];
            switch (g.weighted({10, 5, 5, 3, 4, 3, 2, 2, 1, 3, 2, 1})) {
                case 0:
                    k.next(x, g.index(k.readers.size()));
                    break;
                case 1:
                    k.attributes(x);
                    break;
                case 2:
                    k.values(x);
                    break;
                case 3:
                    if (k.slots.size() < 12) {
                        auto n = std::make_unique<Slot>();
                        c.note("frame " + std::to_string(k.slots.size()) + " copies " + k.name(x));
                        odc::api::Frame f(x.f);
                        if (g.chance(1, 2))
                            n->f = f;
                        else
                            n->f = std::move(f);
                        k.state(*n, x);
                        k.slots.push_back(std::move(n));
                        copies++;
                    }
                    break;
                case 4:
                    c.note(k.name(x) + " = " + k.name(y));
                    c.labelIf(&x == &y, "assigned to itself");
                    x.f = y.f;
                    k.state(x, y);
                    copies++;
                    break;
                case 5:
                    if (&x != &y) {
                        c.note(k.name(x) + " = moved " + k.name(y));
                        x.f = std::move(y.f);
                        k.state(x, y);
                        y.f   = odc::api::Frame();
                        y.set = false;
                        y.info = nullptr;
                        y.props = nullptr;
                        copies++;
                    }
                    break;
                case 6:
                    if (k.slots.size() < 12)
                        k.slots.push_back(std::make_unique<Slot>());
                    break;
                case 7:
                    if (k.slots.size() > 1) {
                        c.note("destroy " + k.name(x));
                        for (size_t n = 0; n < k.slots.size(); n++)
                            if (k.slots[n].get() == &x) {
                                k.slots.erase(k.slots.begin() + long(n));
                                break;
                            }
                    }
                    break;
                case 8:
                    if (k.readers.size() < 6)
                        k.open();
                    break;
                case 9:
                    k.span(x);
                    break;
                case 10:
                    k.oldSpan();
                    break;
                default:
                    if (k.slots.size() < 12)
                        k.filter(x);
            }
        }
        for (size_t n = 0; n < k.slots.size(); n++) {
            k.attributes(*k.slots[n]);
            k.values(*k.slots[n]);
        }
        // results of filters outlive everything else
        for (size_t n = k.slots.size(); n-- > 0;)
            if (k.slots[n]->src)
                k.slots.erase(k.slots.begin() + long(n));
        k.readers.clear();
        for (auto& x : k.slots) {
            k.attributes(*x);
            k.values(*x);
        }
        for (size_t n = 0; n < k.spans.size(); n++)
            k.oldSpan();
        c.label("C++");
        c.nontrivial = k.w.checks > 2 && copies > 0;
    }
    catch (Failure&) {
        throw;
    }
    catch (std::exception& e) {
        c.fail(std::string("exception: ") + e.what());
    }
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C26";
    s.rule =
        "histories of 5 to 40 calls (thorough: 120) over up to 6 readers (by path, buffer, stream, own and shared file "
        "descriptor) of 1-3 generated sources of 0-5 frames, some ending in a damaged frame: opening, new frames, "
        "advancing (single and aggregated, any row limit), copying, attributes, properties, decoding (fresh and kept "
        "decoders, own and library memory, threads), failing calls, freeing in any order; every observation is compared "
        "with a model in which a reader has one position and a handle refers to the frames it was advanced over; "
        "non-trivial: at least three observations after two advances with copies or several handles";
    s.init = capi::init;
    gen::Opts o;
    o.maxRows = 12, o.maxCols = 4, o.edgeShape = false;
    gen::Opts tiny = o;
    tiny.maxCols = 2, tiny.maxRows = 4;
    s.subs.push_back({"histories", [=](Ctx& c) { history(c, o, 40); }, 6000, 200000});
    s.subs.push_back({"long histories", [=](Ctx& c) { history(c, tiny, 120); }, 2000, 100000});
    s.subs.push_back({"C++ objects", [=](Ctx& c) { cppHistory(c, o, 40); }, 3000, 80000});
    s.assumptions = {"a frame is not used, except to be freed, after its reader has been closed",
                     "the frames of one reader, copies included, share the reader's position in the stream"};
    return vf::main(argc, argv, s);
}
