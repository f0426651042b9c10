// C11: C API calls fail cleanly and leave their objects usable
#include "capi.h"

#include <fcntl.h>
#include <unistd.h>

#include <climits>

using namespace vf;

namespace {

int handlerCalls = 0, handlerCode = 0;
void* handlerContext = nullptr;
int marker;
void onFailure(void* ctx, int code) {
    handlerCalls++;
    handlerCode    = code;
    handlerContext = ctx;
}

struct Monitor {
    Ctx& c;
    bool handler;
    int good = 0, bad = 0;
    Monitor(Ctx& cc, bool h) : c(cc), handler(h) {
        odc_set_failure_handler(h ? onFailure : nullptr, &marker);
        handlerCalls = 0;
    }
    ~Monitor() { odc_set_failure_handler(nullptr, nullptr); }
    template <typename F>
    int call(F fn) {
        handlerCalls = 0;
        try {
            return fn();
        }
        catch (std::exception& e) {
            c.fail(std::string("an exception escaped: ") + e.what());
        }
        catch (...) {
            c.fail("an exception escaped");
        }
    }
    // a call that has to fail
    template <typename F>
    void refuse(const std::string& what, F fn) {
        c.note("invalid: " + what);
        int rc = call(fn);
        VF_CHECK(c, rc != ODC_SUCCESS, what << ": no error");
        VF_CHECK(c, rc != ODC_ITERATION_COMPLETE, what << ": reported as the end of an iteration");
        const char* s = odc_error_string(rc);
        VF_CHECK(c, s && *s && std::string(s) != "<unknown>" && std::string(s) != "Success", what << ": error " << rc << " has no description");
        VF_CHECK(c, handlerCalls == (handler ? 1 : 0), what << ": the failure handler was called " << handlerCalls << " times");
        VF_CHECK(c, !handler || (handlerCode == rc && handlerContext == &marker),
                 what << ": the handler was given the code " << handlerCode << ", the call returned " << rc);
        bad++;
    }
    template <typename F>
    int accept(const std::string& what, F fn) {
        int rc = call(fn);
        VF_CHECK(c, rc == ODC_SUCCESS || rc == ODC_ITERATION_COMPLETE, what << " failed: " << capi::errorText(rc));
        VF_CHECK(c, handlerCalls == 0, what << ": the failure handler was called although the call succeeded");
        good++;
        return rc;
    }
};
#define ACCEPT(m, call_) (m).accept(#call_, [&]() -> int { return (call_); })
#define REFUSE(m, call_) (m).refuse(#call_, [&]() -> int { return (call_); })

int badIndex(Src& g, int n) {
    switch (g.index(5)) {
        case 0:
            return n;
        case 1:
            return -1;
        case 2:
            return n + int(g.range(1, 100));
        case 3:
            return INT_MAX;
        default:
            return INT_MIN;
    }
}
long negative(Src& g) {
    return g.pick<long>({-1, -8, LONG_MIN, INT_MIN, -1000});
}

// every function given null instead of an object or a place for its result
void nulls(Ctx& c) {
    capi::setLongs(false);
    Monitor m(c, c.g.chance(3, 4));
    gen::Opts o;
    o.maxRows         = 5;
    ref::Frame f      = gen::genTable(c.g, o);
    std::string bytes = gen::encodeAny(c.g, f);
    odc_reader_t* rd  = nullptr;
    odc_frame_t* fr   = nullptr;
    ACCEPT(m, odc_open_buffer(&rd, bytes.data(), long(bytes.size())));
    ACCEPT(m, odc_new_frame(&fr, rd));
    ACCEPT(m, odc_next_frame(fr));
    odc_decoder_t* d = nullptr;
    ACCEPT(m, odc_new_decoder(&d));
    capi::Encoding e;
    e.setup(f, capi::Layout());
    int i          = 0;
    long n         = 0;
    bool b         = false;
    const char *s1 = nullptr, *s2 = nullptr;
    const void* p = nullptr;
    char buf[8];
    odc_frame_t* cp  = nullptr;
    odc_reader_t* r2 = nullptr;
    auto cb          = [](void*, const void*, long k) -> long { return k; };
    for (int k = int(c.g.range(1, 12)); k > 0; k--) {
        switch (c.g.index(52)) {
            case 0: REFUSE(m, odc_close(nullptr)); break;
            case 1: REFUSE(m, odc_new_frame(&cp, nullptr)); break;
            case 2: REFUSE(m, odc_free_frame(nullptr)); break;
            case 3: REFUSE(m, odc_next_frame(nullptr)); break;
            case 4: REFUSE(m, odc_next_frame_aggregated(nullptr, -1)); break;
            case 5: REFUSE(m, odc_copy_frame(nullptr, &cp)); break;
            case 6: REFUSE(m, odc_frame_row_count(nullptr, &n)); break;
            case 7: REFUSE(m, odc_frame_column_count(nullptr, &i)); break;
            case 8: REFUSE(m, odc_frame_column_attributes(nullptr, 0, &s1, &i, &i, &i)); break;
            case 9: REFUSE(m, odc_frame_bitfield_attributes(nullptr, 0, 0, &s1, &i, &i)); break;
            case 10: REFUSE(m, odc_frame_properties_count(nullptr, &i)); break;
            case 11: REFUSE(m, odc_frame_property_idx(nullptr, 0, &s1, &s2)); break;
            case 12: REFUSE(m, odc_frame_property(nullptr, "encoder", &s1)); break;
            case 13: REFUSE(m, odc_decoder_defaults_from_frame(nullptr, fr)); break;
            case 14: REFUSE(m, odc_decoder_defaults_from_frame(d, nullptr)); break;
            case 15: REFUSE(m, odc_decoder_set_column_major(nullptr, true)); break;
            case 16: REFUSE(m, odc_decoder_set_row_count(nullptr, 1)); break;
            case 17: REFUSE(m, odc_decoder_row_count(nullptr, &n)); break;
            case 18: REFUSE(m, odc_decoder_set_data_array(nullptr, buf, 8, 1, false)); break;
            case 19: REFUSE(m, odc_decoder_set_data_array(d, nullptr, 8, 1, false)); break;
            case 20: REFUSE(m, odc_decoder_data_array(nullptr, &p, &n, &n, &b)); break;
            case 21: REFUSE(m, odc_decoder_add_column(nullptr, "x")); break;
            case 22: REFUSE(m, odc_decoder_add_column(d, nullptr)); break;
            case 23: REFUSE(m, odc_decoder_column_count(nullptr, &i)); break;
            case 24: REFUSE(m, odc_decoder_column_set_data_size(nullptr, 0, 8)); break;
            case 25: REFUSE(m, odc_decoder_column_set_data_array(nullptr, 0, 8, 8, buf)); break;
            case 26: REFUSE(m, odc_decoder_column_data_array(nullptr, 0, &i, &i, &p)); break;
            case 27: REFUSE(m, odc_decode(nullptr, fr, &n)); break;
            case 28: REFUSE(m, odc_decode(d, nullptr, &n)); break;
            case 29: REFUSE(m, odc_decode_threaded(nullptr, fr, &n, 2)); break;
            case 30: REFUSE(m, odc_encoder_add_property(nullptr, "a", "b")); break;
            case 31: REFUSE(m, odc_encoder_set_row_count(nullptr, 1)); break;
            case 32: REFUSE(m, odc_encoder_set_rows_per_frame(nullptr, 1)); break;
            case 33: REFUSE(m, odc_encoder_set_data_array(nullptr, buf, 8, 1, 0)); break;
            case 34: REFUSE(m, odc_encoder_add_column(nullptr, "x", ODC_INTEGER)); break;
            case 35: REFUSE(m, odc_encoder_column_set_data_size(nullptr, 0, 8)); break;
            case 36: REFUSE(m, odc_encoder_column_set_data_array(nullptr, 0, 8, 8, buf)); break;
            case 37: REFUSE(m, odc_encoder_column_add_bitfield(nullptr, 0, "x", 1)); break;
            case 38: REFUSE(m, odc_encode_to_stream(nullptr, nullptr, cb, &n)); break;
            case 39: REFUSE(m, odc_encode_to_buffer(nullptr, buf, 8, &n)); break;
            case 40: {
                int fd = open("/dev/null", O_WRONLY);
                REFUSE(m, odc_encode_to_file_descriptor(nullptr, fd, &n));
                close(fd);
                break;
            }
            case 41: REFUSE(m, odc_frame_row_count(fr, nullptr)); break;
            case 42: REFUSE(m, odc_frame_column_count(fr, nullptr)); break;
            case 43: REFUSE(m, odc_encoder_add_column(e.enc, nullptr, ODC_INTEGER)); break;
            case 44: REFUSE(m, odc_encoder_add_property(e.enc, nullptr, "x")); break;
            case 45: REFUSE(m, odc_encoder_add_property(e.enc, "x", nullptr)); break;
            case 46: REFUSE(m, odc_open_path(&r2, nullptr)); break;
            case 47: REFUSE(m, odc_open_stream(&r2, nullptr, nullptr)); break;
            case 48: REFUSE(m, odc_encode_to_stream(e.enc, nullptr, nullptr, &n)); break;
            case 49: REFUSE(m, odc_missing_integer(nullptr)); break;
            case 50: REFUSE(m, odc_missing_double(nullptr)); break;
            default: REFUSE(m, odc_decoder_row_count(d, nullptr)); break;
        }
    }
    // and all the objects still work
    ref::Frame g  = capi::readFrame(fr);
    std::string df = gen::diff(f, g);
    VF_CHECK(c, df.empty(), "the frame afterwards: " << df);
    VF_CHECK(c, capi::drain(e.enc) == capi::encode(f), "the encoder gives other bytes afterwards");
    long rows = 0;
    ACCEPT(m, odc_decoder_defaults_from_frame(d, fr));
    ACCEPT(m, odc_decode(d, fr, &rows));
    ACCEPT(m, odc_free_decoder(d));
    ACCEPT(m, odc_free_frame(fr));
    ACCEPT(m, odc_close(rd));
    c.nontrivial = true;
}

// An encoder that gets invalid calls between the valid ones encodes like one that does not
void encoders(Ctx& c, const gen::Opts& o) {
    capi::setLongs(c.g.chance(1, 2));
    ref::Frame f   = gen::genTable(c.g, o);
    capi::Layout l = capi::genLayout(c.g, f);
    if (c.g.chance(1, 2))
        l.rowsPerFrame = c.g.range(1, int64_t(f.nrows) + 1);
    c.note(l.text() + " " + gen::describe(f, 3));
    std::string want = capi::encode(f, l);
    capi::Encoding e;
    e.setup(f, l);
    Monitor m(c, c.g.chance(3, 4));
    int nc = int(f.cols.size());
    int k  = int(c.g.index(f.cols.size()));
    static char some[64];
    long n = 0;
    for (int t = int(c.g.range(1, 6)); t > 0; t--) {
        int bi  = badIndex(c.g, nc);
        long ng = negative(c.g);
        switch (c.g.index(19)) {
            case 0: REFUSE(m, odc_encoder_column_set_data_size(e.enc, bi, 8)); break;
            case 1: REFUSE(m, odc_encoder_column_set_data_size(e.enc, k, int(c.g.range(1, 7)))); break;
            case 2: REFUSE(m, odc_encoder_column_set_data_size(e.enc, k, -8)); break;
            case 3: REFUSE(m, odc_encoder_column_set_data_array(e.enc, bi, 8, 8, some)); break;
            case 4: REFUSE(m, odc_encoder_column_set_data_array(e.enc, k, 12, 8, some)); break;
            case 5: REFUSE(m, odc_encoder_column_set_data_array(e.enc, k, 8, 9, some)); break;
            case 6: REFUSE(m, odc_encoder_column_set_data_array(e.enc, k, 8, -8, some)); break;
            case 7: REFUSE(m, odc_encoder_column_add_bitfield(e.enc, bi, "b", 1)); break;
            case 8: REFUSE(m, odc_encoder_column_add_bitfield(e.enc, k, "b", 33)); break;
            case 9: REFUSE(m, odc_encoder_column_add_bitfield(e.enc, k, "b", int(c.g.pick<int>({-1, -5, INT_MIN, INT_MAX})))); break;
            case 10: REFUSE(m, odc_encoder_set_row_count(e.enc, ng)); break;
            case 11: REFUSE(m, odc_encoder_set_rows_per_frame(e.enc, ng)); break;
            case 12: REFUSE(m, odc_encoder_set_rows_per_frame(e.enc, 0)); break;
            case 13: REFUSE(m, odc_encoder_set_data_array(e.enc, some, ng, 1, 0)); break;
            case 14: REFUSE(m, odc_encoder_set_data_array(e.enc, some, 8, ng, 0)); break;
            case 15: REFUSE(m, odc_encoder_set_data_array(e.enc, some, 8, 1, int(c.g.pick<int>({-8, 1, 4, 12, INT_MIN, INT_MAX})))); break;
            case 16: {
                size_t room = size_t(c.g.range(0, int64_t(want.size()) - 1));
                std::string buf(room + 16, 'x');
                REFUSE(m, odc_encode_to_buffer(e.enc, &buf[0], long(room), &n));
                VF_CHECK(c, buf.substr(room) == std::string(16, 'x'), "the buffer was overrun");
                break;
            }
            case 17: {
                std::string buf(want.size(), 'x');
                REFUSE(m, odc_encode_to_buffer(e.enc, &buf[0], ng, &n));
                break;
            }
            default: REFUSE(m, odc_encode_to_file_descriptor(e.enc, c.g.pick<int>({-1, 987654}), &n));
        }
    }
    std::string got = capi::drain(e.enc);
    VF_CHECK(c, got == want, "after " << m.bad << " invalid calls the encoder gives other bytes");
    VF_CHECK(c, e.sourceUntouched(), "the source arrays changed");
    c.nontrivial = m.bad > 0;
}

// An encoder whose configuration is inconsistent reports that when encoding, and works once it has been put right
void inconsistent(Ctx& c, const gen::Opts& o) {
    capi::setLongs(false);
    Monitor m(c, true);
    ref::Frame f = gen::genTable(c.g, o);
    size_t rw    = f.rowWidth();
    std::string array(rw * f.nrows, 0);
    size_t off = 0;
    for (auto& col : f.cols) {
        for (size_t r = 0; r < f.nrows; r++)
            capi::putCell(col, col.cells[r], &array[r * rw + off], col.width);
        off += col.width;
    }
    odc_encoder_t* e = nullptr;
    ACCEPT(m, odc_new_encoder(&e));
    struct Free {
        odc_encoder_t* e;
        ~Free() { odc_free_encoder(e); }
    } guard{e};
    std::string sink(8 * array.size() + 100000, 0);
    auto encode = [&](long* n) { return odc_encode_to_buffer(e, &sink[0], long(sink.size()), n); };
    long n      = 0;
    int stage   = int(c.g.index(6));
    if (stage == 0)
        REFUSE(m, encode(&n));  // nothing configured
    for (size_t k = 0; k < f.cols.size(); k++) {
        ACCEPT(m, odc_encoder_add_column(e, f.cols[k].name.c_str(), f.cols[k].type));
        ACCEPT(m, odc_encoder_column_set_data_size(e, int(k), int(f.cols[k].width)));
        for (auto& b : f.cols[k].bits)
            ACCEPT(m, odc_encoder_column_add_bitfield(e, int(k), b.name.c_str(), b.size));
    }
    if (stage == 1)
        REFUSE(m, encode(&n));  // no data
    if (stage == 2) {
        ACCEPT(m, odc_encoder_set_row_count(e, long(f.nrows)));
        REFUSE(m, encode(&n));  // rows, but no data
    }
    if (stage == 3) {  // more rows than the array has
        ACCEPT(m, odc_encoder_set_data_array(e, array.data(), long(rw), long(f.nrows), 0));
        ACCEPT(m, odc_encoder_set_row_count(e, long(f.nrows) + c.g.range(1, 1000)));
        REFUSE(m, encode(&n));
        ACCEPT(m, odc_encoder_set_row_count(e, long(f.nrows)));
    }
    if (stage == 4) {  // narrower than the columns
        ACCEPT(m, odc_encoder_set_row_count(e, long(f.nrows)));
        ACCEPT(m, odc_encoder_set_data_array(e, array.data(), long(rw) - 8, long(f.nrows), 0));
        REFUSE(m, encode(&n));
    }
    if (stage == 5) {  // column-major with cells that do not divide the columns
        int wide = 8 * int(c.g.range(2, 9));
        bool fits = true;
        for (auto& col : f.cols)
            fits = fits && col.width % size_t(wide) == 0;
        if (!fits) {
            ACCEPT(m, odc_encoder_set_data_array(e, array.data(), long(rw), long(f.nrows), wide));
            REFUSE(m, encode(&n));
            c.label("cells that do not divide the columns");
        }
    }
    ACCEPT(m, odc_encoder_set_data_array(e, array.data(), long(rw), long(f.nrows), 0));
    ACCEPT(m, encode(&n));
    f.props.clear();
    auto v = capi::readAll(sink.substr(0, size_t(n)));
    VF_CHECK(c, v.size() == 1, "encoded " << v.size() << " frames");
    std::string df = gen::diff(f, v[0]);
    VF_CHECK(c, df.empty(), "encoded after a failure: " << df);
    c.nontrivial = m.bad > 0;
}

// A decoder and a frame that get invalid calls behave like ones that do not
void decoders(Ctx& c, const gen::Opts& o) {
    capi::setLongs(c.g.chance(1, 2));
    ref::Frame f      = gen::genTable(c.g, o);
    ref::Frame f2     = c.g.chance(1, 2) ? gen::genLike(c.g, f, o) : gen::genTable(c.g, o);
    std::string bytes = gen::encodeAny(c.g, f) + gen::encodeAny(c.g, f2);
    c.note(gen::describe(f, 3));
    c.note(gen::describe(f2, 3));
    Monitor m(c, c.g.chance(3, 4));
    struct H {
        odc_reader_t* rd = nullptr;
        odc_frame_t* fr  = nullptr;
        odc_decoder_t* d = nullptr;
        ~H() {
            if (d)
                odc_free_decoder(d);
            if (fr)
                odc_free_frame(fr);
            if (rd)
                odc_close(rd);
        }
    } h;
    ACCEPT(m, odc_open_buffer(&h.rd, bytes.data(), long(bytes.size())));
    ACCEPT(m, odc_new_frame(&h.fr, h.rd));
    long n = 0;
    int i  = 0;
    const char *s1 = nullptr, *s2 = nullptr;
    const void* p = nullptr;
    if (c.g.chance(1, 3)) {  // not positioned yet
        switch (c.g.index(5)) {
            case 0: REFUSE(m, odc_frame_row_count(h.fr, &n)); break;
            case 1: REFUSE(m, odc_frame_column_count(h.fr, &i)); break;
            case 2: REFUSE(m, odc_frame_column_attributes(h.fr, 0, &s1, &i, &i, &i)); break;
            case 3: REFUSE(m, odc_frame_properties_count(h.fr, &i)); break;
            default: REFUSE(m, odc_frame_property(h.fr, "x", &s1));
        }
        c.label("frame not positioned");
    }
    ACCEPT(m, odc_next_frame(h.fr));
    ACCEPT(m, odc_new_decoder(&h.d));
    // the columns wanted, in an order of their own
    std::vector<int> order;
    for (size_t k = 0; k < f.cols.size(); k++)
        order.push_back(int(k));
    c.g.shuffle(order);
    order.resize(1 + c.g.index(order.size()));
    bool cm       = c.g.chance(1, 2);
    int added     = 0;
    bool rowsSet  = false;
    bool ownArray = c.g.chance(1, 2);
    size_t width  = 0;
    for (int k : order)
        width += f.cols[size_t(k)].width;
    static char some[64];
    auto invalid = [&]() {
        int ncol = int(f.cols.size());
        int bi   = badIndex(c.g, ncol);
        int di   = badIndex(c.g, added);
        long ng  = negative(c.g);
        switch (c.g.index(17)) {
            case 0: REFUSE(m, odc_frame_column_attributes(h.fr, bi, &s1, &i, &i, &i)); break;
            case 1: REFUSE(m, odc_frame_bitfield_attributes(h.fr, bi, 0, &s1, &i, &i)); break;
            case 2: {
                int k = int(c.g.index(f.cols.size()));
                int b = badIndex(c.g, int(f.cols[size_t(k)].bits.size()));
                REFUSE(m, odc_frame_bitfield_attributes(h.fr, k, b, &s1, &i, &i));
                break;
            }
            case 3: {
                ACCEPT(m, odc_frame_properties_count(h.fr, &i));
                int b = badIndex(c.g, i);
                REFUSE(m, odc_frame_property_idx(h.fr, b, &s1, &s2));
                break;
            }
            case 4: REFUSE(m, odc_decoder_column_set_data_size(h.d, di, 8)); break;
            case 5: REFUSE(m, odc_decoder_column_set_data_array(h.d, di, 8, 8, some)); break;
            case 6: REFUSE(m, odc_decoder_column_data_array(h.d, di, &i, &i, &p)); break;
            case 7: REFUSE(m, odc_decoder_set_row_count(h.d, ng)); break;
            case 8: REFUSE(m, odc_decoder_set_data_array(h.d, some, ng, 1, false)); break;
            case 9: REFUSE(m, odc_decoder_set_data_array(h.d, some, 8, ng, true)); break;
            case 10: REFUSE(m, odc_decoder_set_data_array(h.d, some, 0, 1, true)); break;
            case 11:
                if (added)
                    REFUSE(m, odc_decoder_column_set_data_size(h.d, int(c.g.index(size_t(added))), int(c.g.pick<int>({-8, 4, 12, INT_MIN, 1}))));
                break;
            case 12:
                if (added)
                    REFUSE(m, odc_decoder_column_set_data_array(h.d, int(c.g.index(size_t(added))), 8, int(c.g.pick<int>({-8, 4, 12, INT_MIN, 1})), some));
                break;
            case 13:  // threads
                if (added && rowsSet)
                    REFUSE(m, odc_decode_threaded(h.d, h.fr, &n, c.g.pick<int>({0, -1, INT_MIN})));
                break;
            case 14:  // too few rows
                if (!rowsSet && f.nrows > 0)
                    REFUSE(m, odc_decode(h.d, h.fr, &n));
                break;
            case 15: REFUSE(m, odc_column_type_name(c.g.pick<int>({6, -1, 99, INT_MAX, INT_MIN}), &s1)); break;
            default: REFUSE(m, odc_integer_behaviour(c.g.pick<int>({0, 3, -1, 77})));
        }
    };
    for (int k : order) {
        while (c.g.chance(1, 3))
            invalid();
        ACCEPT(m, odc_decoder_add_column(h.d, f.cols[size_t(k)].name.c_str()));
        added++;
    }
    while (c.g.chance(1, 2))
        invalid();
    std::string mem((width + 8) * (f.nrows + 3), '\x11');
    if (ownArray) {
        ACCEPT(m, odc_decoder_set_data_array(h.d, &mem[0], long(width), long(f.nrows), cm));
    }
    else {
        ACCEPT(m, odc_decoder_set_row_count(h.d, long(f.nrows)));
        ACCEPT(m, odc_decoder_set_column_major(h.d, cm));
    }
    rowsSet = true;
    while (c.g.chance(1, 2))
        invalid();
    if (c.g.chance(1, 4)) {  // a frame that lacks the columns
        odc_reader_t* r3 = nullptr;
        odc_frame_t* x   = nullptr;
        ref::Frame other;
        other.nrows = 1;
        ref::Col oc;
        oc.name = "no_such_name";
        oc.type = ref::INTEGER;
        oc.cells.resize(1);
        for (size_t k = 0; k <= f.cols.size(); k++) {
            oc.name = "no_such_name" + std::to_string(k);
            other.cols.push_back(oc);
        }
        std::string ob = gen::encodePlain(other);
        ACCEPT(m, odc_open_buffer(&r3, ob.data(), long(ob.size())));
        ACCEPT(m, odc_new_frame(&x, r3));
        ACCEPT(m, odc_next_frame(x));
        REFUSE(m, odc_decode(h.d, x, &n));
        odc_free_frame(x);
        odc_close(r3);
        c.label("columns missing in the frame");
    }
    long rows = -1;
    ACCEPT(m, odc_decode_threaded(h.d, h.fr, &rows, int(c.g.range(1, 3))));
    VF_CHECK(c, rows == long(f.nrows), "decoded " << rows << " rows");
    const void* data = nullptr;
    long w = 0, hh = 0;
    bool gotCm = false;
    ACCEPT(m, odc_decoder_data_array(h.d, &data, &w, &hh, &gotCm));
    VF_CHECK(c, w == long(width) && hh == long(f.nrows) && gotCm == cm, "the decoded array is " << w << "x" << hh);
    size_t off = 0;
    for (int k : order) {
        auto& col = f.cols[size_t(k)];
        for (size_t r = 0; r < f.nrows; r++) {
            std::string cell(col.width, 0);
            for (size_t e = 0; e < col.width / 8; e++) {
                size_t at = cm ? off * f.nrows + (e * f.nrows + r) * 8 : r * width + off + e * 8;
                memcpy(&cell[e * 8], static_cast<const char*>(data) + at, 8);
            }
            ref::Col oc = col;
            oc.missing  = ref::defaultMissing(col.type);
            ref::Cell x = capi::getCell(oc, cell.data(), col.width);
            std::string why;
            VF_CHECK(c, col.cells[r].missing || ref::sameCell(col, col.cells[r], oc, x, &why),
                     col.name << " row " << r << ": " << why << " after " << m.bad << " invalid calls");
        }
        off += col.width;
    }
    // the frame and the reader
    ref::Frame again = capi::readFrame(h.fr);
    std::string df   = gen::diff(f, again);
    VF_CHECK(c, df.empty(), "the frame afterwards: " << df);
    ACCEPT(m, odc_next_frame(h.fr));
    again = capi::readFrame(h.fr);
    df    = gen::diff(f2, again);
    VF_CHECK(c, df.empty(), "the second frame: " << df);
    VF_CHECK(c, ACCEPT(m, odc_next_frame(h.fr)) == ODC_ITERATION_COMPLETE, "more frames");
    c.nontrivial = m.bad > 0;
}

// Readers: what cannot be opened or read is reported; frames that exceed a limit are not lost
void readers(Ctx& c, const gen::Opts& o) {
    capi::setLongs(false);
    Monitor m(c, c.g.chance(3, 4));
    odc_reader_t* rd = nullptr;
    odc_frame_t* fr  = nullptr;
    // either opening or the first read fails
    auto mustFail = [&](const std::string& what, std::function<int()> open) {
        rd = nullptr;
        fr = nullptr;
        int rc = m.call(open);
        c.note(what);
        if (rc == 0) {
            ACCEPT(m, odc_new_frame(&fr, rd));
            m.refuse(what, [&] { return odc_next_frame(fr); });
            // and again
            m.refuse(what + " (again)", [&] { return odc_next_frame(fr); });
            odc_free_frame(fr);
            odc_close(rd);
        }
        else
            m.refuse(what, open);
    };
    std::string path = c.tmp + "/x.odb";
    ref::Frame f     = gen::genTable(c.g, o);
    std::string bytes = gen::encodeAny(c.g, f);
    switch (c.g.index(7)) {
        case 0:
            mustFail("a missing file", [&] { return odc_open_path(&rd, (c.tmp + "/none/such.odb").c_str()); });
            break;
        case 1:
            mustFail("a closed descriptor", [&] { return odc_open_file_descriptor(&rd, 987654); });
            break;
        case 2:
            mustFail("a negative length", [&] { return odc_open_buffer(&rd, bytes.data(), negative(c.g)); });
            break;
        case 3: {
            std::string junk = "this is not ODB-2 data";
            junk.resize(size_t(c.g.range(1, 22)));
            mustFail("other data", [&] { return odc_open_buffer(&rd, junk.data(), long(junk.size())); });
            break;
        }
        case 4: {
            writeFile(path, bytes);
            int fd = open(path.c_str(), O_WRONLY);
            mustFail("a descriptor that cannot be read", [&] { return odc_open_file_descriptor(&rd, fd); });
            close(fd);
            break;
        }
        case 5: {
            // by descriptor: eckit's FileHandle, which reads paths, takes a failed fread() for the end of the file
            int fd = open(c.tmp.c_str(), O_RDONLY | O_DIRECTORY);
            mustFail("the descriptor of a directory", [&] { return odc_open_file_descriptor(&rd, fd); });
            close(fd);
            break;
        }
        default: {  // limits
            std::vector<ref::Frame> v{f};
            size_t k = size_t(c.g.range(1, 3));
            for (size_t i = 0; i < k; i++) {
                v.push_back(gen::genLike(c.g, f, o));
                bytes += gen::encodeAny(c.g, v.back());
            }
            long limit = c.g.range(0, 60);
            c.note("limit " + std::to_string(limit));
            ACCEPT(m, odc_open_buffer(&rd, bytes.data(), long(bytes.size())));
            ACCEPT(m, odc_new_frame(&fr, rd));
            size_t at = 0;
            while (true) {
                if (at < v.size() && long(v[at].nrows) > limit) {
                    // cannot be returned, and must not be skipped either
                    REFUSE(m, odc_next_frame_aggregated(fr, limit));
                    REFUSE(m, odc_next_frame_aggregated(fr, limit));
                    c.label("frame exceeds the limit");
                    break;
                }
                if (ACCEPT(m, odc_next_frame_aggregated(fr, limit)) == ODC_ITERATION_COMPLETE) {
                    VF_CHECK(c, at == v.size(), "the iteration is complete after " << at << " of " << v.size() << " frames");
                    break;
                }
                ref::Frame g = capi::readFrame(fr);
                size_t j     = at;
                size_t rows  = 0;
                while (j < v.size() && rows < g.nrows)
                    rows += v[j++].nrows;
                VF_CHECK(c, rows == g.nrows && rows <= size_t(limit), "a logical frame of " << g.nrows << " rows");
                std::string df = gen::diff(gen::join(std::vector<ref::Frame>(v.begin() + long(at), v.begin() + long(j))), g);
                VF_CHECK(c, df.empty(), df);
                at = j;
            }
            odc_free_frame(fr);
            odc_close(rd);
        }
    }
    c.nontrivial = true;
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C11";
    s.rule =
        "histories of valid API calls with invalid ones in between (null objects and results, indices out of range, negative, "
        "misaligned and inconsistent sizes, unknown columns and types, files that cannot be read, rows beyond a limit), with and "
        "without a failure handler; the objects are compared with the outcome of the same history without the invalid calls; "
        "non-trivial: at least one invalid call was made";
    s.init = capi::init;
    gen::Opts o;
    o.maxRows = 20;
    s.subs.push_back({"nulls", [=](Ctx& c) { nulls(c); }, 6000, 60000});
    s.subs.push_back({"encoders", [=](Ctx& c) { encoders(c, o); }, 8000, 200000});
    s.subs.push_back({"inconsistent", [=](Ctx& c) { inconsistent(c, o); }, 6000, 100000});
    s.subs.push_back({"decoders", [=](Ctx& c) { decoders(c, o); }, 8000, 200000});
    s.subs.push_back({"readers", [=](Ctx& c) { readers(c, o); }, 4000, 100000});
    return vf::main(argc, argv, s);
}
