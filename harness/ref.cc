#include "ref.h"
#include <algorithm>

namespace ref {

const char* typeName(int t) {
    static const char* n[] = {"IGNORE", "INTEGER", "REAL", "STRING", "BITFIELD", "DOUBLE"};
    return t >= 0 && t <= 5 ? n[t] : "?";
}

// ---------------------------------------------------------------------------------------------- MD5 (RFC 1321)
static void md5block(uint32_t h[4], const uint8_t* p) {
    static const uint32_t K[64] = {
        0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501,
        0x698098d8, 0x8b44f7af, 0xffff5bb1, 0x895cd7be, 0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821,
        0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa, 0xd62f105d, 0x02441453, 0xd8a1e681, 0xe7d3fbc8,
        0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a,
        0xfffa3942, 0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70,
        0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x04881d05, 0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665,
        0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039, 0x655b59c3, 0x8f0ccc92, 0xffeff47d, 0x85845dd1,
        0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1, 0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391};
    static const int R[64] = {7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9,  14, 20, 5, 9,
                              14, 20, 5, 9,  14, 20, 5, 9,  14, 20, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23,
                              4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21};
    uint32_t w[16], a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 16; i++)
        w[i] = p[4 * i] | p[4 * i + 1] << 8 | p[4 * i + 2] << 16 | uint32_t(p[4 * i + 3]) << 24;
    for (int i = 0; i < 64; i++) {
        uint32_t f;
        int g;
        if (i < 16)
            f = (b & c) | (~b & d), g = i;
        else if (i < 32)
            f = (d & b) | (~d & c), g = (5 * i + 1) % 16;
        else if (i < 48)
            f = b ^ c ^ d, g = (3 * i + 5) % 16;
        else
            f = c ^ (b | ~d), g = (7 * i) % 16;
        uint32_t t = d;
        d          = c;
        c          = b;
        uint32_t x = a + f + K[i] + w[g];
        b += (x << R[i]) | (x >> (32 - R[i]));
        a = t;
    }
    h[0] += a;
    h[1] += b;
    h[2] += c;
    h[3] += d;
}

std::string md5hex(const void* data, size_t n) {
    uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
    std::string m((const char*)data, n);
    m += char(0x80);
    while (m.size() % 64 != 56)
        m += char(0);
    uint64_t bits = uint64_t(n) * 8;
    for (int i = 0; i < 8; i++)
        m += char(bits >> (8 * i));
    for (size_t i = 0; i < m.size(); i += 64)
        md5block(h, (const uint8_t*)m.data() + i);
    char o[33];
    for (int i = 0; i < 16; i++)
        snprintf(o + 2 * i, 3, "%02x", (h[i / 4] >> (8 * (i % 4))) & 0xff);
    return std::string(o, 32);
}

std::string stripNul(const std::string& s) {
    size_t k = s.find('\0');
    return k == std::string::npos ? s : s.substr(0, k);
}

// ---------------------------------------------------------------------------------------------- primitive streams
thread_local std::vector<Field>* trace = nullptr;

struct In {
    const std::string& b;
    size_t pos, end;
    bool swap;
    void need(size_t n) const {
        if (n > end - pos)
            throw FormatError("data ends early");
    }
    template <typename T>
    T get() {
        need(sizeof(T));
        char t[sizeof(T)];
        if (trace)
            trace->push_back(Field{pos, sizeof(T), std::is_floating_point<T>::value ? 'd' : 'i'});
        memcpy(t, b.data() + pos, sizeof(T));
        pos += sizeof(T);
        if (swap)
            std::reverse(t, t + sizeof(T));
        T v;
        memcpy(&v, t, sizeof(T));
        return v;
    }
    std::string bytes(size_t n) {
        need(n);
        if (trace)
            trace->push_back(Field{pos, n, 's'});
        std::string s = b.substr(pos, n);
        pos += n;
        return s;
    }
    std::string str() {
        int32_t n = get<int32_t>();
        if (n < 0)
            throw FormatError("negative string length");
        return bytes(size_t(n));
    }
};

struct Out {
    std::string b;
    bool swap;
    template <typename T>
    void put(T v) {
        char t[sizeof(T)];
        memcpy(t, &v, sizeof(T));
        if (swap)
            std::reverse(t, t + sizeof(T));
        b.append(t, sizeof(T));
    }
    void str(const std::string& s) {
        put<int32_t>(int32_t(s.size()));
        b += s;
    }
};

static const uint32_t SHORT_REAL_MISSING  = 0x00800000u;
static const uint32_t SHORT_REAL2_MISSING = 0xff7fffffu;

// ---------------------------------------------------------------------------------------------- decoder
Parts parts(const std::string& bytes, size_t off) {
    Parts p;
    if (bytes.size() - off < 5 + 4 + 8 + 36 + 4 || bytes.compare(off, 5, "\xff\xffODA", 5) != 0)
        throw FormatError("bad magic");
    In in{bytes, off + 5, bytes.size(), false};
    int32_t bo = in.get<int32_t>();
    if (bo != 1 && bo != 0x01000000)
        throw FormatError("bad byte order indicator");
    p.swapped = in.swap = bo != 1;
    in.get<int32_t>();
    in.get<int32_t>();
    in.str();
    int32_t hs = in.get<int32_t>();
    p.varHeader    = in.pos;
    p.varHeaderLen = size_t(hs);
    p.data         = in.pos + hs;
    p.dataLen      = size_t(in.get<int64_t>());
    return p;
}

bool decodeFrame(const std::string& bytes, size_t& pos, Frame& f) {
    if (pos == bytes.size())
        return false;
    f          = Frame();
    f.offset   = pos;
    if (bytes.size() - pos < 5 || bytes.compare(pos, 5, "\xff\xffODA", 5) != 0)
        throw FormatError("bad magic");
    In in{bytes, pos + 5, bytes.size(), false};
    int32_t bo = in.get<int32_t>();
    if (bo != 1 && bo != 0x01000000)
        throw FormatError("bad byte order indicator");
    in.swap = f.swapped = (bo != 1);
    int32_t major = in.get<int32_t>();
    f.minor       = in.get<int32_t>();
    if (major != 0 || f.minor < 4 || f.minor > 5)
        throw FormatError("bad version");
    std::string digest = in.str();
    if (digest.size() != 32)
        throw FormatError("bad digest length");
    int32_t hs = in.get<int32_t>();
    if (hs < 0)
        throw FormatError("negative header size");
    in.need(size_t(hs));
    if (md5hex(bytes.data() + in.pos, size_t(hs)) != digest)
        throw FormatError("digest mismatch");
    size_t dataStart = in.pos + size_t(hs);
    In h{bytes, in.pos, dataStart, in.swap};
    int64_t dataSize = h.get<int64_t>();
    int64_t prev     = h.get<int64_t>();
    int64_t nrows    = h.get<int64_t>();
    if (dataSize < 0 || prev != 0 || nrows < 0)
        throw FormatError("bad sizes in header");
    f.nrows     = size_t(nrows);
    f.dataSize  = size_t(dataSize);
    int32_t nfl = h.get<int32_t>();
    if (nfl < 0)
        throw FormatError("bad number of flags");
    for (int i = 0; i < nfl; i++)
        f.flags.push_back(h.get<double>());
    int32_t np = h.get<int32_t>();
    if (np < 0)
        throw FormatError("bad number of properties");
    for (int i = 0; i < np; i++) {
        std::string k = h.str(), v = h.str();
        if (!f.props.emplace(k, v).second)
            throw FormatError("duplicate property");
    }
    int32_t nc = h.get<int32_t>();
    if (nc < 0)
        throw FormatError("bad number of columns");
    for (int i = 0; i < nc; i++) {
        Col c;
        c.name = h.str();
        c.type = h.get<int32_t>();
        if (c.type < 1 || c.type > 5)
            throw FormatError("bad column type");
        if (c.type == BITFIELD) {
            int32_t n = h.get<int32_t>();
            if (n < 0)
                throw FormatError("bad bitfield count");
            for (int k = 0; k < n; k++)
                c.bits.push_back(Bit{h.str(), 0});
            int32_t m = h.get<int32_t>();
            if (m != n)
                throw FormatError("bitfield names and sizes differ in number");
            for (int k = 0; k < n; k++)
                c.bits[k].size = h.get<int32_t>();
        }
        c.codec      = h.str();
        c.hasMissing = h.get<int32_t>();
        if (c.codec == "constant_string") {
            c.rawMin = h.bytes(8);
            h.bytes(8);
            c.missing = h.get<double>();
        }
        else {
            c.min     = h.get<double>();
            c.max     = h.get<double>();
            c.missing = h.get<double>();
        }
        if (c.codec == "chars") {
            if (h.get<int32_t>() != 0)
                throw FormatError("chars with a string table");
        }
        else if (c.codec == "int8_string" || c.codec == "int16_string") {
            int32_t n = h.get<int32_t>();
            if (n < 0)
                throw FormatError("bad string table");
            c.strings.resize(size_t(n));
            std::vector<char> seen(n, 0);
            for (int k = 0; k < n; k++) {
                std::string s = h.str();
                h.get<int32_t>();
                int32_t idx = h.get<int32_t>();
                if (idx < 0 || idx >= n || seen[idx])
                    throw FormatError("bad string index");
                seen[idx]      = 1;
                c.strings[idx] = s;
                c.width        = std::max(c.width, (s.size() + 7) / 8 * 8);
            }
        }
        else if (c.codec == "long_constant_string") {
            c.strings.push_back(h.str());
            c.width = std::max<size_t>(8, (c.strings[0].size() + 7) / 8 * 8);
        }
        f.cols.push_back(c);
    }
    if (h.pos != dataStart)
        throw FormatError("header length does not match its content");
    f.headerLength = dataStart - pos;

    In d{bytes, dataStart, 0, in.swap};
    if (size_t(dataSize) > bytes.size() - dataStart)
        throw FormatError("row data ends early");
    d.end = dataStart + size_t(dataSize);
    std::vector<Cell> last(f.cols.size());
    for (size_t k = 0; k < f.cols.size(); k++)
        last[k].missing = true, last[k].i = int64_t(f.cols[k].missing), last[k].d = f.cols[k].missing;
    for (int64_t r = 0; r < nrows; r++) {
        std::string m = d.bytes(2);
        int start     = (unsigned char)m[0] * 256 + (unsigned char)m[1];
        if (start > nc)
            throw FormatError("row marker out of range");
        f.markers.push_back(start);
        for (int k = start; k < nc; k++) {
            Col& c = f.cols[k];
            Cell x;
            bool viaInt = c.isInt();
            auto num    = [&](double v) {
                if (viaInt)
                    x.i = int64_t(v);
                else
                    x.d = v;
                x.missing = (v == c.missing);
            };
            const std::string& co = c.codec;
            if (c.type == STRING) {
                if (co == "chars")
                    x.s = stripNul(d.bytes(8));
                else if (co == "constant_string")
                    x.s = stripNul(c.rawMin);
                else if (co == "long_constant_string")
                    x.s = stripNul(c.strings[0]);
                else if (co == "int8_string" || co == "int16_string") {
                    size_t idx = co == "int8_string" ? d.get<uint8_t>() : d.get<uint16_t>();
                    if (idx >= c.strings.size())
                        throw FormatError("string index out of range");
                    x.s = stripNul(c.strings[idx]);
                }
                else
                    throw FormatError("codec " + co + " is not a string codec");
            }
            else if (co == "constant")
                num(c.min);
            else if (co == "constant_or_missing" || co == "real_constant_or_missing" || co == "int8_missing") {
                uint8_t v = d.get<uint8_t>();
                num(v == 0xff ? c.missing : c.min + v);
            }
            else if (co == "int16_missing") {
                uint16_t v = d.get<uint16_t>();
                num(v == 0xffff ? c.missing : c.min + v);
            }
            else if (co == "int8")
                num(c.min + d.get<uint8_t>());
            else if (co == "int16")
                num(c.min + d.get<uint16_t>());
            else if (co == "int32")
                num(d.get<int32_t>());
            else if (co == "long_real")
                num(d.get<double>());
            else if (co == "short_real" || co == "short_real2") {
                uint32_t v = d.get<uint32_t>();
                float fl;
                memcpy(&fl, &v, 4);
                num(v == (co == "short_real" ? SHORT_REAL_MISSING : SHORT_REAL2_MISSING) ? c.missing : double(fl));
            }
            else
                throw FormatError("unknown codec " + co);
            last[k] = x;
        }
        for (int k = 0; k < nc; k++)
            f.cols[k].cells.push_back(last[k]);
    }
    if (d.pos != d.end)
        throw FormatError("row data is longer than its rows");
    f.length = d.end - pos;
    pos      = d.end;
    return true;
}

std::vector<Frame> decodeAll(const std::string& bytes) {
    std::vector<Frame> v;
    size_t pos = 0;
    Frame f;
    while (decodeFrame(bytes, pos, f))
        v.push_back(f);
    return v;
}

// ---------------------------------------------------------------------------------------------- encoder

std::string assemble(const std::string& vh, const std::string& data, bool swapped, int minor, int major) {
    Out o{std::string("\xff\xffODA", 5), swapped};
    o.put<int32_t>(1);
    o.put<int32_t>(major);
    o.put<int32_t>(minor);
    o.str(md5hex(vh.data(), vh.size()));
    o.put<int32_t>(int32_t(vh.size()));
    return o.b + vh + data;
}

static bool sameRow(const Col& c, size_t a, size_t b) {
    const Cell &x = c.cells[a], &y = c.cells[b];
    if (c.type == STRING)
        return x.s == y.s;
    if (x.missing != y.missing)
        return false;
    if (x.missing)
        return true;
    return c.isInt() ? x.i == y.i : memcmp(&x.d, &y.d, 8) == 0;
}

std::string encodeFrame(Frame& f) {
    Out d{"", f.swapped};
    std::vector<int> markers = f.markers;
    for (size_t r = 0; r < f.nrows; r++) {
        int start = 0;
        if (r < f.markers.size())
            start = f.markers[r];
        else if (r > 0)
            while (start < int(f.cols.size()) && sameRow(f.cols[start], r, r - 1))
                start++;
        if (r >= markers.size())
            markers.push_back(start);
        d.b += char(start / 256);
        d.b += char(start % 256);
        for (size_t k = size_t(start); k < f.cols.size(); k++) {
            Col& c                = f.cols[k];
            const Cell& x         = c.cells[r];
            const std::string& co = c.codec;
            double v              = x.missing ? c.missing : c.isInt() ? double(x.i) : x.d;
            if (c.type == STRING) {
                if (co == "chars") {
                    std::string s = x.s;
                    s.resize(8, '\0');
                    d.b += s;
                }
                else if (co == "int8_string" || co == "int16_string") {
                    size_t idx = size_t(std::find(c.strings.begin(), c.strings.end(), x.s) - c.strings.begin());
                    if (idx >= c.strings.size())
                        throw std::logic_error("ref: string not in table");
                    if (co == "int8_string")
                        d.put<uint8_t>(uint8_t(idx));
                    else
                        d.put<uint16_t>(uint16_t(idx));
                }
            }
            else if (co == "constant")
                ;
            else if (co == "constant_or_missing" || co == "real_constant_or_missing" || co == "int8_missing")
                d.put<uint8_t>(x.missing ? 0xff : uint8_t(v - c.min));
            else if (co == "int16_missing")
                d.put<uint16_t>(x.missing ? 0xffff : uint16_t(v - c.min));
            else if (co == "int8")
                d.put<uint8_t>(uint8_t(v - c.min));
            else if (co == "int16")
                d.put<uint16_t>(uint16_t(v - c.min));
            else if (co == "int32")
                d.put<int32_t>(int32_t(v));
            else if (co == "long_real")
                d.put<double>(v);
            else if (co == "short_real" || co == "short_real2") {
                uint32_t u;
                float fl = float(v);
                memcpy(&u, &fl, 4);
                if (x.missing)
                    u = co == "short_real" ? SHORT_REAL_MISSING : SHORT_REAL2_MISSING;
                d.put<uint32_t>(u);
            }
            else
                throw std::logic_error("ref: unknown codec " + co);
        }
    }
    f.markers = markers;
    Out h{"", f.swapped};
    h.put<int64_t>(int64_t(d.b.size()));
    h.put<int64_t>(0);
    h.put<int64_t>(int64_t(f.nrows));
    h.put<int32_t>(int32_t(f.flags.size()));
    for (double x : f.flags)
        h.put<double>(x);
    h.put<int32_t>(int32_t(f.props.size()));
    for (auto& p : f.props) {
        h.str(p.first);
        h.str(p.second);
    }
    h.put<int32_t>(int32_t(f.cols.size()));
    for (auto& c : f.cols) {
        h.str(c.name);
        h.put<int32_t>(c.type);
        if (c.type == BITFIELD) {
            h.put<int32_t>(int32_t(c.bits.size()));
            for (auto& b : c.bits)
                h.str(b.name);
            h.put<int32_t>(int32_t(c.bits.size()));
            for (auto& b : c.bits)
                h.put<int32_t>(b.size);
        }
        h.str(c.codec);
        h.put<int32_t>(c.hasMissing);
        if (c.codec == "constant_string") {
            std::string s = c.rawMin;
            s.resize(8, '\0');
            h.b += s;
            h.b += s;
            h.put<double>(c.missing);
        }
        else {
            h.put<double>(c.min);
            h.put<double>(c.max);
            h.put<double>(c.missing);
        }
        if (c.codec == "chars")
            h.put<int32_t>(0);
        else if (c.codec == "int8_string" || c.codec == "int16_string") {
            h.put<int32_t>(int32_t(c.strings.size()));
            bool free = c.stored.size() == c.strings.size();
            for (size_t n = 0; n < c.strings.size(); n++) {
                size_t k = free ? size_t(c.stored[n]) : n;
                h.str(c.strings[k]);
                h.put<int32_t>(free ? int32_t(n * 7919) : 0);  // a count nobody uses
                h.put<int32_t>(int32_t(k));
            }
        }
        else if (c.codec == "long_constant_string")
            h.str(c.strings[0]);
    }
    std::string r  = assemble(h.b, d.b, f.swapped, f.minor);
    f.dataSize     = d.b.size();
    f.length       = r.size();
    f.headerLength = r.size() - d.b.size();
    return r;
}

std::vector<Field> fields(const std::string& bytes) {
    std::vector<Field> v;
    struct Trace {
        Trace(std::vector<Field>* t) { trace = t; }
        ~Trace() { trace = nullptr; }
    } t(&v);
    size_t pos = 0;
    Frame f;
    decodeFrame(bytes, pos, f);
    return v;
}

// ---------------------------------------------------------------------------------------------- values

std::string cellText(const Col& c, const Cell& x) {
    std::ostringstream o;
    if (c.type == STRING) {
        o << "'";
        for (unsigned char ch : x.s) {
            if (ch < 32 || ch > 126) {
                char b[8];
                snprintf(b, sizeof b, "\\x%02x", ch);
                o << b;
            }
            else
                o << ch;
        }
        o << "'";
    }
    else if (x.missing)
        o << "NULL";
    else if (c.isInt())
        o << x.i;
    else {
        o.precision(17);
        o << x.d;
    }
    return o.str();
}

bool sameCell(const Col& a, const Cell& x, const Col& b, const Cell& y, std::string* why) {
    bool same;
    if (a.type == STRING || b.type == STRING)
        same = a.type == b.type && stripNul(x.s) == stripNul(y.s);
    else if (x.missing || y.missing)
        same = x.missing == y.missing;
    else if (a.isInt() && b.isInt())
        same = x.i == y.i;
    else {
        double p = a.isInt() ? double(x.i) : x.d, q = b.isInt() ? double(y.i) : y.d;
        if (a.type == REAL || b.type == REAL)
            same = (float(p) == float(q)) || (std::isnan(p) && std::isnan(q));
        else
            same = p == q || (std::isnan(p) && std::isnan(q));
    }
    if (!same && why)
        *why = cellText(a, x) + " vs " + cellText(b, y);
    return same;
}

}  // namespace ref
