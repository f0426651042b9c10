// Reference model of ODB-2: tables of typed cells, and an encoder and a decoder of the byte format written from
// docs/content/reference/file-format-reference.rst (and the observable layout of existing files), sharing no code
// with the library.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace ref {

enum Type {
    IGNORE   = 0,
    INTEGER  = 1,
    REAL     = 2,
    STRING   = 3,
    BITFIELD = 4,
    DOUBLE   = 5
};
const char* typeName(int t);

constexpr double MISSING_INT    = 2147483647.0;
constexpr double MISSING_REAL   = -2147483647.0;
constexpr double MISSING_BITS   = 0.0;
inline double defaultMissing(int t) {
    return t == INTEGER ? MISSING_INT : t == BITFIELD ? MISSING_BITS : MISSING_REAL;
}

struct Cell {
    bool missing = false;  // numeric columns: the cell holds the column's missing value
    int64_t i    = 0;      // INTEGER, BITFIELD
    double d     = 0;      // REAL, DOUBLE
    std::string s;         // STRING
};

struct Bit {
    std::string name;
    int size;
};

struct Col {
    std::string name;
    int type = INTEGER;
    std::vector<Bit> bits;
    std::vector<Cell> cells;
    size_t width = 8;  // decoded element size in bytes

    // encoding
    std::string codec;
    int32_t hasMissing = 0;
    double min = 0, max = 0, missing = MISSING_INT;
    std::string rawMin;                 // constant_string: 8 bytes
    std::vector<std::string> strings;   // string tables (by index); long_constant_string: one entry
    std::vector<int> stored;            // indices of a string table in the order its entries are written (else ascending)
    bool isInt() const { return type == INTEGER || type == BITFIELD; }
    bool isReal() const { return type == REAL || type == DOUBLE; }
};

struct Frame {
    std::vector<Col> cols;
    size_t nrows = 0;
    std::map<std::string, std::string> props;
    std::vector<double> flags;
    bool swapped = false;
    int minor    = 5;
    // filled by the decoder / encoder
    size_t offset = 0, length = 0, headerLength = 0, dataSize = 0;
    std::vector<int> markers;
    const Col* find(const std::string& n) const {
        for (auto& c : cols)
            if (c.name == n)
                return &c;
        return nullptr;
    }
    size_t rowWidth() const {
        size_t w = 0;
        for (auto& c : cols)
            w += c.width;
        return w;
    }
};

struct FormatError : std::runtime_error {
    using std::runtime_error::runtime_error;
};

std::string md5hex(const void* p, size_t n);

// Decode one frame at the given offset; returns false at the end of the data.  Throws FormatError.
bool decodeFrame(const std::string& bytes, size_t& pos, Frame& f);
std::vector<Frame> decodeAll(const std::string& bytes);

// markers: the columns each row starts from.  Empty: minimal (first changed column); first row 0.
// Codec parameters must be set up (see gen.h planCodec).
std::string encodeFrame(Frame& f);

// Wraps a variable header (from dataSize on) and row data into a frame with a correct digest
std::string assemble(const std::string& varHeader, const std::string& data, bool swapped, int minor = 5, int major = 0);
// Position of the parts of a frame starting at offset off
struct Parts {
    size_t varHeader, varHeaderLen, data, dataLen;
    bool swapped;
};
// The fields of the single frame in bytes: kind i integer, d floating point, s bytes
struct Field {
    size_t pos, size;
    char kind;
};
std::vector<Field> fields(const std::string& bytes);
Parts parts(const std::string& bytes, size_t off);

// values
std::string cellText(const Col& c, const Cell& x);
bool sameCell(const Col& a, const Cell& x, const Col& b, const Cell& y, std::string* why = nullptr);
inline float f32(double d) {
    return static_cast<float>(d);
}
std::string stripNul(const std::string& s);

}  // namespace ref
