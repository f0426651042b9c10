// Generators of tables (column definitions and typed cells), shared by all checks.
#pragma once
#include "ref.h"
#include "vf.h"

namespace gen {

using ref::Bit;
using ref::Cell;
using ref::Col;
using ref::Frame;
using vf::Src;

struct Opts {
    int minCols = 1, maxCols = 6;
    int minRows = 1, maxRows = 40;
    int maxWidth      = 5;      // string width, in units of 8 bytes
    bool suffixes     = true;   // names with @table
    bool dupShort     = false;  // several tables with the same short name
    bool bitfields    = true, strings = true, reals = true, doubles = true, integers = true;
    bool special      = true;   // infinities, extreme magnitudes
    bool nan          = false;
    bool binary       = true;   // strings with arbitrary non-NUL bytes
    bool missing      = true;
    bool members      = true;   // named bitfield members
    bool negativeBits = false;  // bitfields using bit 31
    bool sqlSafe      = false;  // names, strings and numbers that can be written in a query or in text
    bool emptyStrings = true;
    bool edgeShape    = true;   // sometimes exactly 255..257 rows
    bool props        = true;
    bool wide         = false;  // 250-290 columns, rows repeating any number of leading cells
};

std::string genName(Src& g, const Opts& o);
// A column definition (name, type, width, bits)
Col genColumn(Src& g, const Opts& o);
// Fills nrows cells
void fill(Src& g, Col& c, size_t nrows, const Opts& o);
// definitions with distinct names
std::vector<Col> genSchema(Src& g, const Opts& o);
Frame genTable(Src& g, const Opts& o);
std::map<std::string, std::string> genProps(Src& g);
// string tables may have entries nobody uses; whether these may be longer than all the others (widening the column)
inline bool unusedMayBeLonger = false;
// declares other missing values than the default for some columns, which no cell has for a value
void declare(Src&, ref::Frame&);
// another table with the same columns
Frame genLike(Src& g, const Frame& f, const Opts& o);

// Chooses any codec the format allows for the column's content, and its parameters
void planCodec(Src& g, Col& c, bool simplest = false);
void planCodecs(Src& g, Frame& f, bool simplest = false);
// Chooses row markers: any number of leading columns whose value repeats the previous row's.
// impliedStrings: string columns may declare zero, an empty string, missing, so that a leading empty string of the
// first row need not be stored.
void planMarkers(Src& g, Frame& f, bool impliedStrings = false);
// an encoded frame with random legal parameters
std::string encodeAny(Src& g, Frame& f, bool impliedStrings = false);
// as the library would encode it (native order, simple codecs)
std::string encodePlain(Frame f);

std::string describe(const Frame& f, size_t maxRows = 6);
std::string schemaText(const Frame& f);

// "" if equal, else what differs.
struct Cmp {
    bool types     = true;
    bool bits      = true;
    bool names     = true;
    bool props     = false;
    bool bitsByValue = true;  // compare BITFIELD values, not their missing status
};
std::string diff(const Frame& a, const Frame& b, const Cmp& c = Cmp());
// the same of all rows in order, however they are divided into frames
std::string diffRows(const std::vector<Frame>& a, const std::vector<Frame>& b, const Cmp& c = Cmp());
// rows of several frames with the same columns joined into one table (columns in the order of the first)
Frame join(const std::vector<Frame>& v);
Frame rows(const Frame& f, size_t from, size_t n);

inline std::string shortName(const std::string& n) { return n.substr(0, n.find('@')); }
}  // namespace gen
