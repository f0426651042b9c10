// A model of queries on ODB-2 data: streams of frames that vary, random queries, and a reference evaluation of them.
#pragma once
#include "gen.h"
#include <functional>
#include <memory>

namespace sql {

using gen::Frame;
using vf::Src;

struct Val {
    bool null = false, str = false;
    double d = 0;
    std::string s;
};
std::string text(const Val& v);
bool same(const Val& a, const Val& b, double tolerance = 0);
Val cellVal(const ref::Col& c, const ref::Cell& x);

struct SourceOpts {
    int maxFrames      = 4;
    bool vary          = true;   // columns may be reordered and added
    bool types         = true;   // numeric types may change
    bool widths        = true;   // string widths may change
    bool bits          = true;   // bitfield definitions may change
    bool narrowStrings = false;  // at most 8 bytes
    bool dupShort      = false;
    int maxRows        = 12;
    int maxCols        = 6;
    bool binary        = false;  // strings with any bytes
    bool few           = false;  // few different values
    bool special       = false;  // infinities, NaN
    size_t rows        = 0;      // altogether, if not 0
    std::string prefix;          // of all names
    bool plain         = false;  // as the library would write it
    bool props         = false;  // properties of the frames
};
struct Source {
    std::string bytes;
    std::vector<Frame> frames;  // as the reference decoder reads bytes; frames without rows left out
    const std::vector<ref::Col>& cols() const { return frames[0].cols; }
    size_t rows() const;
    bool sameShape = true;  // same types, widths, bitfield definitions in all frames
    bool sameMissing = true;  // each column declares the same missing value in all frames (or its type's)
};
Source genSource(Src& g, const SourceOpts& o);

// the columns of the result
struct Out {
    std::string title;  // empty: not specified
    std::string col;    // full name of the column, if it is one
    std::string member;
};
struct Row {
    std::vector<Val> v;
    size_t frame = 0;   // of origin
};
struct Query {
    std::string select, where, order;  // clauses
    std::string text(const std::string& from = "", const std::string& into = "") const;
    std::vector<Out> out;
    std::vector<Row> rows;
    bool distinct = false, ordered = false, grouped = false, exact = true;  // exact: values compare exactly
    // expected type and members of a result column in rows from a frame; -1: not specified
    int type(const Source& s, size_t frame, size_t col) const;
    const ref::Col* bits(const Source& s, size_t frame, size_t col) const;
};
struct QueryOpts {
    bool distinct = true, order = true, group = true, expressions = true, rownumber = true, where = true;
    bool star     = false;  // only "select *"
    bool uniqueTitles = false;
};
Query genQuery(Src& g, const Source& s, const QueryOpts& o);
// a condition on its own: SQL text and predicate
struct Cond {
    std::string text;
    std::function<bool(const Frame&, size_t)> eval;
    std::function<bool(const Frame&, size_t)> unknown;  // a missing cell takes part
};
Cond genCond(Src& g, const Source& s, int depth);
// the cell of a stored result
Val stored(const ref::Col& c, const ref::Cell& x);
// whether the value happens to be the missing value of the column it is stored in, or is the same in single precision
bool coincides(const Val& w, const Val& x, const ref::Col& c);
bool sameBits(const ref::Col& a, const ref::Col& b);
// "" if the frames hold exactly the rows of the query's result (or only some of them)
std::string differs(const Source& s, const Query& q, const std::vector<ref::Frame>& out, const std::vector<size_t>* only = nullptr);
std::string refName(Src& g, const Source& s, const std::string& full);

}  // namespace sql
