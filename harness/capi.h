// Driving the library through odc.h: encoding and decoding reference tables.
#pragma once
#include "gen.h"
#include "odc/api/odc.h"

namespace capi {

using gen::Frame;
using vf::Ctx;

void init();  // odc_initialise_api, once per process
std::string errorText(int rc);
// throws vf::Failure on an unexpected error
void ok(int rc, const char* what);
#define OK(call) capi::ok((call), #call)

// integers as longs (true) or doubles
void setLongs(bool longs);
bool longs();

// value of a cell as the 8 bytes the API exchanges
void putCell(const ref::Col& c, const ref::Cell& x, char* p, size_t width);
ref::Cell getCell(const ref::Col& c, const char* p, size_t width);

// How the source of an encoding is laid out
struct Layout {
    int kind = 0;  // 0 row-major array, 1 column-major array, 2 arrays per column
    size_t extraWidth = 0, extraRows = 0;
    std::vector<size_t> stride;  // kind 2; 0: default
    bool setSizes = true;
    long rowsPerFrame = 0;  // 0: default
    bool rowCountExplicit = true;
    bool propsTwice = false;  // properties set to something else before
    char padding = 0;  // in string cells, behind the byte that ends the string
    std::string text() const;
};
Layout genLayout(vf::Src& g, const Frame& f);

// An encoder together with the memory it reads
struct Encoding {
    odc_encoder_t* enc = nullptr;
    std::vector<std::string> mem, before;
    ~Encoding();
    bool sourceUntouched() const { return mem == before; }
    Encoding() = default;
    Encoding(const Encoding&) = delete;
    // the encoder's column widths must be at least those of the table
    void setup(const Frame& f, const Layout& l);
};
// encodes to a stream callback
std::string encode(const Frame& f, const Layout& l);
std::string encode(const Frame& f);
std::string drain(odc_encoder_t* enc, long* reported = nullptr);

// attributes, properties and values of a frame handle; decoded into library-allocated memory.
struct Read {
    bool columnMajor = false;
    int threads      = 1;
    bool decode      = true;
};
Frame readFrame(odc_frame_t* fr, const Read& r = Read());
void readAttributes(odc_frame_t* fr, Frame& f);
void readValues(odc_frame_t* fr, Frame& f, const Read& r = Read());

// reads a whole stream from memory, one table per frame (maxRows: nullptr not aggregated)
std::vector<Frame> readAll(const std::string& bytes, const long* maxRows = nullptr, const Read& r = Read());

}  // namespace capi
