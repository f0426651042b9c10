// Driving the row-oriented C++ interface: odc::Writer and odc::Reader.
#pragma once
#include "gen.h"
#include <memory>

namespace rows {

using gen::Frame;

// Reads a stream row by row; one table per frame that has rows.  Throws vf::Failure with the library's message on an
// error (errors: true -> returns what was read and sets *error)
std::vector<Frame> read(const std::string& bytes, std::string* error = nullptr);
std::vector<Frame> readPath(const std::string& path, std::string* error = nullptr);

// One step of a writing history
struct Step {
    enum Kind {
        HEADER,   // (re)define all columns as in table.cols, and writeHeader()
        ROWS,     // write all rows of the table
        FLUSH,
        WIDEN     // flushAndResetColumnSizes(widths)
    };
    Kind kind;
    Frame table;
    std::map<std::string, size_t> widths;  // in doubles
};
// Performs the steps on a writer to path (append: in append mode) with the given row buffer size
void write(const std::string& path, const std::vector<Step>& steps, size_t bufferRows, bool append,
           const std::map<std::string, std::string>& props = {});

}  // namespace rows
