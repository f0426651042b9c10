// Running the odc command line tools and library code in child processes.  The process calling these functions must
// not have initialised the library.
#pragma once
#include "vf.h"

namespace tools {

// A child that can write no more than so many bytes to any file, as if the disk was full.  Its standard output goes
// to a pipe, or to the file given.
struct Limit {
    size_t bytes = 0;
    std::string out;
};

// Runs "odc args..." in directory cwd.  A crash, sanitizer report or time-out is a vf::Failure.
vf::RunResult odc(const std::vector<std::string>& args, const std::string& cwd, double timeout = 60,
                  const Limit* limit = nullptr);
// as one line, for messages
std::string text(const std::vector<std::string>& args);

// Runs fn in a child with the library initialised and returns its result.  A vf::Failure in fn is passed on; other
// exceptions become failures unless error is given (receives the message).
std::string lib(const std::string& cwd, const std::function<std::string()>& fn, std::string* error = nullptr,
                double timeout = 60, const Limit* limit = nullptr);

std::vector<std::string> lines(const std::string& s);
}  // namespace tools
