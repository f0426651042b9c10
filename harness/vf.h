// vf: a small property-based-testing engine with integrated shrinking.
//
// A property is a function of a stream of bounded integer choices (Src).  In a random run the choices
// come from a PRNG seeded by (VERIF_SEED, property, case index); in a replay they come from a recorded
// list.  Every recorded list is a legal input, so shrinking edits the list, and the same property
// functions serve as fuzz targets (bytes -> choices).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vf {

struct Failure {
    std::string msg;
};
struct Discard {};

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

// Records choices in shared memory, so that a parent can read them after the child died.
struct ChoiceLog {
    static constexpr size_t CAP = 1 << 20;
    volatile uint64_t n;
    uint64_t v[CAP];
};

class Src {
public:

    enum Mode {
        RANDOM,
        REPLAY,
        BYTES
    };
    Mode mode       = RANDOM;
    uint64_t state  = 0;
    ChoiceLog* log  = nullptr;
    std::vector<uint64_t> list;  // replay
    size_t pos         = 0;
    const uint8_t* buf = nullptr;
    size_t buflen = 0, bufpos = 0;
    size_t count  = 0;

    uint64_t next64() {
        state += 0x9e3779b97f4a7c15ull;
        return mix(state);
    }

    // a value in [0, max]; 0 is the simplest
    uint64_t draw(uint64_t max) {
        uint64_t v = 0;
        switch (mode) {
            case RANDOM:
                v = (max == ~0ull) ? next64() : next64() % (max + 1);
                break;
            case REPLAY:
                v = pos < list.size() ? list[pos] : 0;
                if (pos > list.size() + 1000000)  // a generator that waits for some other choice than 0
                    throw Discard{};
                pos++;
                if (v > max)
                    v = max;
                break;
            case BYTES: {
                int nb = 0;
                for (uint64_t m = max; m; m >>= 8)
                    nb++;
                for (int i = 0; i < nb; i++)
                    v = (v << 8) | (bufpos < buflen ? buf[bufpos++] : 0);
                if (max != ~0ull)
                    v %= (max + 1);
                break;
            }
        }
        count++;
        if (log && log->n < ChoiceLog::CAP) {
            log->v[log->n] = v;
            log->n         = log->n + 1;
        }
        return v;
    }

    // [lo, hi], shrinks to lo
    int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(draw(uint64_t(hi) - uint64_t(lo))); }
    // true with probability num/den; shrinks to false
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
    size_t index(size_t n) { return size_t(draw(n - 1)); }
    template <typename T>
    const T& pick(const std::vector<T>& v) {
        return v[index(v.size())];
    }
    template <typename T>
    T pick(std::initializer_list<T> v) {
        return *(v.begin() + index(v.size()));
    }
    // weighted alternative: index into weights; shrinks to 0
    size_t weighted(std::initializer_list<unsigned> w) {
        unsigned tot = 0;
        for (unsigned x : w)
            tot += x;
        uint64_t d = draw(tot - 1);
        size_t i   = 0;
        for (unsigned x : w) {
            if (d < x)
                return i;
            d -= x;
            i++;
        }
        return w.size() - 1;
    }
    // integer with mass on the edges of [lo, hi] and around zero
    int64_t edgy(int64_t lo, int64_t hi) {
        switch (weighted({4, 3, 1, 1, 1})) {
            case 0: {
                int64_t a = lo > 0 ? lo : (hi < 0 ? hi : 0);
                int64_t l = a - 3 < lo ? lo : a - 3, h = a + 20 > hi ? hi : a + 20;
                return range(l, h);
            }
            case 1:
                return range(lo, hi);
            case 2:
                return lo;
            case 3:
                return hi;
            default: {
                // a power of two, plus or minus one
                int64_t p = int64_t(1) << range(0, 62);
                p += range(-1, 1);
                if (chance(1, 2))
                    p = -p;
                return p < lo ? lo : (p > hi ? hi : p);
            }
        }
    }
    void shuffle(std::vector<int>& v) {
        for (size_t i = v.size(); i > 1; i--) {
            size_t j = i - 1 - index(i);  // 0 -> no swap
            std::swap(v[i - 1], v[j]);
        }
    }
};

struct Stats {
    uint64_t evaluations = 0, discarded = 0, nontrivial = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
};

class Ctx {
public:

    Src g;
    uint64_t caseNo = 0;
    std::string tmp;          // scratch directory, private to the worker process, emptied between cases
    std::string artifactDir;  // where to put copies of inputs on replay (may be empty)
    bool verbose    = false;
    bool nontrivial = false;
    bool thorough   = false;
    std::vector<std::string> notes;
    std::set<std::string> labels;

    void label(const std::string& s) { labels.insert(s); }
    void labelIf(bool b, const std::string& s) {
        if (b)
            labels.insert(s);
    }
    void note(const std::string& s) {
        if (verbose || notes.size() < 200)
            notes.push_back(s);
    }
    void artifact(const std::string& name, const void* p, size_t n) {
        if (artifactDir.empty())
            return;
        if (FILE* f = fopen((artifactDir + "/" + name).c_str(), "wb")) {
            fwrite(p, 1, n, f);
            fclose(f);
        }
    }
    void artifact(const std::string& name, const std::string& s) { artifact(name, s.data(), s.size()); }
    [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
    [[noreturn]] void discard() { throw Discard{}; }
};

#define VF_CHECK(ctx, cond, msg)                                                      \
    do {                                                                              \
        if (!(cond)) {                                                                \
            std::ostringstream vf_os_;                                                \
            vf_os_ << msg << "   [" << #cond << "] at " << __FILE__ << ":" << __LINE__; \
            (ctx).fail(vf_os_.str());                                                 \
        }                                                                             \
    } while (0)

struct SubProp {
    std::string name;
    std::function<void(Ctx&)> fn;
    uint64_t quick, thorough;  // number of cases
};

struct Suite {
    std::string property;
    std::string rule;
    std::vector<SubProp> subs;
    std::function<void()> init;  // called once in every worker process
    // known findings: id -> function that returns true if the finding still reproduces (run in a child)
    std::vector<std::pair<std::string, std::function<bool(Ctx&)>>> findings;
    std::vector<std::string> assumptions;
};

int main(int argc, char** argv, Suite& s);

// helpers
std::string readFile(const std::string& p);
void writeFile(const std::string& p, const std::string& d);
std::string hex(const std::string& s, size_t max = 64);
std::string quote(const std::string& s, size_t max = 80);
void rmContents(const std::string& dir);

struct RunResult {
    int status = 0;   // exit code, or 1000+signal
    bool timeout = false;
    std::string out, err;
};
// run a program with arguments, in directory cwd, with additional environment
RunResult run(const std::vector<std::string>& argv, const std::string& cwd,
              const std::vector<std::string>& env = {}, double timeout_s = 120);

}  // namespace vf
