// C09: truncated or damaged streams are reported, never misread
#include "capi.h"
#include "rows.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace vf;

namespace {

enum Entry {
    BUFFER,
    PATH,
    FD,
    CALLBACK,
    ROWS,
    NENTRIES
};
const char* entryName[] = {"buffer", "path", "file descriptor", "callback", "row reader"};

struct Handles {
    odc_reader_t* rd = nullptr;
    odc_frame_t* fr  = nullptr;
    int fd           = -1;
    ~Handles() {
        if (fr)
            odc_free_frame(fr);
        if (rd)
            odc_close(rd);
        if (fd >= 0)
            close(fd);
    }
};

struct Source {
    const std::string* data;
    size_t pos = 0, piece;
    static long read(void* ctx, void* buf, long n) {
        auto& s  = *static_cast<Source*>(ctx);
        size_t k = std::min({size_t(n), s.data->size() - s.pos, s.piece});
        memcpy(buf, s.data->data() + s.pos, k);
        s.pos += k;
        return long(k);
    }
};

struct Outcome {
    std::vector<ref::Frame> frames;
    bool failed = false;
    std::string error;
};

// Reads until the end or the first error.  decode: also the values (else the attributes only)
Outcome consume(Ctx& c, int entry, const std::string& bytes, const std::string& path, bool decode, const long* limit, size_t piece) {
    Outcome out;
    if (entry == ROWS) {
        std::string err;
        out.frames = (piece % 2) ? rows::read(bytes, &err) : rows::readPath(path, &err);
        out.failed = !err.empty();
        out.error  = err;
        return out;
    }
    Handles h;
    Source src{&bytes, 0, piece};
    int rc = 0;
    switch (entry) {
        case BUFFER:
            rc = odc_open_buffer(&h.rd, bytes.data(), long(bytes.size()));
            break;
        case PATH:
            rc = odc_open_path(&h.rd, path.c_str());
            break;
        case FD:
            h.fd = open(path.c_str(), O_RDONLY);
            rc   = odc_open_file_descriptor(&h.rd, h.fd);
            break;
        default:
            rc = odc_open_stream(&h.rd, &src, Source::read);
    }
    if (rc == 0)
        rc = odc_new_frame(&h.fr, h.rd);
    while (rc == 0) {
        rc = limit ? odc_next_frame_aggregated(h.fr, *limit) : odc_next_frame(h.fr);
        if (rc != 0)
            break;
        try {
            capi::Read r;
            r.decode      = decode;
            r.columnMajor = piece % 2;
            r.threads     = piece % 3 ? 1 : 3;
            out.frames.push_back(capi::readFrame(h.fr, r));
        }
        catch (Failure& f) {
            out.failed = true;
            out.error  = f.msg;
            return out;
        }
        VF_CHECK(c, out.frames.size() < 1000, "more than 1000 frames");
    }
    if (rc != ODC_ITERATION_COMPLETE) {
        out.failed = true;
        out.error  = capi::errorText(rc);
        // and stays an error: the damage cannot be skipped unnoticed
        int again = limit ? odc_next_frame_aggregated(h.fr, *limit) : odc_next_frame(h.fr);
        VF_CHECK(c, again != 0 && again != ODC_ITERATION_COMPLETE,
                 "after reporting \"" << out.error << "\" the reader reports " << (again ? "the end of the data" : "another frame"));
    }
    return out;
}

// the frames that aggregation joins
std::vector<std::pair<size_t, size_t>> partition(const std::vector<ref::Frame>& v, long limit) {
    std::vector<std::pair<size_t, size_t>> out;
    for (size_t i = 0; i < v.size();) {
        size_t j = i + 1;
        long n   = long(v[i].nrows);
        while (j < v.size()) {
            bool same = v[i].cols.size() == v[j].cols.size();
            for (auto& col : v[i].cols) {
                auto* o = v[j].find(col.name);
                same    = same && o && o->type == col.type && o->width == col.width;
            }
            if (!same || (limit >= 0 && n + long(v[j].nrows) > limit))
                break;
            n += long(v[j].nrows);
            j++;
        }
        out.push_back({i, j});
        i = j;
    }
    return out;
}

struct Stream {
    std::vector<ref::Frame> v;
    std::string bytes;
    std::vector<ref::Parts> parts;
};

Stream make(Ctx& c, const gen::Opts& o, bool rowsOnly) {
    Stream s;
    size_t n = size_t(c.g.range(1, 4));
    for (size_t i = 0; i < n; i++) {
        ref::Frame f = (i && c.g.chance(1, 2)) ? gen::genLike(c.g, s.v.back(), o) : gen::genTable(c.g, o);
        size_t at    = s.bytes.size();
        std::string b = gen::encodeAny(c.g, f);
        s.bytes += b;
        f.offset = at;
        f.length = b.size();
        s.parts.push_back(ref::parts(s.bytes, at));
        s.v.push_back(f);
        c.note(gen::describe(f, 2) + " at " + std::to_string(f.offset) + "+" + std::to_string(f.length));
    }
    (void)rowsOnly;
    return s;
}

// d: number of frames before the damage.  clean: no damage, so success is wanted.
void judge(Ctx& c, const Stream& s, size_t d, bool clean, const Outcome& out, int entry, bool decode, const long* limit, const std::string& what) {
    const char* name = entryName[entry];
    if (clean)
        VF_CHECK(c, !out.failed, name << ": " << what << ": unexpected error: " << out.error);
    else
        VF_CHECK(c, out.failed, name << ": " << what << ": no error reported" << (decode ? "" : " (values not decoded)"));
    if (limit) {
        std::vector<ref::Frame> before(s.v.begin(), s.v.begin() + long(d));
        auto groups = partition(before, *limit);
        size_t must = clean ? groups.size() : groups.empty() ? 0 : groups.size() - 1;
        VF_CHECK(c, out.frames.size() >= must, name << ": " << what << ": " << out.frames.size() << " logical frames, at least " << must << " are intact");
        if (!decode)
            return;
        for (size_t i = 0; i < out.frames.size(); i++) {
            VF_CHECK(c, i < groups.size(), name << ": " << what << ": data that is not there was decoded");
            std::vector<ref::Frame> part(s.v.begin() + long(groups[i].first), s.v.begin() + long(groups[i].second));
            std::string df = gen::diff(gen::join(part), out.frames[i]);
            VF_CHECK(c, df.empty(), name << ": " << what << ": logical frame " << i << ": " << df);
        }
        return;
    }
    // frames without rows give no row
    std::vector<const ref::Frame*> want;
    for (size_t i = 0; i < d; i++)
        want.push_back(&s.v[i]);
    size_t exact = out.frames.size();
    if (decode || entry == ROWS) {
        VF_CHECK(c, exact == want.size() || (entry == ROWS && !clean && exact == want.size() + 1),
                 name << ": " << what << ": " << exact << " frames read, " << want.size() << " are intact");
        for (size_t i = 0; i < std::min(exact, want.size()); i++) {
            std::string df = gen::diff(*want[i], out.frames[i]);
            VF_CHECK(c, df.empty(), name << ": " << what << ": frame " << i << ": " << df);
        }
        // The row reader may give rows of the damaged frame, but only true ones
        if (exact > want.size()) {
            VF_CHECK(c, d < s.v.size(), name << ": " << what << ": a frame that is not there");
            auto& g = out.frames.back();
            VF_CHECK(c, g.nrows <= s.v[d].nrows, name << ": " << what << ": rows that are not there");
            std::string df = gen::diff(gen::rows(s.v[d], 0, g.nrows), g);
            VF_CHECK(c, df.empty(), name << ": " << what << ": rows of the cut frame: " << df);
        }
    }
    else
        VF_CHECK(c, exact >= want.size() && exact <= want.size() + (clean ? 0 : 1),
                 name << ": " << what << ": " << exact << " frames, " << want.size() << " are intact");
}

void cut(Ctx& c, const gen::Opts& o) {
    capi::setLongs(c.g.chance(1, 2));
    bool lng = capi::longs();
    Stream s = make(c, o, false);
    size_t at;
    size_t fi = c.g.index(s.v.size());
    auto& f   = s.v[fi];
    auto& p   = s.parts[fi];
    switch (c.g.weighted({2, 1, 2, 2, 1, 1})) {
        case 0:
            at = size_t(c.g.range(0, int64_t(s.bytes.size())));
            break;
        case 1:
            at = f.offset;
            break;
        case 2:
            at = f.offset + size_t(c.g.range(0, 60));
            break;
        case 3:
            at = p.data + size_t(c.g.range(0, int64_t(p.dataLen)));
            break;
        case 4:
            at = f.offset + f.length - 1;
            break;
        default:
            at = p.varHeader + size_t(c.g.range(0, int64_t(p.varHeaderLen)));
    }
    at = std::min(at, s.bytes.size());
    // the number of whole frames
    size_t d = 0;
    bool clean = at == 0;
    while (d < s.v.size() && s.v[d].offset + s.v[d].length <= at) {
        if (s.v[d].offset + s.v[d].length == at)
            clean = true;
        d++;
    }
    std::string bytes = s.bytes.substr(0, at);
    std::string path  = c.tmp + "/cut.odb";
    writeFile(path, bytes);
    c.artifact("cut.odb", bytes);
    std::string what = "cut at byte " + std::to_string(at) + " of " + std::to_string(s.bytes.size());
    c.note(what);
    bool agg   = c.g.chance(1, 3);
    long limit = c.g.chance(1, 2) ? -1 : c.g.range(40, 120);
    size_t pc  = size_t(c.g.range(1, 500));
    for (int e = 0; e < NENTRIES; e++) {
        capi::setLongs(lng);
        bool decode    = e == ROWS || !c.g.chance(1, 4);
        const long* lp = agg && e != ROWS ? &limit : nullptr;
        Outcome out    = consume(c, e, bytes, path, decode, lp, pc);
        judge(c, s, d, clean, out, e, decode, lp, what);
    }
    c.label(clean ? "at a frame boundary" : at < p.varHeader && at > f.offset ? "in a fixed header" : "elsewhere");
    c.labelIf(agg, "aggregated");
    c.nontrivial = !clean || d > 0;
}

void damage(Ctx& c, const gen::Opts& o) {
    capi::setLongs(c.g.chance(1, 2));
    bool lng  = capi::longs();
    Stream s  = make(c, o, false);
    size_t fi = c.g.index(s.v.size());
    auto& f   = s.v[fi];
    auto& p   = s.parts[fi];
    std::string bytes = s.bytes;
    size_t n          = c.g.chance(3, 4) ? 1 : size_t(c.g.range(2, 6));
    std::string what  = "frame " + std::to_string(fi) + ", changed:";
    size_t hl         = p.data - f.offset;
    for (size_t i = 0; i < n; i++) {
        size_t at = f.offset + (c.g.chance(1, 2) ? c.g.range(0, 55) : c.g.range(0, int64_t(hl) - 1));
        uint8_t x = uint8_t(c.g.chance(1, 2) ? 1u << c.g.range(0, 7) : unsigned(c.g.range(1, 255)));
        uint8_t old = uint8_t(bytes[at]);
        if (c.g.chance(1, 4))
            x = uint8_t(old ^ c.g.pick<int>({0, 0xff, 0x20, 'A', 'a'}));
        bytes[at] = char(old ^ x);
        what += " byte " + std::to_string(at - f.offset) + " " + std::to_string(old) + "->" + std::to_string(old ^ x);
    }
    c.note(what);
    // Another supported version (4 or 5) is not damage that can be recognised
    auto normal = [&](std::string b) {
        // minor version: bytes 13..16
        uint32_t v;
        memcpy(&v, &b[f.offset + 13], 4);
        if (f.swapped)
            v = __builtin_bswap32(v);
        if (v == 4 || v == 5) {
            uint32_t w = 5;
            if (f.swapped)
                w = __builtin_bswap32(w);
            memcpy(&b[f.offset + 13], &w, 4);
        }
        return b;
    };
    if (normal(bytes) == normal(s.bytes))
        c.discard();
    std::string path = c.tmp + "/damaged.odb";
    writeFile(path, bytes);
    c.artifact("damaged.odb", bytes);
    bool agg   = c.g.chance(1, 3);
    long limit = c.g.chance(1, 2) ? -1 : c.g.range(40, 120);
    size_t pc  = size_t(c.g.range(1, 500));
    for (int e = 0; e < NENTRIES; e++) {
        capi::setLongs(lng);
        bool decode    = e == ROWS || !c.g.chance(1, 4);
        const long* lp = agg && e != ROWS ? &limit : nullptr;
        Outcome out    = consume(c, e, bytes, path, decode, lp, pc);
        // whatever follows, nothing of the damaged frame may come back
        VF_CHECK(c, e == ROWS || lp || out.frames.size() <= fi, entryName[e] << ": " << what << ": the damaged frame was accepted");
        judge(c, s, fi, false, out, e, decode, lp, what);
    }
    c.nontrivial = true;
}

// A writer that dies: what it leaves is readable up to its last whole frame
void death(Ctx& c, const gen::Opts& o0) {
    gen::Opts o  = o0;
    o.maxRows    = 40;
    bool api     = c.g.chance(1, 3);
    size_t bufRows = size_t(c.g.range(1, 12));
    ref::Frame f = gen::genTable(c.g, o);
    size_t more  = size_t(c.g.range(0, 3));
    std::vector<rows::Step> steps;
    steps.push_back({rows::Step::HEADER, f, {}});
    steps.push_back({rows::Step::ROWS, f, {}});
    for (size_t i = 0; i < more; i++) {
        if (c.g.chance(1, 2))
            steps.push_back({rows::Step::FLUSH, f, {}});
        steps.push_back({rows::Step::ROWS, gen::genLike(c.g, f, o), {}});
    }
    capi::Layout l = capi::genLayout(c.g, f);
    l.rowsPerFrame = int64_t(bufRows);
    std::string whole = c.tmp + "/whole.odb", part = c.tmp + "/part.odb";
    auto writeTo = [&](const std::string& path) {
        if (api) {
            capi::Encoding e;
            e.setup(f, l);
            long n = 0;
            int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            int rc = odc_encode_to_file_descriptor(e.enc, fd, &n);
            close(fd);
            if (rc != 0)
                throw Failure{capi::errorText(rc)};
        }
        else
            rows::write(path, steps, bufRows, false);
    };
    capi::setLongs(false);
    writeTo(whole);
    std::string all = readFile(whole);
    size_t room     = size_t(c.g.range(0, int64_t(all.size())));
    c.note(std::string(api ? "encoder, " : "row writer, ") + std::to_string(bufRows) + " rows per frame, killed after " +
           std::to_string(room) + " of " + std::to_string(all.size()) + " bytes: " + gen::describe(f, 2));
    pid_t pid = fork();
    if (pid == 0) {
        // killed (SIGXFSZ) when it writes beyond the limit
        struct rlimit rl {
            room, room
        };
        signal(SIGXFSZ, SIG_DFL);
        setrlimit(RLIMIT_FSIZE, &rl);
        rlimit core{0, 0};
        setrlimit(RLIMIT_CORE, &core);
        try {
            writeTo(part);
        }
        catch (...) {
            _exit(3);
        }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    std::string left = access(part.c_str(), F_OK) == 0 ? readFile(part) : "";
    VF_CHECK(c, !(WIFEXITED(st) && WEXITSTATUS(st) == 0) || left.size() == all.size(), "the writer did not notice that only " << left.size() << " bytes were written");
    VF_CHECK(c, left == all.substr(0, left.size()), "what the dying writer left is not the beginning of its output");
    c.labelIf(WIFSIGNALED(st), "killed while writing");
    c.labelIf(WIFEXITED(st) && WEXITSTATUS(st) == 3, "write error");
    Stream s;
    s.v      = ref::decodeAll(all);
    size_t d = 0;
    bool clean = left.empty();
    while (d < s.v.size() && s.v[d].offset + s.v[d].length <= left.size()) {
        clean = s.v[d].offset + s.v[d].length == left.size();
        d++;
    }
    if (d < s.v.size() && left.size() > (d ? s.v[d - 1].offset + s.v[d - 1].length : 0))
        clean = false;
    writeFile(part, left);
    for (int e = 0; e < NENTRIES; e++) {
        capi::setLongs(false);
        Outcome out = consume(c, e, left, part, true, nullptr, 4096);
        judge(c, s, d, clean, out, e, true, nullptr, "after the writer died");
    }
    c.nontrivial = !clean && d > 0;
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C09";
    s.rule =
        "valid streams of 1-4 frames (any codec, byte order, version) cut at any byte, with emphasis on headers and boundaries, or "
        "with 1-6 header bytes changed, and files left by writers killed at any byte; read by every entry point (memory, path, "
        "descriptor, callback in pieces, row reader; aggregated; with and without decoding); non-trivial: damaged, or cut after a "
        "whole frame";
    s.init = capi::init;
    gen::Opts o;
    o.maxRows  = 25;
    s.subs.push_back({"cut", [=](Ctx& c) { cut(c, o); }, 5000, 200000});
    s.subs.push_back({"damage", [=](Ctx& c) { damage(c, o); }, 5000, 200000});
    s.subs.push_back({"death", [=](Ctx& c) { death(c, o); }, 1500, 40000});
    s.assumptions.push_back("a change of the version number to another supported one (4 or 5) is not damage that can be recognised");
    s.assumptions.push_back("with aggregation, the last logical frame before the damage may be replaced by the error");
    return vf::main(argc, argv, s);
}
