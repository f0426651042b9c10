// C08: every source and sink carries the same bytes and data
#include "capi.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <unistd.h>

using namespace vf;

namespace {

struct Closer {
    odc_reader_t* rd = nullptr;
    odc_frame_t* fr  = nullptr;
    std::vector<odc_frame_t*> copies;
    int fd = -1;
    ~Closer() {
        for (auto f : copies)
            odc_free_frame(f);
        if (fr)
            odc_free_frame(fr);
        if (rd)
            odc_close(rd);
        if (fd >= 0)
            close(fd);
    }
};

// A read callback delivering the data in pieces of prescribed sizes
struct Pieces {
    const std::string* data;
    size_t pos = 0;
    std::vector<size_t> sizes;
    size_t calls    = 0;
    size_t failCall = SIZE_MAX;  // this call returns an error
    bool over       = false;
    static long read(void* ctx, void* buf, long n) {
        auto& p = *static_cast<Pieces*>(ctx);
        if (n < 0)
            p.over = true;
        if (p.calls == p.failCall)
            return -1;
        size_t k = std::min({size_t(n), p.data->size() - p.pos, p.sizes.empty() ? size_t(n) : p.sizes[p.calls % p.sizes.size()]});
        p.calls++;
        memcpy(buf, p.data->data() + p.pos, k);
        p.pos += k;
        return long(k);
    }
};

struct Sink {
    std::string out;
    std::vector<long> plan;  // per call: bytes to accept (>= 0), or -1 to fail; beyond the plan: everything
    size_t calls = 0;
    bool shortOrFailed = false;
    static long write(void* ctx, const void* p, long n) {
        auto& s  = *static_cast<Sink*>(ctx);
        long k   = s.calls < s.plan.size() ? s.plan[s.calls] : n;
        s.calls++;
        if (k > n)
            k = n;
        if (k < n)
            s.shortOrFailed = true;
        if (k > 0)
            s.out.append(static_cast<const char*>(p), size_t(k));
        return k;
    }
};

}  // namespace

static void sources(Ctx& c, const gen::Opts& o) {
    capi::setLongs(c.g.chance(1, 2));
    size_t n = size_t(c.g.range(0, 4));
    std::vector<ref::Frame> v;
    std::string bytes;
    for (size_t i = 0; i < n; i++) {
        ref::Frame f = (i && c.g.chance(1, 2)) ? gen::genLike(c.g, v.back(), o) : gen::genTable(c.g, o);
        bytes += gen::encodeAny(c.g, f);
        v.push_back(f);
        c.note(gen::describe(f, 3));
    }
    c.artifact("stream.odb", bytes);
    std::string path = c.tmp + "/in.odb";
    writeFile(path, bytes);
    bool aggregated = c.g.chance(1, 3);
    bool late       = c.g.chance(1, 2);  // decode copies of the frames after the reader has gone through, last one first
    Pieces pieces;
    pieces.data = &bytes;
    size_t np   = size_t(c.g.range(0, 5));
    for (size_t i = 0; i < np; i++)
        pieces.sizes.push_back(size_t(c.g.chance(1, 2) ? c.g.range(1, 9) : c.g.range(1, 3000)));
    long limit = -1;

    std::vector<ref::Frame> first;
    std::string firstName;
    for (int kind = 0; kind < 4; kind++) {
        Closer h;
        const char* name = kind == 0 ? "buffer" : kind == 1 ? "path" : kind == 2 ? "file descriptor" : "callback";
        if (kind == 0)
            OK(odc_open_buffer(&h.rd, bytes.data(), long(bytes.size())));
        else if (kind == 1)
            OK(odc_open_path(&h.rd, path.c_str()));
        else if (kind == 2) {
            int fd = open(path.c_str(), O_RDONLY);
            OK(odc_open_file_descriptor(&h.rd, fd));
            if (c.g.chance(1, 2)) {
                close(fd);  // documented as safe
                c.label("descriptor closed early");
            }
            else
                h.fd = fd;
        }
        else
            OK(odc_open_stream(&h.rd, &pieces, Pieces::read));
        OK(odc_new_frame(&h.fr, h.rd));
        std::vector<ref::Frame> got;
        while (true) {
            int rc = aggregated ? odc_next_frame_aggregated(h.fr, limit) : odc_next_frame(h.fr);
            if (rc == ODC_ITERATION_COMPLETE)
                break;
            VF_CHECK(c, rc == 0, name << ": reading frame " << got.size() << " failed: " << capi::errorText(rc));
            if (late) {
                odc_frame_t* cp = nullptr;
                OK(odc_copy_frame(h.fr, &cp));
                h.copies.push_back(cp);
                got.emplace_back();
            }
            else
                got.push_back(capi::readFrame(h.fr));
            VF_CHECK(c, got.size() <= n, name << ": more frames than the stream has");
        }
        VF_CHECK(c, (aggregated ? odc_next_frame_aggregated(h.fr, limit) : odc_next_frame(h.fr)) == ODC_ITERATION_COMPLETE,
                 name << ": the end is not reported again");
        for (size_t i = h.copies.size(); i-- > 0;)
            got[i] = capi::readFrame(h.copies[i]);
        if (!aggregated) {
            VF_CHECK(c, got.size() == n, name << ": " << got.size() << " frames, not " << n);
            for (size_t i = 0; i < n; i++) {
                std::string d = gen::diff(v[i], got[i]);
                VF_CHECK(c, d.empty(), name << ": frame " << i << ": " << d);
            }
        }
        if (kind == 0) {
            first = got;
            size_t rows = 0, want = 0;
            for (auto& f : got)
                rows += f.nrows;
            for (auto& f : v)
                want += f.nrows;
            VF_CHECK(c, rows == want, "rows lost");
        }
        else {
            VF_CHECK(c, got.size() == first.size(), name << ": " << got.size() << " frames, buffer: " << first.size());
            gen::Cmp cmp;
            cmp.props = true;
            for (size_t i = 0; i < got.size(); i++) {
                std::string d = gen::diff(first[i], got[i], cmp);
                VF_CHECK(c, d.empty(), name << " differs from buffer in frame " << i << ": " << d);
            }
        }
    }
    VF_CHECK(c, !pieces.over, "the callback was asked for a negative number of bytes");
    c.labelIf(aggregated, "aggregated");
    c.labelIf(late, "decoded after the reader moved on");
    c.labelIf(np > 0, "short reads");
    c.nontrivial = n > 1;
}

// A read callback that fails (or a stream that ends) part way: an error or a whole prefix of frames, never other data
static void failingSource(Ctx& c, const gen::Opts& o) {
    capi::setLongs(false);
    size_t n = size_t(c.g.range(1, 3));
    std::vector<ref::Frame> v;
    std::string bytes;
    for (size_t i = 0; i < n; i++) {
        ref::Frame f = gen::genTable(c.g, o);
        bytes += gen::encodeAny(c.g, f);
        v.push_back(f);
    }
    Pieces pieces;
    pieces.data = &bytes;
    pieces.sizes.push_back(size_t(c.g.range(1, 400)));
    pieces.failCall = size_t(c.g.range(0, int64_t(bytes.size() / pieces.sizes[0])));
    c.note("callback fails at call " + std::to_string(pieces.failCall) + ", pieces of " + std::to_string(pieces.sizes[0]));
    Closer h;
    int rc = odc_open_stream(&h.rd, &pieces, Pieces::read);
    bool failed = rc != 0;
    if (rc == 0) {
        OK(odc_new_frame(&h.fr, h.rd));
        size_t i = 0;
        while (true) {
            rc = odc_next_frame(h.fr);
            if (rc == ODC_ITERATION_COMPLETE)
                break;
            if (rc != 0) {
                failed = true;
                break;
            }
            VF_CHECK(c, i < n, "too many frames");
            try {
                ref::Frame g  = capi::readFrame(h.fr);
                std::string d = gen::diff(v[i], g);
                VF_CHECK(c, d.empty(), "frame " << i << ": " << d);
            }
            catch (Failure& f) {
                if (pieces.calls >= pieces.failCall && f.msg.find("odc_decode") != std::string::npos) {
                    failed = true;
                    break;
                }
                throw;
            }
            i++;
        }
    }
    VF_CHECK(c, failed, "the callback failed at call " << pieces.failCall << ", and no error was reported");
    c.nontrivial = true;
}

static std::vector<std::pair<size_t, size_t>> extents(const std::string& bytes) {
    std::vector<std::pair<size_t, size_t>> v;
    for (auto& f : ref::decodeAll(bytes))
        v.push_back({f.offset, f.length});
    return v;
}

static void sinks(Ctx& c, const gen::Opts& o) {
    capi::setLongs(c.g.chance(1, 2));
    ref::Frame f   = gen::genTable(c.g, o);
    capi::Layout l = capi::genLayout(c.g, f);
    if (c.g.chance(1, 2))
        l.rowsPerFrame = c.g.range(1, int64_t(f.nrows) + 1);
    c.note(l.text() + " " + gen::describe(f, 4));

    std::string byCallback;
    {
        capi::Encoding e;
        e.setup(f, l);
        Sink s;
        long n = -1;
        OK(odc_encode_to_stream(e.enc, &s, Sink::write, &n));
        byCallback = s.out;
        VF_CHECK(c, n == long(s.out.size()), "callback: reported " << n << " of " << s.out.size() << " bytes");
        VF_CHECK(c, e.sourceUntouched(), "encoding changed the source");
    }
    auto ext = extents(byCallback);
    c.labelIf(ext.size() > 1, "several frames");
    {
        // a buffer with room to spare, or exactly as long as needed
        size_t room = byCallback.size() + (c.g.chance(1, 2) ? size_t(c.g.range(1, 100)) : 0);
        std::string buf(room + 16, '\x5a');
        capi::Encoding e;
        e.setup(f, l);
        long n = -1;
        OK(odc_encode_to_buffer(e.enc, &buf[0], long(room), c.g.chance(1, 8) ? nullptr : &n));
        VF_CHECK(c, n == -1 || n == long(byCallback.size()), "buffer: reported " << n << " of " << byCallback.size() << " bytes");
        VF_CHECK(c, buf.substr(0, byCallback.size()) == byCallback, "buffer and callback received different bytes");
        VF_CHECK(c, buf.substr(byCallback.size()) == std::string(buf.size() - byCallback.size(), '\x5a'),
                 "bytes after the encoded data changed");
    }
    {
        std::string path = c.tmp + "/out.odb", before;
        bool append = c.g.chance(1, 2);
        if (append)
            before = std::string(size_t(c.g.range(1, 300)), 'x');
        writeFile(path, before);
        int fd = open(path.c_str(), O_WRONLY | (append && c.g.chance(1, 2) ? O_APPEND : 0));
        if (append)
            lseek(fd, 0, SEEK_END);
        capi::Encoding e;
        e.setup(f, l);
        long n = -1;
        int rc = odc_encode_to_file_descriptor(e.enc, fd, &n);
        // the caller's descriptor stays open: it is still the caller's
        bool open_ = fcntl(fd, F_GETFD) != -1;
        if (open_)
            close(fd);
        VF_CHECK(c, rc == 0, "file descriptor: " << capi::errorText(rc));
        std::string out = readFile(path);
        VF_CHECK(c, out.substr(0, before.size()) == before, "existing content of the file changed");
        VF_CHECK(c, out.substr(before.size()) == byCallback, "file and callback received different bytes");
        VF_CHECK(c, n == long(byCallback.size()), "file descriptor: reported " << n << " of " << byCallback.size() << " bytes");
        c.labelIf(append, "descriptor positioned after existing content");
    }
    if (c.g.chance(1, 4)) {
        // a pipe
        int p[2];
        if (pipe(p) == 0) {
            fcntl(p[1], 1031 /* F_SETPIPE_SZ */, 1 << 20);
            if (byCallback.size() < 60000) {
                capi::Encoding e;
                e.setup(f, l);
                long n = -1;
                int rc = odc_encode_to_file_descriptor(e.enc, p[1], &n);
                close(p[1]);
                std::string out(byCallback.size() + 1, 0);
                size_t k = 0;
                ssize_t r;
                while (k < out.size() && (r = read(p[0], &out[k], out.size() - k)) > 0)
                    k += size_t(r);
                close(p[0]);
                VF_CHECK(c, rc == 0, "pipe: " << capi::errorText(rc));
                VF_CHECK(c, k == byCallback.size() && out.substr(0, k) == byCallback, "pipe and callback received different bytes");
                VF_CHECK(c, n == long(byCallback.size()), "pipe: reported " << n << " of " << byCallback.size() << " bytes");
                c.label("pipe");
            }
            else {
                close(p[0]);
                close(p[1]);
            }
        }
    }
    c.nontrivial = f.nrows > 1;
}

static void failingSinks(Ctx& c, const gen::Opts& o) {
    capi::setLongs(c.g.chance(1, 2));
    ref::Frame f   = gen::genTable(c.g, o);
    capi::Layout l = capi::genLayout(c.g, f);
    if (c.g.chance(1, 2))
        l.rowsPerFrame = c.g.range(1, int64_t(f.nrows) + 1);
    std::string all = capi::encode(f, l);
    c.note(l.text() + " " + gen::describe(f, 4) + " encoded in " + std::to_string(all.size()) + " bytes");

    capi::Encoding e;
    e.setup(f, l);
    long n   = -1;
    int kind = int(c.g.index(4));
    if (kind == 0) {
        size_t room = c.g.chance(1, 3) ? all.size() - 1 : size_t(c.g.range(0, int64_t(all.size()) - 1));
        std::string buf(all.size() + 64, '\x5a');
        int rc = odc_encode_to_buffer(e.enc, &buf[0], long(room), &n);
        c.note("buffer of " + std::to_string(room));
        VF_CHECK(c, rc != 0, "encoded " << all.size() << " bytes into a buffer of " << room << " (reported " << n << ")");
        for (size_t i = room; i < buf.size(); i++)
            VF_CHECK(c, buf[i] == '\x5a', "byte " << i << " after a buffer of " << room << " bytes changed");
        c.label("buffer too small");
    }
    else if (kind == 1) {
        Sink s;
        size_t k = size_t(c.g.range(0, 3));
        for (size_t i = 0; i < k; i++)
            s.plan.push_back(1l << 40);
        s.plan.push_back(c.g.chance(1, 2) ? -1 : c.g.range(0, 200));
        int rc = odc_encode_to_stream(e.enc, &s, Sink::write, &n);
        if (s.shortOrFailed) {
            VF_CHECK(c, rc != 0, "the write callback accepted less than given, and no error was reported");
            c.label("callback failed");
        }
        else
            VF_CHECK(c, rc == 0 && s.out == all, "encoding with a callback that never failed: " << capi::errorText(rc));
    }
    else if (kind == 2) {
        int fd = c.g.chance(1, 2) ? open("/dev/full", O_WRONLY) : open("/dev/null", O_RDONLY);
        int rc = odc_encode_to_file_descriptor(e.enc, fd, &n);
        close(fd);
        VF_CHECK(c, rc != 0, "no error from a descriptor that cannot be written");
        c.label("descriptor failed");
    }
    else {
        // a file that may only grow so far: the write stops in the middle
        std::string path = c.tmp + "/limited.odb";
        int fd           = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        size_t room      = size_t(c.g.range(0, int64_t(all.size()) - 1));
        struct rlimit was, now;
        getrlimit(RLIMIT_FSIZE, &was);
        now          = was;
        now.rlim_cur = room;
        signal(SIGXFSZ, SIG_IGN);
        setrlimit(RLIMIT_FSIZE, &now);
        int rc = odc_encode_to_file_descriptor(e.enc, fd, &n);
        setrlimit(RLIMIT_FSIZE, &was);
        close(fd);
        VF_CHECK(c, rc != 0, "no error when only " << room << " of " << all.size() << " bytes could be written");
        std::string out = readFile(path);
        VF_CHECK(c, out == all.substr(0, out.size()), "what was written is not the beginning of the encoded data");
        c.label("file full");
    }
    // the encoder is still good
    std::string again = capi::drain(e.enc);
    VF_CHECK(c, again == all, "after a failed attempt the encoder gives other bytes");
    VF_CHECK(c, e.sourceUntouched(), "encoding changed the source");
    c.nontrivial = true;
}

int main(int argc, char** argv) {
    Suite s;
    s.property = "C08";
    s.rule =
        "streams of 0-4 frames read through memory, path, descriptor and a callback delivering pieces of random sizes, single "
        "or aggregated, decoded at once or after the reader moved on; tables encoded to memory, descriptors (also after existing "
        "content, and pipes) and callbacks; failing callbacks, full files, short buffers with guard bytes; non-trivial: several "
        "frames or rows, or a failure injected";
    s.init = capi::init;
    gen::Opts o;
    o.maxRows = 25;
    s.subs.push_back({"sources", [=](Ctx& c) { sources(c, o); }, 6000, 200000});
    s.subs.push_back({"failing source", [=](Ctx& c) { failingSource(c, o); }, 3000, 100000});
    s.subs.push_back({"sinks", [=](Ctx& c) { sinks(c, o); }, 6000, 200000});
    s.subs.push_back({"failing sinks", [=](Ctx& c) { failingSinks(c, o); }, 6000, 200000});
    return vf::main(argc, argv, s);
}
