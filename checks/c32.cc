// C32: independent objects used by several threads at once
// Built with ThreadSanitizer: an unsynchronised access in the library ends the process.
#include "capi.h"
#include "sql.h"
#include "tools.h"

#include <atomic>
#include <sstream>
#include <thread>

#include "eckit/exception/Exceptions.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/filesystem/PathName.h"
#include "odc/Reader.h"
#include "odc/Select.h"
#include "odc/Writer.h"
#include "odc/api/Odb.h"
#include "odc/core/Column.h"
#include "odc/core/MetaData.h"

using namespace vf;

// what eckit does with its log on its own
extern "C" const char* __tsan_default_suppressions() {
    return "race:eckit::StatusTarget\nrace:Monitor.cc\n";
}

namespace {

enum Kind { ENCODE, READ, AGGREGATED, ATTRIBUTES, ROWS, WRITE, IMPORT, SPAN, FAIL_OPEN, FAIL_COLUMN, FAIL_FRAME, KINDS };
const char* names[] = {"encode", "decode", "decode aggregated", "attributes", "row reader", "row writer", "text import", "span",
                       "a file that does not exist", "an unknown column", "a damaged frame"};

struct Task {
    int kind = 0;
    bool longs = false;
    int repeat = 1;
    gen::Frame table;
    capi::Layout layout;
    std::string bytes;
    std::string text;
    std::string name;
};

std::string shown(const std::vector<gen::Frame>& v) {
    std::ostringstream o;
    for (auto& f : v)
        o << gen::describe(f, 1000) << "\n";
    return o.str();
}

std::string readRows(const std::string& bytes) {
    std::ostringstream o;
    o.precision(17);
    eckit::MemoryHandle in(bytes.data(), bytes.size());
    in.openForRead();
    odc::Reader rd(in);
    for (odc::Reader::iterator it = rd.begin(), end = rd.end(); it != end; ++it) {
        for (size_t k = 0; k < it->columns().size(); k++)
            if (it->columns()[k]->type() == odc::api::STRING)
                o << it->string(int(k)) << ",";
            else
                o << it->data(k) << (it->isMissing(k) ? "m," : ",");
        o << "\n";
    }
    return o.str();
}

struct Values : odc::api::SpanVisitor {
    std::ostringstream o;
    template <typename T>
    void put(const std::string& n, const std::set<T>& v) {
        o << n << ":";
        for (auto& x : v)
            o << x << ",";
    }
    void operator()(const std::string& n, const std::set<long>& v) override { put(n, v); }
    void operator()(const std::string& n, const std::set<double>& v) override { put(n, v); }
    void operator()(const std::string& n, const std::set<std::string>& v) override { put(n, v); }
};

// the description of a failed call
std::string failed(int rc) {
    if (rc == ODC_SUCCESS || rc == ODC_ITERATION_COMPLETE)
        throw Failure{"a call that cannot succeed succeeds"};
    return odc_error_string(rc);
}

std::string perform(const Task& t) {
    capi::setLongs(t.longs);
    switch (t.kind) {
        case ENCODE:
            return capi::encode(t.table, t.layout);
        case READ:
            return shown(capi::readAll(t.bytes));
        case AGGREGATED: {
            long none = -1;
            capi::Read r;
            r.threads = 2;
            return shown(capi::readAll(t.bytes, &none, r));
        }
        case ATTRIBUTES: {
            capi::Read r;
            r.decode = false;
            std::ostringstream o;
            for (auto& f : capi::readAll(t.bytes, nullptr, r)) {
                o << f.nrows << " rows of " << gen::schemaText(f);
                for (auto& p : f.props)
                    o << " " << quote(p.first) << "=" << quote(p.second);
            }
            return o.str();
        }
        case ROWS:
            return readRows(t.bytes);
        case WRITE: {
            eckit::MemoryHandle in(t.bytes.data(), t.bytes.size()), out(1 << 16, true);
            in.openForRead();
            odc::Reader rd(in);
            {
                odc::Writer<> w(out);
                odc::Writer<>::iterator o = w.begin();
                odc::Reader::iterator it = rd.begin(), end = rd.end();
                o->pass1(it, end);
            }
            return std::string(static_cast<const char*>(out.data()), size_t((long long)out.position()));
        }
        case IMPORT: {
            eckit::MemoryHandle out(1 << 16, true);
            out.openForWrite(0);
            odc::api::odbFromCSV(t.text, out, ",");
            return std::string(static_cast<const char*>(out.data()), size_t((long long)out.position()));
        }
        case SPAN: {
            eckit::MemoryHandle in(t.bytes.data(), t.bytes.size());
            in.openForRead();
            odc::api::Reader rd(in, true);
            std::string s;
            while (odc::api::Frame f = rd.next()) {
                std::vector<std::string> n;
                for (auto& i : f.columnInfo())
                    n.push_back(i.name);
                Values v;
                f.span(n, false).visit(v);
                s += v.o.str();
            }
            return s;
        }
        case FAIL_OPEN: {
            odc_reader_t* r = nullptr;
            int rc          = odc_open_path(&r, t.name.c_str());
            odc_frame_t* f  = nullptr;
            if (rc == ODC_SUCCESS) {
                rc = odc_new_frame(&f, r);
                if (rc == ODC_SUCCESS)
                    rc = odc_next_frame(f);
            }
            std::string s = failed(rc);
            if (f)
                odc_free_frame(f);
            if (r)
                odc_close(r);
            return s;
        }
        case FAIL_COLUMN: {
            odc_reader_t* r = nullptr;
            OK(odc_open_buffer(&r, t.bytes.data(), long(t.bytes.size())));
            odc_frame_t* f = nullptr;
            OK(odc_new_frame(&f, r));
            OK(odc_next_frame(f));
            odc_decoder_t* d = nullptr;
            OK(odc_new_decoder(&d));
            OK(odc_decoder_add_column(d, t.name.c_str()));
            long rows = 0;
            OK(odc_frame_row_count(f, &rows));
            std::vector<double> data(size_t(rows) + 1);
            OK(odc_decoder_set_row_count(d, rows));
            OK(odc_decoder_set_data_array(d, data.data(), 8, rows, true));
            int rc        = odc_decode(d, f, &rows);
            std::string s = failed(rc);
            odc_free_decoder(d);
            odc_free_frame(f);
            odc_close(r);
            return s;
        }
        default: {
            odc_reader_t* r = nullptr;
            OK(odc_open_buffer(&r, t.bytes.data(), long(t.bytes.size())));
            odc_frame_t* f = nullptr;
            OK(odc_new_frame(&f, r));
            int rc = odc_next_frame(f);
            std::string s = failed(rc);
            odc_free_frame(f);
            odc_close(r);
            return s;
        }
    }
}

std::string guarded(const Task& t) {
    try {
        return "=" + perform(t);
    }
    catch (Failure& f) {
        return "!" + f.msg;
    }
    catch (std::exception& e) {
        return std::string("!") + e.what();
    }
}

void threads(Ctx& c) {
    gen::Opts o;
    o.maxRows = 10;
    o.maxCols = 5;
    o.nan = o.special = false;
    std::vector<Task> tasks;
    size_t n = size_t(c.g.range(2, 8));
    int only = c.g.chance(1, 3) ? int(c.g.range(0, KINDS - 1)) : -1;
    for (size_t i = 0; i < n; i++) {
        Task t;
        t.kind   = only >= 0 ? only : int(c.g.weighted({4, 3, 2, 1, 2, 3, 2, 2, 2, 2, 1}));
        t.longs  = c.g.chance(1, 2) && t.kind != ROWS && t.kind != WRITE && t.kind != IMPORT;  // (rows hold doubles)
        t.repeat = int(c.g.range(1, 4));
        t.name   = "name" + std::to_string(i) + "of" + std::to_string(c.g.range(1000, 9999));
        t.table  = gen::genTable(c.g, o);
        t.layout = capi::genLayout(c.g, t.table);
        if (t.kind != ENCODE && t.kind != IMPORT && t.kind != FAIL_OPEN) {
            size_t frames = size_t(c.g.range(1, 3));
            for (size_t k = 0; k < frames; k++) {
                gen::Frame f = k ? gen::genLike(c.g, t.table, o) : t.table;
                t.bytes += gen::encodeAny(c.g, f);
            }
        }
        if (t.kind == FAIL_FRAME) {
            size_t at   = size_t(c.g.range(21, 80));
            t.bytes[at] = char(t.bytes[at] ^ 1);
        }
        if (t.kind == IMPORT) {
            t.text = "a:INTEGER,b:REAL,s:STRING,f:BITFIELD[x:3;y:2]\n";
            for (int k = int(c.g.range(1, 12)); k > 0; k--)
                t.text += std::to_string(c.g.range(-5, 1000)) + "," + std::to_string(c.g.range(-9, 9)) + ".5," +
                          std::string(size_t(c.g.range(1, 20)), char('a' + c.g.range(0, 25))) + "," + std::to_string(c.g.range(0, 31)) + "\n";
        }
        c.note(std::string(names[t.kind]) + (t.longs ? ", integers as longs" : "") + ", " + std::to_string(t.repeat) + " times: " +
               gen::describe(t.table, 4));
        c.label(names[t.kind]);
        tasks.push_back(t);
    }
    bool warm = c.g.chance(1, 3);  // the library was used before
    c.labelIf(!warm, "first use of the library");
    std::string r = tools::lib(c.tmp, [&] {
        if (warm)
            for (auto& t : tasks)
                guarded(t);
        std::vector<std::vector<std::string>> got(n);
        std::atomic<size_t> ready{0};
        std::vector<std::thread> all;
        for (size_t i = 0; i < n; i++)
            all.emplace_back([&, i] {
                ready++;
                while (ready < n)
                    ;
                for (int k = 0; k < tasks[i].repeat; k++)
                    got[i].push_back(guarded(tasks[i]));
            });
        for (auto& t : all)
            t.join();
        for (size_t i = 0; i < n; i++) {
            std::string alone = guarded(tasks[i]);
            if (alone[0] == '!')
                throw Failure{"harness: " + alone};
            for (auto& g : got[i])
                if (g != alone)
                    throw Failure{"thread " + std::to_string(i) + " (" + names[tasks[i].kind] + ") gives " + quote(g, 500) + " instead of " + quote(alone, 500)};
        }
        return std::string("ok");
    });
    VF_CHECK(c, r == "ok", "no result");
    c.nontrivial = true;
}

}  // namespace

int main(int argc, char** argv) {
    Suite s;
    s.property = "C32";
    s.rule =
        "2-8 threads in a new process, each encoding, decoding (also aggregated and in threads), reading attributes, reading and "
        "writing rows, importing text, taking spans or failing on objects of its own, 1-4 times and in its own integer mode; every "
        "result compared with the same work done alone, under ThreadSanitizer; non-trivial: all";
    s.subs.push_back({"threads", threads, 2500, 60000});
    s.assumptions.push_back(
        "ThreadSanitizer sees the accesses of the odc library; eckit is a prebuilt library whose own accesses are not "
        "instrumented. Schedules are those the operating system produced.");
    return vf::main(argc, argv, s);
}
