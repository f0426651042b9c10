#include "capi.h"
#include "rows.h"

#include "eckit/exception/Exceptions.h"
#include "eckit/io/MemoryHandle.h"
#include "odc/Reader.h"
#include "odc/Writer.h"
#include "odc/core/Column.h"
#include "odc/core/MetaData.h"

namespace rows {

static void collect(odc::Reader& rd, std::vector<Frame>& out) {
    odc::Reader::iterator it        = rd.begin();
    const odc::Reader::iterator end = rd.end();
    bool first                      = true;
    for (; it != end; ++it) {
        if (it->isNewDataset() || first) {
            Frame f;
            for (auto* col : it->columns()) {
                ref::Col c;
                c.name    = col->name();
                c.type    = int(col->type());
                c.width   = 8 * col->dataSizeDoubles();
                c.missing = col->missingValue();
                if (c.type == ref::BITFIELD) {
                    auto& b = col->bitfieldDef();
                    for (size_t k = 0; k < b.first.size(); k++)
                        c.bits.push_back(ref::Bit{b.first[k], int(b.second[k])});
                }
                f.cols.push_back(c);
            }
            for (auto& p : it->properties())
                f.props[p.first] = p.second;
            out.push_back(f);
            first = false;
        }
        Frame& f = out.back();
        if (it->columns().size() != f.cols.size())
            throw vf::Failure{"the number of columns changes within a frame"};
        for (size_t k = 0; k < f.cols.size(); k++) {
            auto& c = f.cols[k];
            ref::Cell x;
            if (c.type == ref::STRING) {
                x.s = it->string(int(k));
            }
            else {
                double v  = it->data(k);
                x.d       = v;
                x.missing = v == c.missing;
                if (c.isInt()) {
                    if (!(v > -9e18 && v < 9e18) || v != std::floor(v))
                        throw vf::Failure{"integer column " + c.name + " read as a non-integral value " + std::to_string(v)};
                    x.i = int64_t(v);
                }
                if (it->isMissing(k) && !x.missing)
                    throw vf::Failure{"isMissing() holds for a value that is not the missing value"};
            }
            c.cells.push_back(x);
        }
        f.nrows++;
    }
}

template <typename F>
static std::vector<Frame> guarded(F fn, std::string* error) {
    capi::setLongs(false);
    std::vector<Frame> out;
    try {
        fn(out);
    }
    catch (std::exception& e) {
        if (!error)
            throw vf::Failure{std::string("unexpected error reading rows: ") + e.what()};
        *error = e.what();
    }
    return out;
}

std::vector<Frame> read(const std::string& bytes, std::string* error) {
    return guarded(
        [&](std::vector<Frame>& out) {
            eckit::MemoryHandle h(bytes.data(), bytes.size());
            odc::Reader rd(h);
            collect(rd, out);
        },
        error);
}

std::vector<Frame> readPath(const std::string& path, std::string* error) {
    return guarded(
        [&](std::vector<Frame>& out) {
            odc::Reader rd{eckit::PathName(path)};
            collect(rd, out);
        },
        error);
}

void write(const std::string& path, const std::vector<Step>& steps, size_t bufferRows, bool append,
           const std::map<std::string, std::string>& props) {
    capi::setLongs(false);
    try {
        odc::Writer<> w{eckit::PathName(append ? std::string("/dev/null") : path)};
        w.rowsBufferSize(bufferRows);
        using It = odc::Writer<>::iterator;
        It it    = append ? It(w.createWriteIterator(eckit::PathName(path), true)) : w.begin();
        for (auto& p : props)
            (*it).operator*().property(p.first, p.second);
        for (auto& s : steps) {
            switch (s.kind) {
                case Step::HEADER: {
                    it->setNumberOfColumns(0);  // forget the columns defined before
                    it->setNumberOfColumns(s.table.cols.size());
                    for (size_t k = 0; k < s.table.cols.size(); k++) {
                        auto& c = s.table.cols[k];
                        if (c.type == ref::BITFIELD) {
                            eckit::sql::BitfieldDef b;
                            for (auto& x : c.bits) {
                                b.first.push_back(x.name);
                                b.second.push_back(x.size);
                            }
                            it->setBitfieldColumn(k, c.name, odc::api::ColumnType(c.type), b);
                        }
                        else
                            it->setColumn(k, c.name, odc::api::ColumnType(c.type));
                        if (c.type == ref::STRING)
                            it->columns()[k]->dataSizeDoubles(c.width / 8);
                        else
                            it->missingValue(k, c.missing);
                    }
                    it->writeHeader();
                    break;
                }
                case Step::ROWS: {
                    auto& f = s.table;
                    for (size_t r = 0; r < f.nrows; r++) {
                        for (size_t k = 0; k < f.cols.size(); k++) {
                            auto& c  = f.cols[k];
                            auto& x  = c.cells[r];
                            double* p = &it->data()[it->dataOffset(k)];
                            if (c.type == ref::STRING) {
                                size_t w = 8 * it->dataSizeDoubles(k);
                                if (w < x.s.size())
                                    throw vf::Failure{"string wider than the column (harness)"};
                                memset(p, 0, w);
                                memcpy(p, x.s.data(), x.s.size());
                            }
                            else
                                *p = x.missing ? c.missing : c.isInt() ? double(x.i) : x.d;
                        }
                        ++it;
                    }
                    break;
                }
                case Step::FLUSH:
                    (*it).operator*().flush();
                    break;
                case Step::WIDEN:
                    it->flushAndResetColumnSizes(s.widths);
                    break;
            }
        }
    }
    catch (std::exception& e) {
        throw vf::Failure{std::string("unexpected error writing rows: ") + e.what()};
    }
}

}  // namespace rows
