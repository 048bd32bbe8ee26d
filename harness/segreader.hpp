// a source that delivers its data in given segments (used cyclically)
#pragma once
#include <sps_io.hpp>
#include <sstream>
class SegReader : public sps::IReader {
 public:
    std::string data; std::vector<size_t> segs; size_t pos = 0, si = 0, in = 0;
    SegReader() {}
    SegReader(const std::string& s, const std::string& d) : data(d) {
        std::istringstream is(s); std::string t;
        while (std::getline(is, t, ',')) segs.push_back(strtoul(t.c_str(), nullptr, 10));
    }
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return 0; }
    error_t read(void* buf, size_t size, size_t& nr) override {
        nr = 0;
        if (size == 0) return ERROR_IO_BUFFER_FULL;
        if (pos >= data.size()) return ERROR_IO_EOF;
        size_t seg = segs.empty() ? data.size() : segs[si % segs.size()];
        size_t n = std::min(std::min(size, seg - in), data.size() - pos);
        memcpy(buf, data.data() + pos, n);
        pos += n; in += n; nr = n;
        if (in >= seg) { in = 0; ++si; }
        return SUCCESS;
    }
    error_t read_fully(void* buf, size_t size, ssize_t* nread) override {
        size_t got = 0;
        while (got < size) { size_t n = 0; error_t r = read((char*) buf + got, size - got, n); if (r != SUCCESS) return r; got += n; }
        if (nread) *nread = got;
        return SUCCESS;
    }
};
