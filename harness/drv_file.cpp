// The file protocol, performed in the directory this is started in.
#include "lineio.hpp"
#include <sps_io_url_file.hpp>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace sps;

static std::shared_ptr<FileURLProtocol> f;

static std::string end(error_t r) { return r == ERROR_IO_EOF ? "end" : "err"; }
static std::string cmd(const Args& a) {
    const std::string& c = a[0];
    if (c == "file") {      // what it holds, or no file at all
        f.reset();
        unlink(a[1].c_str());
        if (a[2] != "none") { auto b = unhex(a[2]); std::ofstream(a[1], std::ios::binary).write(b.data(), b.size()); }
        return "ok";
    }
    if (c == "cat") {
        std::ifstream i(a[1], std::ios::binary);
        if (!i) return "none";
        std::stringstream s; s << i.rdbuf(); std::string x = s.str();
        return hex(x);
    }
    if (c == "open") {      // name mode [the same handle]
        if (a.size() < 4) f = std::make_shared<FileURLProtocol>(a[2] == "trunc", a[2] == "app");
        return f->open(a[1]) == SUCCESS ? "ok" : "err";
    }
    if (c == "close") { f->close(); return "ok"; }
    if (c == "drop") { f.reset(); return "ok"; }
    if (c == "write") { Block b(unhex(a[1])); return f->write(b.p, b.n) == SUCCESS ? "ok" : "err"; }
    if (c == "read") {
        size_t want = atol(a[1].c_str()), n = 0;
        Block b(std::string(want, 0));
        error_t r = f->read(b.p, want, n);
        return r != SUCCESS ? end(r) : n > want ? "too much" : hex(b.p, n);
    }
    if (c == "fully") {
        size_t want = atol(a[1].c_str());
        Block b(std::string(want, 0));
        error_t r = f->read_fully(b.p, want, nullptr);
        return r != SUCCESS ? end(r) : hex(b.p, want);
    }
    if (c == "line") {
        std::string l;
        error_t r = f->read_line(l);
        return r != SUCCESS ? end(r) : hex(l) + " " + std::to_string(f->cur_line_num());
    }
    return "?";
}

int main() { line_loop(cmd); }
