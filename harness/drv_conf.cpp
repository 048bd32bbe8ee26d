// Loads a configuration text with the real loader and prints the resulting
// modules.  (Compiled with -fno-access-control.)
//   C <hex>   ->  ok <json> | fail <code> | died <status>
#include "lineio.hpp"
#include <sys/wait.h>
#include <fcntl.h>
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include <sps_avformat_tsdec.hpp>
#include <sps_host_global_module.hpp>
#include <sps_install.hpp>
#include <sps_io_url_file.hpp>
#include <sps_io_url_http.hpp>
#include <sps_root_module.hpp>
#include <sps_rtmp_module.hpp>
#include "sps_tables.hpp"
using namespace sps;

static std::string arr(const std::string& s) {
    std::ostringstream o;
    o << "[";
    for (size_t i = 0; i < s.size(); ++i) o << (i ? "," : "") << (int) (uint8_t) s[i];
    o << "]";
    return o.str();
}

static std::string value(const ConfigOption& o, void* conf) {
    uint8_t* p = (uint8_t*) conf + o.offset;
    switch (o.type) {
        case CONF_OPT_TYPE_INT: return std::to_string(*(int*) p);
        case CONF_OPT_TYPE_INT64: case CONF_OPT_TYPE_UINT64: return std::to_string(*(int64_t*) p);
        case CONF_OPT_TYPE_BOOL: return std::to_string((int) *(uint8_t*) p);
        case CONF_OPT_TYPE_STRING: return *(std::string*) p;
        default: return "?";
    }
}

static std::string dump(const PIModule& m) {
    std::ostringstream o;
    o << "{\"t\":\"" << m->module_type << "\",\"n\":" << arr(m->module_name) << ",\"o\":[";
    bool first = true;
    for (int i = 0; m->opts[i].name; ++i) {
        if (m->opts[i].type == CONF_OPT_TYPE_SUBMODULE) continue;
        o << (first ? "" : ",") << "[\"" << m->opts[i].name << "\"," << arr(value(m->opts[i], m->conf.get())) << "]";
        first = false;
    }
    o << "],\"s\":[";
    std::vector<PIModule> subs;
    for (auto& l : m->subs) for (auto& s : l.second) subs.push_back(s);
    if (auto h = std::dynamic_pointer_cast<HttpModule>(m)) subs.insert(subs.end(), h->http_servers.begin(), h->http_servers.end());
    if (auto h = std::dynamic_pointer_cast<ServerModule>(m)) subs.insert(subs.end(), h->host_modules.begin(), h->host_modules.end());
    if (auto h = std::dynamic_pointer_cast<GlobalHostModule>(m)) subs.insert(subs.end(), h->host_modules.begin(), h->host_modules.end());
    if (auto h = std::dynamic_pointer_cast<HostModule>(m)) {
        if (h->stream_module) subs.push_back(h->stream_module);
        if (h->upstream_module) subs.push_back(h->upstream_module);
    }
    for (size_t i = 0; i < subs.size(); ++i) o << (i ? "," : "") << dump(subs[i]);
    o << "]}";
    return o.str();
}

static std::string load(const std::string& file) {
    auto root = SingleInstance<ModuleFactoryRegister>::get_instance().create("root", "", nullptr);
    auto rd = std::make_shared<FileURLProtocol>();
    if (rd->open(file) != SUCCESS) return "nofile";
    error_t ret = root->init_conf(rd);
    if (ret != SUCCESS) return "fail " + std::to_string(ret);
    return "ok " + dump(root);
}

static std::string cmd(const Args& a) {
    static bool once = (sps_once_install(), true);
    (void) once;
    std::string text = unhex(a[1]);
    char name[] = "/tmp/drvconf.XXXXXX";
    int fd = mkstemp(name);
    if (write(fd, text.data(), text.size()) != (ssize_t) text.size()) return "disk";
    close(fd);
    int p[2];
    if (pipe(p) != 0) return "pipe";
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        std::string r = load(name);
        size_t off = 0;
        while (off < r.size()) { ssize_t n = write(p[1], r.data() + off, r.size() - off); if (n <= 0) break; off += n; }
        _exit(0);
    }
    close(p[1]);
    std::string r;
    char buf[65536];
    ssize_t n;
    while ((n = read(p[0], buf, sizeof(buf))) > 0) r.append(buf, n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    unlink(name);
    if (WIFSIGNALED(st)) return "died signal " + std::to_string(WTERMSIG(st));
    if (WEXITSTATUS(st) == 99) return "died sanitizer";
    if (r.empty()) return "fail exit " + std::to_string(WEXITSTATUS(st));
    return r;
}

int main() {
    line_loop(cmd);
    return 0;
}
