// Streams of events with subscribers and waiting coroutines, and coroutine handlers.
#include "lineio.hpp"
#include <algorithm>
#include <sps_cache.hpp>
#include <sps_sys_co.hpp>
#include <sps_sys_st_co.hpp>
#include <sps_sys_sync.hpp>
extern "C" {
#include <public.h>
}
namespace sps { extern int get_context_id(); }
using namespace sps;

static st_utime_t now_us = 1000000000ULL;
static st_utime_t test_clock() { return now_us; }
static void settle() { for (int i = 0; i < 12; ++i) st_usleep(0); }

typedef CacheStream<int> Node;
static std::map<int, std::shared_ptr<Node>> node;
static std::vector<std::unique_ptr<char[]>> gaps;

struct W { std::shared_ptr<Node> n; utime_t t; int id; };
static std::map<int, std::string> ended;
static int waiting = 0;
static void* waiter(void* p) {
    std::unique_ptr<W> w((W*) p);
    int r = w->n->wait(w->t);
    --waiting;
    ended[w->id] = r == 0 ? "woken" : "late";
    return nullptr;
}
static std::string who() {
    std::string r;
    for (auto& e : ended) r += " " + std::to_string(e.first) + "=" + e.second;
    ended.clear();
    return "ok" + r;
}

static std::vector<std::string> events;
struct H : ICoHandler {
    std::string name;
    PCondition go = IConditionFactory::get_instance().create_condition();
    int state = 0;
    explicit H(const std::string& n) : name(n) {}
    ~H() override { events.push_back("gone " + name + (state == 0 || state == 3 ? "" : " while it runs")); }
    void on_start() override { events.push_back(state == 0 || state == 3 ? "begin " + name : "begin again " + name); state = 1; }
    error_t handler() override;
    void on_stop() override { if (state != 2) events.push_back("stop out of turn"); state = 3; }
};
static std::map<std::string, std::shared_ptr<H>> had;
static std::map<std::string, H*> live;
static std::map<std::string, int> ids;
error_t H::handler() {
    if (state != 1) events.push_back("out of turn");
    live[name] = this;
    int id = get_context_id();
    for (auto& i : ids) if (i.second == id) events.push_back("the id of " + i.first);
    ids[name] = id;
    go->wait(-1);
    if (get_context_id() != id) events.push_back("another id");
    ids.erase(name);
    live.erase(name);
    events.push_back("end " + name);
    state = 2;
    return name.size() % 2 ? SUCCESS : ERROR_SOCKET_TIMEOUT;
}
static std::string happened() {
    std::string r;
    for (auto& e : events) r += "," + e;
    events.clear();
    return r.empty() ? "ok" : r.substr(1);
}

static std::string cmd(const Args& a) {
    auto N = [&](size_t i) { return atoi(a[i].c_str()); };
    const std::string& c = a[0];
    if (c == "clear") {
        int one = 1;
        for (auto& n : node) n.second->on_event(one);
        now_us += 3600ULL * 1000000; settle();
        std::string r = waiting ? "still waiting" : "ok";
        node.clear(); gaps.clear(); ended.clear(); events.clear();
        return r;
    }
    if (c == "new") {
        gaps.emplace_back(new char[N(2) + 1]);      // streams lie at different places
        node[N(1)] = std::make_shared<Node>();
        return who();
    }
    if (c == "gap") { gaps.erase(gaps.begin(), gaps.begin() + std::min<size_t>(gaps.size(), N(1))); return "ok"; }
    if (c == "drop") { node.erase(N(1)); return who(); }
    if (c == "sub") { node[N(1)]->sub(std::weak_ptr<Subscriber<int>>(node[N(2)])); return who(); }
    if (c == "cancel") { node[N(1)]->cancel(std::weak_ptr<Subscriber<int>>(node[N(2)])); return who(); }
    if (c == "put") { node[N(1)]->put(N(2)); settle(); return who(); }
    if (c == "dump") {
        std::list<int> l = {-1};
        int n = node[N(1)]->dump(l, N(2));
        std::string r = std::to_string(n) + " " + std::to_string(node[N(1)]->size());
        for (int x : l) r += " " + std::to_string(x);
        return r;
    }
    if (c == "wait") {
        ++waiting;
        st_thread_create(waiter, new W{node[N(1)], N(2) ? (utime_t) N(2) * 1000 : (utime_t) -1, N(3)}, 0, 65536);
        settle();
        return who();
    }
    if (c == "tick") { now_us += N(1) * 1000ULL; settle(); return who(); }
    if (c == "make") { had[a[1]] = std::make_shared<H>(a[1]); return happened(); }
    if (c == "start") { return ICoFactory::get_instance().start(had[a[1]]) == SUCCESS ? happened() : "not started"; }
    if (c == "giveup") { had.erase(a[1]); return happened(); }
    if (c == "yield") { settle(); return happened(); }
    if (c == "finish") {
        if (!live.count(a[1])) return "is not running";
        live[a[1]]->go->signal();
        settle();
        return happened();
    }
    if (c == "end") {
        settle();
        while (!live.empty()) { live.begin()->second->go->signal(); settle(); }
        had.clear(); settle();
        std::string r = ids.empty() ? "ok" : "ids left";
        events.clear(); ids.clear();
        return r;
    }
    return "?";
}

int main() {
    st_set_utime_function(test_clock);
    st_init();
    line_loop(cmd);
    fflush(line_out);
    _exit(0);
}
