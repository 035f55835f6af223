// Replays scripts of instrumentation calls (one JSON object per line) in forked children and prints what came of them.
#include <daisy_rtl/daisy_rtl.h>
#include <nlohmann/json.hpp>
#include <condition_variable>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <random>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <pthread.h>
#include <sched.h>
#include <cmath>
using json = nlohmann::json;

static void (*fp_log)(const char*); static void (*fp_set)(long long, long long); static long long (*fp_op)(int);
static void (*fp_ret)(long long); static void (*fp_tick)(long long); static void (*fp_addwork)(long long);
static void (**fp_yield)();

// scheduling points at lock operations, for the concurrent runs
static thread_local unsigned rng = 1;
static std::atomic<bool> chaos{false};
static thread_local bool in_yield = false;
static void yield_point() {
    if (!chaos.load(std::memory_order_relaxed) || in_yield) return;
    in_yield = true;
    rng = rng * 1664525u + 1013904223u;
    unsigned k = (rng >> 24) & 15;
    if (k < 6) sched_yield();
    else if (k < 8) usleep((rng >> 16) & 63);
    in_yield = false;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
    static auto real = (int (*)(pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_mutex_lock");
    return real(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
    static auto real = (int (*)(pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real(m);
    yield_point();
    return r;
}

static std::deque<std::string> store;
static std::mutex store_m;
static const char* str(const json& j) {
    if (j.is_null()) return nullptr;
    std::lock_guard<std::mutex> l(store_m);
    store.push_back(j.get<std::string>());
    return store.back().c_str();
}
struct Worker {
    std::mutex m; std::condition_variable cv; std::function<void()> job; bool has = false, stop = false; std::thread th;
    Worker() : th([this] { run(); }) {}
    void run() {
        std::unique_lock<std::mutex> l(m);
        for (;;) {
            cv.wait(l, [this] { return has || stop; });
            if (stop) return;
            job(); has = false; cv.notify_all();
        }
    }
    void exec(std::function<void()> f) {
        std::unique_lock<std::mutex> l(m);
        job = f; has = true; cv.notify_all();
        cv.wait(l, [this] { return !has; });
    }
    ~Worker() { { std::lock_guard<std::mutex> l(m); stop = true; } cv.notify_all(); th.join(); }
};

static size_t do_init(const json& r) {
    __daisy_metadata_t* md = (__daisy_metadata_t*) calloc(1, sizeof(*md));
    md->file_name = str(r["file_name"]); md->function_name = str(r["function_name"]);
    md->line_begin = r["line_begin"]; md->line_end = r["line_end"];
    md->column_begin = r["column_begin"]; md->column_end = r["column_end"];
    md->sdfg_name = str(r["sdfg_name"]); md->sdfg_file = str(r["sdfg_file"]);
    md->arg_capture_path = str(r["arg_capture_path"]); md->features_file = str(r["features_file"]);
    md->opt_report_file = str(r["opt_report_file"]);
    md->element_id = r["element_id"]; md->element_type = str(r["element_type"]); md->target_type = str(r["target_type"]);
    md->loopnest_index = r["loopnest_index"]; md->num_loops = r["num_loops"]; md->num_maps = r["num_maps"];
    md->num_fors = r["num_fors"]; md->num_whiles = r["num_whiles"]; md->max_depth = r["max_depth"];
    md->is_perfectly_nested = r["is_perfectly_nested"]; md->is_perfectly_parallel = r["is_perfectly_parallel"];
    md->is_elementwise = r["is_elementwise"]; md->has_side_effects = r["has_side_effects"];
    md->region_uuid = str(r["uuid"]);
    size_t id = __daisy_instrumentation_init(md, (enum __daisy_event_set) r["kind"].get<int>());
    memset(md, 0xA5, sizeof(*md)); // the generated code's descriptor lives on the stack
    free(md);
    return id;
}
static double num(const json& v) {
    if (v.is_string()) { std::string s = v; return s == "nan" ? NAN : s == "inf" ? INFINITY : -INFINITY; }
    return v.get<double>();
}
static size_t call(const json& o, const json& regions, std::map<int, size_t>& ids, std::mutex* im = nullptr) {
    std::string op = o["op"]; int u = o["u"];
    size_t id = 0;
    if (op == "init") {
        id = do_init(regions[u - 1]);
        std::unique_lock<std::mutex> l; if (im) l = std::unique_lock<std::mutex>(*im);
        ids[u] = id; return id;
    }
    if (op == "bulkpair") {
        for (int k = 0; k < o["k"].get<int>(); k++) {
            id = do_init(regions[u - 1]);
            __daisy_instrumentation_enter(id); __daisy_instrumentation_exit(id); __daisy_instrumentation_finalize(id);
        }
        return id;
    }
    { std::unique_lock<std::mutex> l; if (im) l = std::unique_lock<std::mutex>(*im); id = ids[u]; }
    if (op == "bulkinc") {
        std::string n = o["name"]; long long v = o["val"];
        for (int k = 0; k < o["k"].get<int>(); k++) __daisy_instrumentation_increment(id, n.c_str(), v);
        return id;
    }
    if (op == "enter") __daisy_instrumentation_enter(id);
    else if (op == "exit") __daisy_instrumentation_exit(id);
    else if (op == "fin") __daisy_instrumentation_finalize(id);
    else if (op == "met") { std::string n = o["name"]; __daisy_instrumentation_metric(id, n.c_str(), num(o["val"])); }
    else if (op == "inc") { std::string n = o["name"]; __daisy_instrumentation_increment(id, n.c_str(), o["val"].get<long long>()); }
    return id;
}

static void child(const json& s, const char* papi) {
    setenv("DAISY_PAPI_PATH", papi, 1);
    setenv("__DAISY_PAPI_VERSION", "0x07000000", 1);
    unsetenv("__DAISY_INSTRUMENTATION_MODE");
    if (!s["mode"].is_null()) setenv("__DAISY_INSTRUMENTATION_MODE", s["mode"].get<std::string>().c_str(), 1);
    setenv("__DAISY_INSTRUMENTATION_FILE", s["out"].get<std::string>().c_str(), 1);
    unsetenv("__DAISY_INSTRUMENTATION_EVENTS"); unsetenv("__DAISY_INSTRUMENTATION_EVENTS_CUDA");
    if (!s["cpu"].is_null()) setenv("__DAISY_INSTRUMENTATION_EVENTS", s["cpu"].get<std::string>().c_str(), 1);
    if (!s["cuda"].is_null()) setenv("__DAISY_INSTRUMENTATION_EVENTS_CUDA", s["cuda"].get<std::string>().c_str(), 1);
    fp_log(s["log"].get<std::string>().c_str());
    const json& regions = s["regions"];
    static std::map<int, size_t> ids;
    if (s.contains("threads")) { // concurrent programs: one list of calls per thread
        static std::mutex im;
        fp_tick(1); fp_set(s.value("base", 0LL), 0); *fp_yield = yield_point; chaos = s.value("chaos", true);
        const json& ths = s["threads"];
        pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, ths.size());
        std::vector<std::thread> v;
        for (size_t t = 0; t < ths.size(); t++) v.emplace_back([&, t] {
            rng = s.value("seed", 1u) * 7919u + t * 104729u + 1; pthread_barrier_wait(&bar);
            for (auto& o : ths[t]) {
                fp_op(o["i"]); size_t id = call(o, regions, ids, &im); fp_ret(id);
            }
        });
        for (auto& t : v) t.join();
        chaos = false;
    } else {
        std::map<int, std::unique_ptr<Worker>> ws;
        long long base = s.value("base", 0LL);
        int i = 0;
        for (auto& o : s["ops"]) {
            i++;
            fp_set((o["c"].get<long long>() + base) * 1000, o["w"].get<long long>());
            int t = o["t"];
            auto f = [&] { fp_op(i); size_t id = call(o, regions, ids); fp_ret(id); };
            if (t == 0) f();
            else { auto& w = ws[t]; if (!w) w = std::make_unique<Worker>(); w->exec(f); }
        }
        ws.clear();
    }
    fp_op(0); // everything from here on belongs to the end of the program
    exit(0);
}

int main(int argc, char** argv) {
    const char* papi = argv[1];
    void* h = dlopen(papi, RTLD_NOW | RTLD_GLOBAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    auto g = [&](const char* n) { void* p = dlsym(h, n); if (!p) { fprintf(stderr, "no %s\n", n); exit(3); } return p; };
    fp_log = (decltype(fp_log)) g("fp_log"); fp_set = (decltype(fp_set)) g("fp_set"); fp_op = (decltype(fp_op)) g("fp_op");
    fp_ret = (decltype(fp_ret)) g("fp_ret"); fp_tick = (decltype(fp_tick)) g("fp_tick");
    fp_addwork = (decltype(fp_addwork)) g("fp_addwork"); fp_yield = (void (**)()) g("fp_yield");
    std::string line;
    while (std::getline(std::cin, line)) {
        json s = json::parse(line);
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) { 
            if (!freopen("/dev/null", "w", stderr)) {}
            if (!freopen("/dev/null", "w", stdout)) {}
            alarm(s.value("timeout", 20)); child(s, papi); }
        int st = 0; waitpid(p, &st, 0);
        printf("%d\n", st); fflush(stdout);
    }
}
