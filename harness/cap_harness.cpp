// Executes scripts of capture calls (one JSON array per input line) in the real runtime.
// A script runs in a forked child; after every call the capture directories are projected.
#include <daisy_rtl/arg_capture_io.h>
#include <daisy_rtl/daisy_rtl.h>

#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <nlohmann/json.hpp>
#include <set>
#include <sstream>

using nlohmann::json;
namespace fs = std::filesystem;

static uint8_t pat(int tag, size_t i) { return (uint8_t) (tag * 37 + i * 11 + (i >> 8) * 5); }

// content as {len, tag}: tag -1 if the bytes are not those of a pattern
static json content(const std::string& b) {
    int tag = -1;
    for (int t = 0; t < 256 && tag < 0; t++) {
        bool ok = true;
        for (size_t i = 0; i < b.size() && ok; i++) ok = (uint8_t) b[i] == pat(t, i);
        if (ok) tag = t;
    }
    if (b.empty()) tag = 0;
    return {{"len", b.size()}, {"tag", tag}};
}
static std::string slurp(const fs::path& p, bool& ok) {
    std::ifstream f(p, std::ios::binary);
    ok = f.good();
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}

// all loadable indices below root, with the data they name resolved
static json project(const fs::path& root) {
    json idx = json::array();
    int nfiles = 0;
    int unloadable = 0;
    std::vector<fs::path> ps;
    if (fs::exists(root))
        for (auto& e : fs::recursive_directory_iterator(root))
            if (e.is_regular_file()) ps.push_back(e.path());
    std::sort(ps.begin(), ps.end());
    for (auto& p : ps) {
        nfiles++;
        std::string n = p.filename().string();
        const std::string suf = ".index.json";
        if (n.size() < suf.size() || n.compare(n.size() - suf.size(), suf.size(), suf)) continue;
        bool ok;
        std::string txt = slurp(p, ok);
        json j;
        try {
            j = json::parse(txt);
            json e;
            e["dir"] = fs::relative(p.parent_path(), root).string();
            e["name"] = j.at("target").get<std::string>();
            e["el"] = j.at("element_id").get<std::string>();
            e["inv"] = j.at("invocation").get<int>();
            e["fmt"] = j.at("format").get<int>();
            e["caps"] = json::array();
            for (auto& c : j.at("captures")) {
                json q;
                q["arg"] = c.at("arg_idx").get<int>();
                q["after"] = c.at("after").get<bool>();
                q["type"] = c.at("primitive_type").get<int>();
                q["dims"] = c.at("dims");
                if (c.contains("data")) {
                    auto v = base64_decode(c["data"].get<std::string>());
                    q["val"] = content(std::string(v.begin(), v.end()));
                } else {
                    bool k;
                    std::string b = slurp(p.parent_path() / c.at("ext_file").get<std::string>(), k);
                    q["val"] = k ? content(b) : json{{"len", -1}, {"tag", -1}};
                }
                e["caps"].push_back(q);
            }
            idx.push_back(e);
        } catch (...) {
            unloadable++;
        }
    }
    return {{"idx", idx}, {"files", nfiles}, {"bad", unloadable}};
}

static void setor(const char* k, const json& v, const std::string& prefix) {
    if (v.is_null() || v.get<std::string>() == "unset")
        unsetenv(k);
    else
        setenv(k, (prefix + v.get<std::string>()).c_str(), 1);
}

static void run(const json& script, const fs::path& root, bool project_each, FILE* out) {
    std::map<int, __daisy_capture_t*> ctx;
    for (auto& op : script) {
        json r = op;
        std::string o = op.at("op");
        r["thrown"] = false;
        try {
            if (o == "init") {
                setor("__DAISY_CAPTURE_STRATEGY_DEFAULT", op.at("strat"), "");
                setor("__DAISY_CAPTURE_BASE_DIR", op.at("env"), root.string() + "/");
                std::string d = op.at("dir");
                std::string full = root.string() + "/" + d;
                ctx[op.at("c")] =
                    __daisy_capture_init(op.at("name").get<std::string>().c_str(), d == "unset" ? nullptr : full.c_str());
                r["ret"] = ctx[op.at("c")] != nullptr;
            } else if (o == "enter") {
                r["ret"] = __daisy_capture_enter(ctx.at(op.at("c")), std::stoull(op.at("el").get<std::string>()));
            } else if (o == "cap") {
                std::vector<size_t> dims = op.at("dims");
                size_t n = 1;
                for (auto d : dims) n *= d;
                std::vector<uint8_t> b(n + 1);
                for (size_t i = 0; i < n; i++) b[i] = pat(op.at("tag"), i);
                auto* c = ctx.at(op.at("c"));
                int arg = op.at("arg"), ty = op.at("type");
                bool after = op.at("after");
                size_t el = std::stoull(op.at("el").get<std::string>());
                switch (dims.size()) {
                    case 1: __daisy_capture_raw(c, arg, b.data(), dims[0], ty, after, el); break;
                    case 2: __daisy_capture_1d(c, arg, b.data(), dims[0], ty, dims[1], after, el); break;
                    case 3: __daisy_capture_2d(c, arg, b.data(), dims[0], ty, dims[1], dims[2], after, el); break;
                    case 4: __daisy_capture_3d(c, arg, b.data(), dims[0], ty, dims[1], dims[2], dims[3], after, el); break;
                }
                memset(b.data(), 0xEE, b.size());
            } else if (o == "end") {
                __daisy_capture_end(ctx.at(op.at("c")));
            }
        } catch (std::exception& e) {
            r["thrown"] = true;
        }
        if (project_each && (script.size() <= 60 || &op == &script.back())) r["disk"] = project(root);
        std::string s = r.dump() + "\n";
        fputs(s.c_str(), out);
        fflush(out);
        if (r["thrown"] && !project_each) return;
    }
}

// usage: cap_harness SCRATCH [nodisk]   (scripts on stdin, one per line)
// prints per script a line {"ops":[...],"crashed":bool,"final":{...}}
int main(int argc, char** argv) {
    fs::path scratch = argv[1];
    bool each = argc < 3;
    std::string line;
    int k = 0;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        json script = json::parse(line);
        std::string fault;
        if (script.is_object()) {
            fault = script["fault"];
            script = script["ops"];
        }
        fs::path root = scratch / ("s" + std::to_string(k++));
        fs::create_directories(root);
        std::string logp = (scratch / ("log" + std::to_string(k))).string();
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            int devnull = open("/dev/null", O_WRONLY);
            dup2(devnull, 1);
            dup2(devnull, 2);
            if (chdir(root.c_str())) _exit(9);
            FILE* out = fopen(logp.c_str(), "w");
            if (!fault.empty()) {
                setenv("VRF_FAULT_ROOT", (root.string() + "/").c_str(), 1);
                setenv("VRF_FAULT_LOG", (logp + ".io").c_str(), 1);
                setenv("VRF_FAULT_ON", fault.c_str(), 1);
            }
            run(script, root, each, out);
            unsetenv("VRF_FAULT_ON");
            fclose(out);
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        json rec;
        rec["ops"] = json::array();
        std::ifstream in(logp);
        std::string l;
        while (std::getline(in, l)) {
            try {
                rec["ops"].push_back(json::parse(l));
            } catch (...) {
            }
        }
        in.close();
        rec["io"] = json::array();
        {
            std::ifstream q(logp + ".io");
            while (std::getline(q, l)) {
                auto sp = l.find(' ');
                std::string what = l.substr(0, sp), path = l.substr(sp + 1);
                rec["io"].push_back({what, path.rfind(root.string(), 0) == 0 ? path.substr(root.string().size()) : path});
            }
        }
        fs::remove(logp + ".io");
        rec["status"] = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
        rec["final"] = project(root);
        puts(rec.dump().c_str());
        fs::remove_all(root);
        fs::remove(logp);
    }
}
