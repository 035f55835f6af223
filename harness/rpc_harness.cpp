// Runs RPC configuration scripts and requests (one JSON object per input line) in the real client code.
// Environment and files are those of the line; $HOME and the session file lie in the scratch directory.
#include <sdfg/passes/rpc/daisytuner_rpc_context.h>
#include <sdfg/util/utils_curl.h>

#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <nlohmann/json.hpp>

using nlohmann::json;
using namespace sdfg::passes::rpc;
namespace fs = std::filesystem;

static std::string str(const json& chars) {
    std::string s;
    for (auto& c : chars) s += c.get<std::string>();
    return s;
}
static json chars(const std::string& s) {
    json a = json::array();
    for (size_t i = 0; i < s.size();) {
        size_t n = (unsigned char) s[i] < 0x80 ? 1 : (unsigned char) s[i] < 0xE0 ? 2 : (unsigned char) s[i] < 0xF0 ? 3 : 4;
        a.push_back(s.substr(i, n));
        i += n;
    }
    return a;
}
static json heads(const std::unordered_map<std::string, std::string>& h) {
    json a = json::array();
    for (auto& [k, v] : h) a.push_back({chars(k), chars(v)});
    return a;
}
static void var(const char* n, const json& opt) {
    if (opt.empty())
        unsetenv(n);
    else
        setenv(n, str(opt[0]).c_str(), 1);
}
static fs::path root;
static void file(const fs::path& p, const json& opt) {
    if (opt.empty()) {
        fs::remove(p);
    } else {
        fs::create_directories(p.parent_path());
        std::ofstream(p, std::ios::binary) << str(opt[0]);
    }
}
// the credentials' configuration
static void cfg(const json& c) {
    var("DOCC_JOB_TOKEN", c["job"]);
    var("DOCC_ACCESS_TOKEN", c["access"]);
    var("RPC_SERVER", c["rpcserver"]);
    if (c["home"].empty())
        unsetenv("HOME");
    else
        setenv("HOME", c["home"][0].empty() ? "" : (root / "home").c_str(), 1);
    file(root / "home/.config/docc/token", c["token"]);
    file(root / "session", c["session"]);
}

int main(int argc, char** argv) {
    root = argv[1];
    fs::create_directories(root / "home/.config/docc");
    curl_global_init(CURL_GLOBAL_ALL);
    std::string line;
    while (std::getline(std::cin, line)) {
        json q = json::parse(line), r;
        if (q["kind"] == "auth") {
            cfg(q["cfg"]);
            auto a = DaisytunerRpcContext::find_docc_auth();
            r["found"] = a.has_value();
            r["tok"] = a ? chars(a->first) : json::array();
            r["job"] = a ? a->second : false;
            json c = {{"thrown", false}, {"address", json::array()}, {"headers", json::array()}};
            try {
                auto x = q["how"] == 0 ? DaisytunerRpcContext::from_docc_config() : build_rpc_context_from_docc_config();
                c["address"] = chars(x->get_remote_address());
                c["headers"] = heads(x->get_auth_headers());
            } catch (std::exception&) {
                c["thrown"] = true;
            }
            r["ctx"] = c;
        } else if (q["kind"] == "steps") {
            SimpleRpcContextBuilder b;
            r["obs"] = json::array();
            bool thrown = false;
            for (auto& s : q["steps"]) {
                std::string op = s["op"];
                fs::path f = root / "cfg.json";
                if (op == "file" || op == "env") {
                    fs::remove(f);
                    if (s.contains("text")) std::ofstream(f, std::ios::binary) << s["text"].get<std::string>();
                }
                SimpleRpcContextBuilder* back = &b;
                try {
                    if (op == "local") {
                        back = &b.initialize_local_default();
                    } else if (op == "file") {
                        back = &b.from_file(f);
                    } else if (op == "env") {
                        std::string n = s.value("name", "SDFG_RPC_CONFIG");
                        for (auto x : {"SDFG_RPC_CONFIG", "OTHER_CONFIG"}) unsetenv(x);
                        if (s["var"].get<bool>()) setenv(n.c_str(), f.c_str(), 1);
                        if (s.value("empty", false)) setenv(n.c_str(), "", 1);
                        back = n == "SDFG_RPC_CONFIG" ? &b.from_env() : &b.from_env(n);
                    } else if (op == "henv") {
                        std::string n = s.value("envname", "RPC_HEADER");
                        for (auto x : {"RPC_HEADER", "OTHER_HEADER"}) unsetenv(x);
                        var(n.c_str(), s["val"]);
                        back = n == "RPC_HEADER" ? &b.from_header_env() : &b.from_header_env(n);
                    } else if (op == "header") {
                        back = &b.add_header(str(s["name"]), str(s["value"]));
                    } else if (op == "docc") {
                        cfg(s["cfg"]);
                        back = &b.from_docc_config();
                    }
                } catch (std::exception&) {
                    thrown = true;
                }
                if (back != &b) return 8;
                r["obs"].push_back({{"thrown", thrown}, {"server", chars(b.server)}, {"endpoint", chars(b.endpoint)},
                                    {"headers", heads(b.headers)}});
                if (thrown) break;
            }
            json c = {{"thrown", false}, {"address", json::array()}, {"headers", json::array()}};
            try {
                auto x = b.build(q.value("print", false));
                c["address"] = chars(x->get_remote_address());
                c["headers"] = heads(x->get_auth_headers());
            } catch (std::exception&) {
                c["thrown"] = true;
            }
            r["built"] = c;
        } else {
            CURL* h = curl_easy_init();
            curl_easy_setopt(h, CURLOPT_TIMEOUT_MS, (long) q.value("timeout", 20000));
            curl_easy_setopt(h, CURLOPT_NOPROXY, "*");
            struct curl_slist* l = nullptr;
            for (auto& x : q["headers"]) l = curl_slist_append(l, x.get<std::string>().c_str());
            auto res = post_json(h, q["url"], q["payload"].get<std::string>(), l);
            r["curl"] = (int) res.curl_code;
            r["status"] = res.curl_code == CURLE_OK ? res.http_status : 0;
            r["body"] = res.body;
            r["message"] = res.error_message;
            curl_slist_free_all(l);
            curl_easy_cleanup(h);
        }
        puts(r.dump(-1, ' ', true, json::error_handler_t::replace).c_str());
        fflush(stdout);
    }
}
