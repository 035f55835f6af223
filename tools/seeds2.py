from seedlib import *
D = "rpc/src/passes/rpc/daisytuner_rpc_context.cpp"
B = "rpc/src/passes/rpc/rpc_context.cpp"
U = "rpc/src/util/utils_curl.cpp"
PRE = r'''
#include <sdfg/passes/rpc/daisytuner_rpc_context.h>
#include <sdfg/util/utils_curl.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <thread>
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>
using namespace sdfg::passes::rpc;
static int bad = 0;
#define EXPECT(x) do { if (!(x)) { printf("FAILED: %s\n", #x); bad = 1; } } while (0)
static void put(const std::string& f, const std::string& t) { std::ofstream(f, std::ios::binary) << t; }
// one request answered with the given bytes
static HttpResult ask(const std::string& raw) {
    int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bind(s, (sockaddr*) &a, sizeof a); listen(s, 4); socklen_t l = sizeof a; getsockname(s, (sockaddr*) &a, &l);
    std::thread t([&] { int c = accept(s, 0, 0); char b[4096]; std::string in;
        while (in.find("\r\n\r\n{}") == std::string::npos) { ssize_t k = read(c, b, sizeof b); if (k <= 0) break; in.append(b, k); }
        (void) !write(c, raw.data(), raw.size()); shutdown(c, SHUT_WR); while (read(c, b, sizeof b) > 0); close(c); });
    CURL* h = curl_easy_init(); curl_easy_setopt(h, CURLOPT_TIMEOUT, 20L);
    auto r = post_json(h, "http://127.0.0.1:" + std::to_string(ntohs(a.sin_port)) + "/x", "{}");
    curl_easy_cleanup(h); t.join(); close(s); return r;
}
'''
T = r'''        if (infile) {
            std::ostringstream ss;
            ss << infile.rdbuf();
            std::string token = ss.str();
'''
write("N01-first-line", "N01", [(D, T, r'''        if (infile) {
            std::string token;
            std::getline(infile, token);
''')], "a token file that starts with an empty line or has several lines", "only the first line of the token file is used", RPC,
{"demo.cpp": PRE + r'''
int main() { std::string f = std::string(getenv("HOME")) + "/.config/docc/token";
    put(f, "one\ntwo\n \n"); auto a = DaisytunerRpcContext::find_docc_auth(); EXPECT(a && a->first == "one\ntwo" && !a->second);
    put(f, "solo \r\n"); a = DaisytunerRpcContext::find_docc_auth(); EXPECT(a && a->first == "solo");
    return bad; }'''})
write("N01-empty-shadows", "N01", [(D, "    if (env_token && *env_token) {", "    if (env_token) {")],
"the access token variable set but empty, with a token file present", "the empty variable shadows the token file", RPC,
{"demo.cpp": PRE + r'''
int main() { put(std::string(getenv("HOME")) + "/.config/docc/token", "tok\n"); setenv("DOCC_ACCESS_TOKEN", "", 1);
    auto a = DaisytunerRpcContext::find_docc_auth(); EXPECT(a && a->first == "tok"); return bad; }'''})
write("N02-headers-replaced", "N02", [(B, '''        for (auto& [key, value] : headersJ->items()) {
            if (value.is_string()) {
                headers[key] = value.get<std::string>();
            }
        }''', '''        std::unordered_map<std::string, std::string> configured;
        for (auto& [key, value] : headersJ->items()) {
            if (value.is_string()) {
                configured.emplace(key, value.get<std::string>());
            }
        }
        headers.swap(configured);''')], "a configuration file with headers after another step has set a header", "headers of earlier steps are lost", RPC,
{"demo.cpp": PRE + r'''
int main() { put("c.json", R"({"SERVER": "http://s", "HEADERS": {"A": "1", "H": "file"}})");
    SimpleRpcContextBuilder b; b.add_header("H", "mine").add_header("Z", "kept").from_file("c.json");
    EXPECT(b.headers.size() == 3); EXPECT(b.headers["Z"] == "kept"); EXPECT(b.headers["H"] == "file"); EXPECT(b.headers["A"] == "1");
    return bad; }'''})
write("N02-last-colon", "N02", [(B, "auto idx = headerOverride.find_first_of(':');", "auto idx = headerOverride.find_last_of(':');")],
"a header variable whose value contains a colon", "header name and value are split at the wrong place", RPC,
{"demo.cpp": PRE + r'''
int main() { setenv("RPC_HEADER", "X-Url:http://a:1", 1); SimpleRpcContextBuilder b; b.from_header_env();
    EXPECT(b.headers.size() == 1); EXPECT(b.headers["X-Url"] == "http://a:1"); return bad; }'''})
write("N03-partial", "N03", [(U, '''    if (result.curl_code != CURLE_OK) {''', '''    // Servers behind proxies sometimes announce a larger body than they send
    if (result.curl_code == CURLE_PARTIAL_FILE && !result.body.empty()) {
        result.curl_code = CURLE_OK;
    }

    if (result.curl_code != CURLE_OK) {''')], "a response cut off after part of its body has arrived", "the truncated response is reported as success", RPC,
{"demo.cpp": PRE + r'''
int main() { auto r = ask("HTTP/1.1 200 OK\r\nContent-Length: 10\r\n\r\n{\"a\""); EXPECT(r.curl_code != CURLE_OK); EXPECT(!r.error_message.empty());
    r = ask("HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n{}"); EXPECT(r.curl_code == CURLE_OK && r.error_message.empty() && r.http_status == 200 && r.body == "{}"); return bad; }'''})
write("N03-any-2xx", "N03", [(U, "result.http_status >= 204) {", "result.http_status >= 300) {")],
"a response with status 204 to 299", "a response without usable content is reported as success", RPC,
{"demo.cpp": PRE + r'''
int main() { auto r = ask("HTTP/1.1 206 Partial\r\nContent-Length: 2\r\n\r\n{}"); EXPECT(!r.error_message.empty());
    r = ask("HTTP/1.1 203 OK\r\nContent-Length: 2\r\n\r\n{}"); EXPECT(r.error_message.empty()); return bad; }'''})
