// Writes capture indices through ArgCaptureIO, loads them back, and tries to load damaged ones.
#include <daisy_rtl/arg_capture_io.h>

#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <functional>
#include <sstream>

using nlohmann::json;
using namespace arg_capture;
namespace fs = std::filesystem;

static json bytes(const std::vector<uint8_t>& v) {
    json a = json::array();
    for (auto b : v) a.push_back((int) b);
    return a;
}
static json codes(const std::string& s) {
    json a = json::array();
    for (unsigned char c : s) a.push_back((int) c);
    return a;
}

// "loaded", "refused" (an exception) or "crash"
static std::string attempt(std::function<void()> f) {
    pid_t p = fork();
    if (!p) {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        dup2(n, 2);
        try {
            f();
        } catch (std::exception&) {
            _exit(3);
        }
        _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (WIFEXITED(st)) return WEXITSTATUS(st) == 3 ? "refused" : "loaded";
    return "crash";
}

int main(int argc, char** argv) {
    fs::path root = argv[1];
    int out = dup(1);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);  // the library prints debug output to stdout
    FILE* fo = fdopen(out, "w");
    std::string line;
    int k = 0;
    while (std::getline(std::cin, line)) {
        json in = json::parse(line);
        fs::path d = root / ("c" + std::to_string(k++));
        fs::create_directories(d);
        json rec;
        rec["w"] = in;
        rec["text"] = json::array();
        rec["damage"] = json::array();
        try {
            std::string name = in["name"], el = in["el"];
            ArgCaptureIO io(name.c_str());
            for (int i = 0; i <= in["inv"].get<int>(); i++) io.invocation(el);
            for (auto& c : in["caps"]) {
                std::vector<uint8_t> b;
                for (auto& x : c["bytes"]) b.push_back(x.get<int>());
                std::vector<size_t> dims = c["dims"];
                uint8_t dummy = 0;
                const void* p = b.empty() ? &dummy : b.data();
                if (c["kind"] == "inline") {
                    io.create_and_capture_inline(c["arg"], c["after"], c["type"], dims, p, el);
                } else {
                    fs::path f = d / c["file"].get<std::string>();
                    io.create_and_capture_to_file(c["arg"], c["after"], c["type"], dims, f, p, el);
                }
            }
            io.write_index(d);
            fs::path ix;
            for (auto& e : fs::recursive_directory_iterator(d))
                if (e.path().string().ends_with(".index.json")) ix = e.path();
            std::ifstream ifs(ix);
            std::ostringstream o;
            o << ifs.rdbuf();
            std::string txt = o.str();
            auto l = ArgCaptureIO::from_index(ix);
            json L;
            L["name"] = l->get_name();
            L["caps"] = json::array();
            L["els"] = json::array();
            for (auto& [e, m] : l->get_captures()) {
                L["els"].push_back(e);
                L["inv"] = l->get_current_invocation(e);
                for (auto& [key, c] : m) {
                    json q;
                    q["arg"] = c.arg_idx;
                    q["after"] = c.after;
                    q["keyok"] = key.first == c.arg_idx && key.second == c.after;
                    q["type"] = c.primitive_type;
                    q["dims"] = c.dims;
                    q["kind"] = c.data ? "inline" : c.ext_file ? "file" : "none";
                    q["file"] = c.ext_file ? fs::relative(*c.ext_file, d).string() : std::string("");
                    std::vector<uint8_t> b;
                    if (c.data)
                        b = *c.data;
                    else if (c.ext_file) {
                        b.resize(fs::file_size(*c.ext_file));
                        ArgCaptureIO::read_data_from_raw_file(*c.ext_file, b.data(), b.size());
                    }
                    q["bytes"] = bytes(b);
                    L["caps"].push_back(q);
                }
            }
            rec["l"] = L;
            json j = json::parse(txt);
            for (auto& c : j["captures"])
                if (c.contains("data"))
                    rec["text"].push_back(
                        {{"arg", c["arg_idx"]}, {"after", c["after"]}, {"codes", codes(c["data"].get<std::string>())}});
            if (in.value("damage", false)) {
                fs::path q = d / "damaged.index.json";
                auto tryit = [&](const std::string& what, const std::string& t) {
                    {
                        std::ofstream w(q);
                        w << t;
                    }
                    rec["damage"].push_back({what, attempt([&] { ArgCaptureIO::from_index(q); })});
                };
                for (size_t i = 0; i < txt.size(); i += 1 + txt.size() / 40) tryit("prefix", txt.substr(0, i));
                for (int v : {0, 2, 256, 65537}) {
                    json x = j;
                    x["format"] = v;
                    tryit("version", x.dump());
                }
                for (auto* key : {"format", "target", "invocation", "element_id", "captures"}) {
                    json x = j;
                    x.erase(key);
                    tryit(std::string("without ") + key, x.dump());
                    x = j;
                    x[key] = std::string(key) == "captures" || std::string(key) == "target" || std::string(key) == "element_id"
                                 ? json(true) : json("x");
                    tryit(std::string("mistyped ") + key, x.dump());
                }
                if (!j["captures"].empty())
                    for (auto* key : {"arg_idx", "after", "primitive_type", "dims"}) {
                        json x = j;
                        x["captures"][0].erase(key);
                        tryit(std::string("entry without ") + key, x.dump());
                        x = j;
                        x["captures"][0][key] = "x";
                        tryit(std::string("entry mistyped ") + key, x.dump());
                    }
                tryit("control", txt);
                fs::remove(q);
                rec["damage"].push_back({"missing", attempt([&] { ArgCaptureIO::from_index(q); })});
                fs::path raw = d / "raw.bin";
                {
                    std::ofstream w(raw);
                    w << "abc";
                }
                char buf[16];
                rec["damage"].push_back({"short data", attempt([&] { ArgCaptureIO::read_data_from_raw_file(raw, buf, 8); })});
                rec["damage"].push_back({"data control", attempt([&] { ArgCaptureIO::read_data_from_raw_file(raw, buf, 3); })});
            }
            rec["ok"] = true;
        } catch (std::exception& e) {
            rec["ok"] = false;
            rec["error"] = e.what();
        }
        fprintf(fo, "%s\n", rec.dump().c_str());
        fflush(fo);
        fs::remove_all(d);
    }
}
