// The whole program prepare (C19): files of OpenStreetMap data in, CSV and OpenStreetMap files of the network out.
//   file name / text line...     an input file        items json     what is in the files, handed on
//   world json                   handed on            arg word       an argument of the program
//   prepare                      run it; then once more on what it exported
#include <set>
#include <array>
#include "mm2v.hpp"
#include <expat.h>
#include <filesystem>
#include <unistd.h>
using namespace mm2v;
namespace fs = std::filesystem;
namespace map_matching_2::app { int prepare(int argc, char *argv[]); }
namespace app = map_matching_2::app;
static long scaled(double x, bool degrees) {
    x *= degrees ? 1e6 : 1;
    return std::isfinite(x) && std::fabs(x) < 2e9 ? std::lround(x) : -999999999;
}
static std::vector<std::array<double, 2>> positions(const std::string &wkt) {
    std::vector<std::array<double, 2>> r;
    const auto a = wkt.find('('), b = wkt.rfind(')');
    if (a == std::string::npos || b == std::string::npos) return r;
    std::istringstream in{wkt.substr(a + 1, b - a - 1)};
    std::string part;
    while (std::getline(in, part, ',')) { std::istringstream p{part}; std::array<double, 2> q{1e300, 1e300}; p >> q[0] >> q[1]; r.push_back(q); }
    return r;
}
static std::vector<std::vector<std::string>> rows(const fs::path &p) {      // CSV after RFC 4180
    std::vector<std::vector<std::string>> r;
    std::ifstream in{p, std::ios::binary};
    std::vector<std::string> row{""};
    bool quoted = false;
    for (char c; in.get(c);) {
        if (quoted) { if (c != '"') row.back() += c; else if (in.peek() == '"') { in.get(c); row.back() += c; } else quoted = false; }
        else if (c == '"') quoted = true;
        else if (c == ',') row.emplace_back();
        else if (c == '\n') { r.push_back(row); row = {""}; }
        else if (c != '\r') row.back() += c;
    }
    if (row.size() > 1 || !row[0].empty()) r.push_back(row);
    return r;
}
static J tags(const std::string &s) {                                        // ['k':'v','k':'v']
    J a = J::arr();
    for (std::size_t i = 1; i + 1 < s.size();) {
        const auto e = s.find("':'", i), f = s.find('\'', e + 3);
        if (e == std::string::npos || f == std::string::npos) break;
        a.add(J::arr().add(s.substr(i + 1, e - i - 1)).add(s.substr(e + 3, f - e - 3)));
        i = f + 2;
    }
    return a;
}
static std::size_t column(const std::vector<std::vector<std::string>> &t, const char *name) {
    for (std::size_t i = 0; i < t[0].size(); ++i) if (t[0][i] == name) return i;
    throw std::runtime_error{std::string{"no column "} + name};
}
static J exported_csv(const fs::path &dir, bool degrees) {
    J ns = J::arr(), es = J::arr();
    const auto pt = [&](const auto &p) { return J::arr().add(scaled(p[0], degrees)).add(scaled(p[1], degrees)); };
    if (const auto t = rows(dir / "nodes.csv"); !t.empty())
        for (std::size_t i = 1; i < t.size(); ++i) {
            const auto g = positions(t[i].at(column(t, "geometry")));
            ns.add(J::obj().kv("id", std::stol(t[i].at(column(t, "id")))).kv("p", pt(g.at(0))).kv("tags", tags(t[i].at(column(t, "tags")))));
        }
    if (const auto t = rows(dir / "edges.csv"); !t.empty())
        for (std::size_t i = 1; i < t.size(); ++i) {
            J ls = J::arr();
            for (const auto &p : positions(t[i].at(column(t, "geometry")))) ls.add(pt(p));
            es.add(J::obj().kv("id", std::stol(t[i].at(column(t, "id")))).kv("ls", ls).kv("tags", tags(t[i].at(column(t, "tags")))));
        }
    return J::obj().kv("ns", ns).kv("es", es);
}
struct Osm { J ns = J::arr(), ws = J::arr(), refs = J::arr(), ts = J::arr(), at = J::arr(); long id = 0; };
static J exported_osm(const fs::path &p) {
    std::ifstream in{p, std::ios::binary};
    std::stringstream s; s << in.rdbuf();
    const std::string text = s.str();
    Osm o;
    XML_Parser x = XML_ParserCreate(nullptr);
    XML_SetUserData(x, &o);
    XML_SetElementHandler(x, [](void *u, const char *name, const char **a) {
        Osm &o = *static_cast<Osm *>(u);
        std::map<std::string, std::string> m;
        for (; *a; a += 2) m[a[0]] = a[1];
        const std::string n = name;
        if (n == "node" || n == "way") { o.id = std::stol(m.at("id")); o.refs = J::arr(); o.ts = J::arr(); }
        if (n == "node") {
            o.at = J::arr();
            if (m.count("lon") && m.count("lat")) o.at.add(scaled(std::stod(m["lon"]), true)).add(scaled(std::stod(m["lat"]), true));
            else o.at.add(-999999999).add(-999999999);
        }
        if (n == "nd") o.refs.add(std::stol(m.at("ref")));
        if (n == "tag") o.ts.add(J::arr().add(m.at("k")).add(m.at("v")));
    }, [](void *u, const char *name) {
        Osm &o = *static_cast<Osm *>(u);
        const std::string n = name;
        if (n == "node") o.ns.add(J::obj().kv("id", o.id).kv("p", o.at).kv("tags", o.ts));
        if (n == "way") o.ws.add(J::obj().kv("id", o.id).kv("refs", o.refs).kv("tags", o.ts));
    });
    const bool good = XML_Parse(x, text.data(), (int) text.size(), 1) == XML_STATUS_OK;
    XML_ParserFree(x);
    return J::obj().kv("good", good).kv("ns", o.ns).kv("ws", o.ws);
}
struct H : Handler {
    fs::path dir;
    std::vector<std::string> files, args;
    std::string items = "[]", world = "{}";
    void begin() override { files.clear(); args.clear(); items = "[]"; emit(J::obj().kv("op", "begin")); }
    void end() override { std::error_code ec; if (!dir.empty()) fs::remove_all(dir, ec); dir.clear(); }
    fs::path d() {
        if (dir.empty()) { dir = fs::current_path() / ("prep-" + std::to_string(::getpid())); fs::remove_all(dir); fs::create_directories(dir); }
        return dir;
    }
    std::string prepare(const fs::path &out, const std::vector<std::string> &files, const std::vector<std::string> &more) {
        std::vector<std::string> w{"map_matching_2", "--prepare"};
        for (const auto &f : files) { w.push_back("--file"); w.push_back(f); }
        w.insert(w.end(), {"--output", out.string(), "--quiet", "--export-nodes-csv-file", "nodes.csv", "--export-edges-csv-file", "edges.csv"});
        w.insert(w.end(), more.begin(), more.end());
        std::vector<char *> v;
        for (auto &s : w) v.push_back(s.data());
        v.push_back(nullptr);
        try { const int r = app::prepare((int) w.size(), v.data()); return r ? "returned " + std::to_string(r) : ""; } catch (const std::exception &x) { return x.what(); }
    }
    void line(const std::string &op, std::istringstream &in) override {
        std::string rest; std::getline(in, rest); if (!rest.empty()) rest.erase(0, 1);
        if (op == "file") { files.push_back((d() / (std::to_string(files.size()) + "." + rest)).string()); std::ofstream{files.back()}; }
        else if (op == "text") std::ofstream{files.back(), std::ios::app} << rest << "\n";
        else if (op == "items") items = rest;
        else if (op == "world") world = rest;
        else if (op == "arg") args.push_back(rest);
        else if (op == "prepare") {
            const bool degrees = rest != "metres";
            const auto one = d() / "one", two = d() / "two";
            auto a = args; a.insert(a.end(), {"--export-network-osm-file", "net.osm"});
            std::string failed = prepare(one, files, a), failed2;
            J csv = J::obj(), osm = J::obj(), csv2 = J::obj();
            std::set<std::string> names;
            if (failed.empty()) {
                for (const auto &f : fs::directory_iterator(one)) names.insert(f.path().filename().string());
                csv = exported_csv(one, degrees); osm = exported_osm(one / "net.osm");
                failed2 = prepare(two, {(one / "net.osm").string()}, {"--simplify", "none"});
                if (failed2.empty()) csv2 = exported_csv(two, true);
            }
            J fsn = J::arr(); for (const auto &n : names) fsn.add(n);
            J e = J::obj().kv("op", "prepared").kv("failed", failed).kv("failed2", failed2).kv("files", fsn).kv("csv", csv).kv("osm", osm).kv("again", csv2);
            e.sep(); e.s += "\"items\":" + items; e.sep(); e.s += "\"world\":" + world;
            emit(e);
            end(); files.clear(); args.clear();
        } else std::abort();
    }
};
int main(int argc, char **argv) {
    std::cout.rdbuf(nullptr);           // the program talks
    H h; return run(argc, argv, h); }
