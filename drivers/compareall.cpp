// Drives the whole comparison program: ground truths and matches by id, several threads, the written CSV (C12).
// script: set .. ; ign 0|1 ; threads n ; gt id n (k x y ..).. ; match id n (k x y ..).. (in the order they are read) ; go 0|1 (1: destroyed without stopping)
#include "mm2v.hpp"
#include "pausing_queue.hpp"
#include <filesystem>
#include <sstream>
#include <unistd.h>
#include "compare/comparator.hpp"
#include "compare/comparator/comparator_forwarder_data.hpp"
#include "compare/comparator/comparator_forwarder_matches.hpp"
#include "compare/comparator/comparator_forwarder_compares.hpp"
using namespace mm2v;
namespace mm = map_matching_2;
using namespace map_matching_2::geometry;
using pt = point_type<cs_cartesian>;
using Pts = std::vector<std::pair<long, long>>;
using Track = mm::geometry::track::multi_track_type<pt>;
constexpr double unit = 10;
struct H : Handler {
    double s[5] = {.1, .1, .1, 1, 90};
    bool ign = false; unsigned threads = 1;
    struct In { bool truth; std::string id; std::vector<Pts> ls; };
    std::vector<In> ins;
    void begin() override {
        emit(J::obj().kv("op", "begin"));
        ins.clear(); ign = false; threads = 1;
        double d[5] = {.1, .1, .1, 1, 90}; std::copy(d, d + 5, s);
    }
    static J js(const std::vector<Pts> &v) {
        J a = J::arr();
        for (auto &l : v) { J b = J::arr(); for (auto &p : l) b.add(J::arr().add(p.first).add(p.second)); a.add(b); }
        return a;
    }
    static std::vector<std::vector<std::string>> csv(const std::string &file) {
        std::ifstream f(file, std::ios::binary);
        std::vector<std::vector<std::string>> r; std::vector<std::string> row; std::string x; bool q = false; char c;
        while (f.get(c)) {
            if (q) { if (c == '"') { if (f.peek() == '"') { f.get(c); x += c; } else q = false; } else x += c; }
            else if (c == '"') q = true;
            else if (c == ',') { row.push_back(x); x.clear(); }
            else if (c == '\n') { row.push_back(x); x.clear(); r.push_back(row); row.clear(); }
            else x += c;
        }
        if (!x.empty() || !row.empty()) { row.push_back(x); r.push_back(row); }
        return r;
    }
    static std::vector<Pts> wkt(const std::string &w) {      // MULTILINESTRING((x y,x y),(..)) or LINESTRING(x y,x y)
        std::vector<Pts> r; int depth = 0; const int in_line = w.rfind("MULTI", 0) == 0 ? 2 : 1; std::string x;
        for (char c : w) {
            if (c == '(') { ++depth; x.clear(); }
            else if (c == ')') {
                if (depth-- == in_line) {
                    for (char &d : x) if (d == ',') d = ' ';
                    std::istringstream in(x); double a, b; Pts p;
                    while (in >> a >> b) p.emplace_back(std::lround(a / unit), std::lround(b / unit));
                    if (!p.empty()) r.push_back(p);
                }
            } else x += c;
        }
        return r;
    }
    void go(int how) {
        std::string file = "cmpall-" + std::to_string(::getpid()) + ".csv";
        {
            mm::compare::comparator c{{file, "id,match,ground_truth,match_length,ground_truth_length,correct_fraction,error_fraction,"
                                            "correct,error_added,error_missed,corrects,error_adds,error_misses,duration", false, false}, threads};
            c.start();
            mm::compare::settings st;
            st.simplifying_tolerance = s[0]; st.simplifying_reverse_tolerance = s[1]; st.adoption_distance_tolerance = s[2];
            st.split_distance_tolerance = s[3]; st.split_direction_tolerance = s[4]; st.ignore_non_existent = ign;
            mm::compare::comparator_forwarder_data data{c, st};
            mm::compare::comparator_forwarder_compares truths{data};
            mm::compare::comparator_forwarder_matches matches{data};
            for (auto &i : ins) {
                Track::multi_line_type ml;
                for (auto &l : i.ls) { Track::line_type r; for (auto &p : l) r.push_back(pt{p.first * unit, p.second * unit}); ml.push_back(r); }
                Track t{i.id, ml};
                if (i.truth) truths.pass(std::move(t)); else matches.pass(std::move(t));
            }
            data.finish();
            if (how == 0) { c.stop(); c.join(); }      // else just destroyed
        }
        auto rows = csv(file);
        std::error_code ec; std::filesystem::remove(file, ec);
        auto num = [](const std::string &x, double u) { double v = std::stod(x); return std::isinf(v) ? -1L : std::lround(v / u * 1000); };
        J out = J::arr();
        for (std::size_t i = 1; i < rows.size(); ++i) {
            auto &r = rows[i];
            if (r.size() != 14) { out.add(J::obj().kv("id", "?")); continue; }
            std::vector<Pts> a, b; bool ha = false, hb = false;
            for (auto &x : ins) if (x.id == r[0]) { if (x.truth && !ha) { a = x.ls; ha = true; } if (!x.truth && !hb) { b = x.ls; hb = true; } }
            bool ea = true, eb = true;
            for (auto &l : a) ea &= l.size() < 2;
            for (auto &l : b) eb &= l.size() < 2;
            out.add(J::obj().kv("id", r[0]).kv("a", js(a)).kv("b", js(b)).kv("slack", 0).kv("ea", ea).kv("eb", eb)
                .kv("match", js(wkt(r[1]))).kv("truth", js(wkt(r[2]))).kv("mt", num(r[3], unit)).kv("gt", num(r[4], unit))
                .kv("cf", num(r[5], 1)).kv("ef", num(r[6], 1)).kv("correct", num(r[7], unit)).kv("add", num(r[8], unit)).kv("miss", num(r[9], unit))
                .kv("corrects", js(wkt(r[10]))).kv("adds", js(wkt(r[11]))).kv("misses", js(wkt(r[12]))));
        }
        J t = J::arr(), m = J::arr();
        for (auto &x : ins) (x.truth ? t : m).add(x.id);
        emit(J::obj().kv("op", "all").kv("truths", t).kv("matches", m).kv("ign", ign).kv("rows", out));
        ins.clear();
    }
    void line(const std::string &op, std::istringstream &in) override {
        if (op == "set") { for (auto &x : s) { in >> x; x /= 1000; } }
        else if (op == "ign") in >> ign;
        else if (op == "threads") in >> threads;
        else if (op == "gt" || op == "match") {
            In i; i.truth = op == "gt"; long n; in >> i.id >> n;
            for (long k = 0; k < n; ++k) { long c; in >> c; Pts p; for (long j = 0; j < c; ++j) { long x, y; in >> x >> y; p.emplace_back(x, y); } i.ls.push_back(p); }
            ins.push_back(i);
        } else if (op == "go") { int how = 0; unsigned br = 0; in >> how >> br; pauses = br; go(how); }
    }
};
int main(int argc, char **argv) { H h; return run(argc, argv, h); }
