// Drives the comparison of a ground truth with a match (C12).
// script: kind p|l|e ; unit u ; set simp rev adopt split dir (1/1000) ; jit n x y jx jy .. (where the match sees a lattice point,
//  1/1000) ; cmp how na (n x y ..).. nb (n x y ..)..   how: m several lines, s one line each
#include "mm2v.hpp"
#include <sstream>
#include "types/geometry/point.hpp"
#include "types/geometry/models.hpp"
#include "types/geometry/rich_type/rich_line.hpp"
#include "types/geometry/rich_type/eager_rich_line.hpp"
#include "types/geometry/rich_type/lazy_rich_line.hpp"
#include "types/geometry/rich_type/multi_rich_line.hpp"
#include "types/geometry/rich_type/lazy_multi_rich_line.hpp"
#include "types/geometry/rich_type/eager_multi_rich_line.hpp"
#include "geometry/algorithm/compare.hpp"
using namespace mm2v;
using namespace map_matching_2::geometry;
using pt = point_type<cs_cartesian>;
using Pts = std::vector<std::pair<long, long>>;
struct H : Handler {
    char kind = 'p';
    double unit = 10;
    double s[5] = {.1, .1, .1, 1, 90};
    std::map<std::pair<long, long>, std::pair<double, double>> jit;
    void begin() override {
        emit(J::obj().kv("op", "begin"));
        kind = 'p'; unit = 10; jit.clear();
        double d[5] = {.1, .1, .1, 1, 90}; std::copy(d, d + 5, s);
    }
    static std::vector<Pts> read(std::istringstream &in) {
        long n; in >> n; std::vector<Pts> r;
        for (long i = 0; i < n; ++i) {
            long k; in >> k; Pts p;
            for (long j = 0; j < k; ++j) { long x, y; in >> x >> y; p.emplace_back(x, y); }
            r.push_back(p);
        }
        return r;
    }
    static J js(const std::vector<Pts> &v) {
        J a = J::arr();
        for (auto &l : v) { J b = J::arr(); for (auto &p : l) b.add(J::arr().add(p.first).add(p.second)); a.add(b); }
        return a;
    }
    template<typename R> R line(const Pts &l, bool match) {
        linestring_type<pt> r;
        for (auto &p : l) {
            std::pair<double, double> j{0, 0};
            if (match) if (auto f = jit.find(p); f != jit.end()) j = f->second;
            r.push_back(pt{p.first * unit + j.first, p.second * unit + j.second});
        }
        return R{r};
    }
    J segs(const auto &v) {
        J a = J::arr();
        for (const auto &x : v) {
            auto f = [&](const pt &p) { return J::arr().add(std::lround(p.template get<0>() / unit)).add(std::lround(p.template get<1>() / unit)); };
            a.add(J::arr().add(f(x.first())).add(f(x.second())));
        }
        return a;
    }
    template<typename M, typename R> void cmp(std::istringstream &in) {
        std::string how; in >> how;
        auto a = read(in), b = read(in);
        line_comparator<M> c{s[0], s[1], s[2], s[3], s[4], false};
        typename line_comparator<M>::result_type r;
        bool ha, hb, ea = true, eb = true; double la = 0, lb = 0;
        for (auto &l : a) ea &= l.size() < 2;
        for (auto &l : b) eb &= l.size() < 2;
        auto go = [&](const auto &x, const auto &y) {
            r = c.compare(x, y);
            ha = x.has_length(); hb = y.has_length();
            if (ha) la = x.length();
            if (hb) lb = y.length();
        };
        if (how == "s") go(line<R>(a.empty() ? Pts{} : a[0], false), line<R>(b.empty() ? Pts{} : b[0], true));
        else {
            auto multi = [&](const std::vector<Pts> &v, bool match) { std::vector<R> ls; for (auto &l : v) ls.push_back(line<R>(l, match)); return M{std::move(ls)}; };
            go(multi(a, false), multi(b, true));
        }
        auto k = [&](double v) { return std::isinf(v) ? -1L : std::lround(v * 1000); };
        emit(J::obj().kv("op", "cmp").kv("a", js(a)).kv("b", js(b)).kv("slack", jit.empty() ? 0L : std::lround(100 / unit)).kv("ea", ea).kv("eb", eb)
            .kv("gt", k(la / unit)).kv("mt", k(lb / unit))
            .kv("cf", k(r.correct_fraction)).kv("ef", k(r.error_fraction))
            .kv("correct", k(r.correct / unit)).kv("add", k(r.error_added / unit)).kv("miss", k(r.error_missed / unit))
            .kv("corrects", segs(r.corrects)).kv("adds", segs(r.error_adds)).kv("misses", segs(r.error_misses)));
    }
    void line(const std::string &op, std::istringstream &in) override {
        if (op == "kind") in >> kind;
        else if (op == "unit") in >> unit;
        else if (op == "set") { for (auto &x : s) { in >> x; x /= 1000; } }
        else if (op == "jit") {
            long n; in >> n;
            for (long i = 0; i < n; ++i) { long x, y; double a, b; in >> x >> y >> a >> b; jit[{x, y}] = {a / 1000, b / 1000}; }
        } else if (op == "cmp") {
            if (kind == 'p') cmp<multi_rich_line_type<pt>, rich_line_type<pt>>(in);
            else if (kind == 'l') cmp<lazy_multi_rich_line_type<pt>, lazy_rich_line_type<pt>>(in);
            else cmp<eager_multi_rich_line_type<pt>, eager_rich_line_type<pt>>(in);
        }
    }
};
int main(int argc, char **argv) { H h; return run(argc, argv, h); }
