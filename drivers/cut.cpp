// Drives line simplification and cutting (C11).
// script: cs c|s|g ; kind p|l|e ; line n x y .. ; simp raw f t tol | simp rich retain tol rev | simp segs retain tol rev ;
//  cut a b g h (g,h: hand over the exact points) | cutf a g | cutt b g | pts qx qy rx ry
// Cut lines are given in half units; distances too.
#include "mm2v.hpp"
#include <memory_resource>
#include <list>
#include <sstream>
#include "types/geometry/point.hpp"
#include "types/geometry/models.hpp"
#include "types/geometry/rich_type/rich_segment.hpp"
#include "types/geometry/rich_type/rich_line.hpp"
#include "types/geometry/rich_type/eager_rich_line.hpp"
#include "types/geometry/rich_type/lazy_rich_line.hpp"
#include "geometry/algorithm/simplify.hpp"
#include "geometry/algorithm/substring.hpp"
using namespace mm2v;
using namespace map_matching_2::geometry;
static const long NONE = 999999999;
template<typename F> static long get(const F &f, double k) {
    double v;
    try { v = f(); } catch (std::exception &) { return NONE; }
    if (not std::isfinite(v) or std::fabs(v * k) > 1e9) return NONE;
    return std::lround(v * k);
}
struct Any { virtual ~Any() = default; virtual void op(const std::string &o, std::istringstream &in, const std::vector<std::pair<long, long>> &c) = 0; };

template<typename pt, typename R> struct Lines : Any {
    using line_t = linestring_type<pt>;
    double unit;            // length of one unit
    explicit Lines(double u) : unit{u} {}
    static pt mk(double x, double y) { return pt{x, y}; }
    static line_t line(const std::vector<std::pair<long, long>> &c, double k) {
        line_t l;
        for (auto &p : c) l.push_back(mk(p.first * k, p.second * k));
        return l;
    }
    template<typename C> static J points(const C &l, double k) {
        J a = J::arr();
        for (const auto &p : l)
            a.add(J::arr().add(std::lround((double) boost::geometry::get<0>(p) * k)).add(std::lround((double) boost::geometry::get<1>(p) * k)));
        return a;
    }
    static double rev(long t) { return t == 0 ? 1e-3 : (double) t; }
    void op(const std::string &o, std::istringstream &in, const std::vector<std::pair<long, long>> &c) override {
        J ev = J::obj();
        if (o == "simp") {
            // on the sphere and the ellipsoid the lattice is small and at the equator
            const double sc = unit == 1 ? 1 : 1e-4, u = 1 / sc;
            auto tol = [&](long t) { return t == 0 ? 1e-3 : t / 10.0 * sc * unit; };
            std::string how; in >> how;
            line_t l = line(c, sc);
            ev.kv("plane", unit == 1);
            if (how == "raw") {
                long f, t, to; in >> f >> t >> to;
                ev.kv("op", "raw").kv("f", f).kv("t", t).kv("tol", to).kv("pts", points(l, u));
                map_matching_2::geometry::simplify(l, f, t, tol(to));
                ev.kv("out", points(l, u));
            } else if (how == "rich") {
                int ret; long to, re; in >> ret >> to >> re;
                R r{l};
                if (re % 2) { try { (void) r.length(); (void) r.azimuth(); (void) r.directions(); } catch (std::exception &) {} }
                ev.kv("op", "rich").kv("retain", (bool) ret).kv("tol", to).kv("rev", re).kv("pts", points(l, u));
                R r2{l};
                J d = J::arr();
                for (auto i : simplify_rich_line_indices(r2, (bool) ret, tol(to), rev(re))) d.add((long) i);
                ev.kv("drop", d);
                simplify_rich_line(r, (bool) ret, tol(to), rev(re));
                ev.kv("out", points(std::as_const(r).line(), u));
                ev.kv("len", get([&] { return (double) r.length(); }, 10000)).kv("azi", get([&] { return (double) r.azimuth(); }, 1000))
                    .kv("dir", get([&] { return (double) r.directions(); }, 1000));
            } else {
                int ret; long to, re; in >> ret >> to >> re;
                using S = rich_segment_type<pt>;
                std::pmr::list<S> segs;
                for (std::size_t i = 0; i + 1 < l.size(); ++i) segs.emplace_back(l[i], l[i + 1]);
                ev.kv("op", "segs").kv("retain", (bool) ret).kv("tol", to).kv("rev", re).kv("pts", points(l, u));
                simplify_rich_segments(segs, (bool) ret, tol(to), rev(re));
                line_t out;
                bool joined = true;
                const pt *last = nullptr;
                for (const auto &s : segs) {
                    if (last and not equals_points(*last, s.first())) joined = false;
                    if (not last) out.push_back(s.first());
                    out.push_back(s.second());
                    last = &s.second();
                }
                if (not joined) out.clear();
                ev.kv("out", points(out, u));
            }
            return emit(ev);
        }
        const line_t l = line(c, .5);
        const R r{l};
        auto at = [&](long d) {         // only for exact positions inside the line
            double rest = d / 2.0;
            for (std::size_t i = 0; i + 1 < l.size(); ++i) {
                double dx = boost::geometry::get<0>(l[i + 1]) - boost::geometry::get<0>(l[i]), dy = boost::geometry::get<1>(l[i + 1]) - boost::geometry::get<1>(l[i]);
                double m = std::hypot(dx, dy);
                if (rest < m) return mk(boost::geometry::get<0>(l[i]) + dx * rest / m, boost::geometry::get<1>(l[i]) + dy * rest / m);
                rest -= m;
            }
            return l.back();
        };
        ev.kv("op", o).kv("pts", points(l, 2));
        auto out = [&](const R &x) { ev.kv("out", points(x.line(), 2000)); };
        if (o == "cut") {
            long a, b, g, h; in >> a >> b >> g >> h;
            out(substring(r, a * .5 * unit, b * .5 * unit, g ? at(a) : pt{}, h ? at(b) : pt{}, (bool) g, (bool) h));
            ev.kv("a", a).kv("b", b);
        } else if (o == "cutf") {
            long a, g; in >> a >> g;
            out(substring_from(r, a * .5 * unit, g ? at(a) : pt{}, (bool) g));
            ev.kv("a", a);
        } else if (o == "cutt") {
            long b, g; in >> b >> g;
            out(substring_to(r, b * .5 * unit, g ? at(b) : pt{}, (bool) g));
            ev.kv("b", b);
        } else if (o == "pts") {
            std::string w; long a, b, x, y; int g, h; in >> w >> a >> b >> x >> y >> g >> h;
            pt q = mk(a * .5, b * .5), z = mk(x * .5, y * .5);
            ev.s = ""; ev.first = true; ev = J::obj().kv("op", w).kv("pts", points(l, 2)).kv("q", std::vector<long>{a, b}).kv("r", std::vector<long>{x, y});
            if (w == "cutp") out(substring_points(r, q, z, (bool) g, (bool) h));
            else if (w == "cutpf") out(substring_point_from(r, q, (bool) g));
            else if (w == "cutpt") out(substring_point_to(r, z, (bool) h));
            else {
                auto [d1, d2] = distances(r, q, z, true, true, (bool) g, (bool) h);
                auto k = [&](auto v) { return get([&] { return (double) v; }, 2000 / unit); };
                ev.kv("d", J::arr().add(k(d1)).add(k(d2)).add(k(distance_from(r, q, (bool) g))).add(k(distance_to(r, z, (bool) h))));
            }
        }
        emit(ev);
    }
};

struct H : Handler {
    std::unique_ptr<Any> a;
    std::vector<std::pair<long, long>> c;
    char cs = 'c', k = 'p';
    void begin() override { emit(J::obj().kv("op", "begin")); a.reset(); c.clear(); cs = 'c'; k = 'p'; }
    template<typename pt> void make(double u) {
        if (k == 'p') a = std::make_unique<Lines<pt, rich_line_type<pt>>>(u);
        else if (k == 'l') a = std::make_unique<Lines<pt, lazy_rich_line_type<pt>>>(u);
        else a = std::make_unique<Lines<pt, eager_rich_line_type<pt>>>(u);
    }
    void line(const std::string &op, std::istringstream &in) override {
        if (op == "cs") { in >> cs; a.reset(); return; }
        if (op == "kind") { in >> k; a.reset(); return; }
        if (op == "line") {
            long n; in >> n; c.clear();
            for (long i = 0; i < n; ++i) { long x, y; in >> x >> y; c.emplace_back(x, y); }
            return;
        }
        if (not a) {
            const double deg = M_PI / 180;
            if (cs == 'c') make<point_type<cs_cartesian>>(1);
            else if (cs == 's') make<point_type<cs_spherical_equatorial>>(6371000 * deg);
            else make<point_type<cs_geographic>>(6378137 * deg);
        }
        a->op(op, in, c);
    }
};
int main(int argc, char **argv) { H h; return run(argc, argv, h); }
