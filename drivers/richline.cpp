// Rich lines (C09): plain, lazy and eager lines in two containers, and multi lines, through their public operations.
// slots 0..3 hold lines, multi slots 0..1 hold multi lines
//  new s kind n (x y)* | copy d s kind | asg d s | set d n (x y)* | mcopy d s | masg d s | merge d how k s* | erase d i
//  erases d n i* | sub d s from to | q s what [pos] | seg s pos | ser s | all s
//  mnew m kind how k s* | mcp d s kind | masn d s | mmerge m k s* | mall m
#include "mm2v.hpp"
#include <variant>
#include <sstream>
#include <boost/container/vector.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/serialization/vector.hpp>
#include "types/geometry/point.hpp"
#include "geometry/models.hpp"
#include "geometry/rich_type/rich_line.hpp"
#include "geometry/rich_type/lazy_rich_line.hpp"
#include "geometry/rich_type/eager_rich_line.hpp"
#include "geometry/rich_type/multi_rich_line.hpp"
#include "geometry/rich_type/lazy_multi_rich_line.hpp"
#include "geometry/rich_type/eager_multi_rich_line.hpp"
using namespace mm2v;
using namespace map_matching_2::geometry;
#ifdef MM2V_GEO
using pt = point_type<cs_geographic>;
#else
using pt = point_type<cs_cartesian>;
#endif
template<typename T, typename A> using bvec = boost::container::vector<T, A>;
using P = rich_line<pt>; using L = lazy_rich_line<pt>; using E = eager_rich_line<pt>;
using PB = rich_line<pt, bvec, std::allocator>; using LB = lazy_rich_line<pt, bvec, std::allocator>; using EB = eager_rich_line<pt, bvec, std::allocator>;
using V = std::variant<std::monostate, P, L, E, PB, LB, EB>;
using MP = multi_rich_line<P>; using ML = lazy_multi_rich_line<L>; using ME = eager_multi_rich_line<E>;
using M = std::variant<std::monostate, MP, ML, ME>;

static const long NONE = 999999999, RANGE = 111111111;
static long N(double v, double f) { return std::isfinite(v) ? std::lround(v * f) : NONE; }
template<typename F> static long get(const F &f, double k) {
    try { return N(f(), k); }
    catch (std::out_of_range &) { return RANGE; } catch (boost::container::out_of_range &) { return RANGE; }
    catch (std::exception &) { return NONE; }
}
template<typename F> static long has(const F &f) {
    try { return f() ? 1 : 0; } catch (std::out_of_range &) { return RANGE; } catch (boost::container::out_of_range &) { return RANGE; }
}
#ifdef MM2V_GEO
static const double KL = 100, KA = 1000;
static pt mk(long x, long y) { return pt{x / 500.0, 50 + y / 700.0}; }
static long X(const pt &p) { return I(p.template get<0>() * 500); }
static long Y(const pt &p) { return I((p.template get<1>() - 50) * 700); }
#else
static const double KL = 10000, KA = 1000;
static pt mk(long x, long y) { return pt{(double) x, (double) y}; }
static long X(const pt &p) { return I(p.template get<0>()); }
static long Y(const pt &p) { return I(p.template get<1>()); }
#endif
template<typename C> static J points(const C &l) { J a = J::arr(); for (const auto &p : l) a.add(J::arr().add(X(p)).add(Y(p))); return a; }
template<typename T> static J totals(const T &l) {
    return J::arr().add(get([&] { return (double) l.length(); }, KL)).add(get([&] { return (double) l.azimuth(); }, KA))
        .add(get([&] { return (double) l.directions(); }, KA)).add(get([&] { return (double) l.absolute_directions(); }, KA))
        .add(has([&] { return l.has_length(); })).add(has([&] { return l.has_azimuth(); })).add(has([&] { return l.has_directions(); }));
}
template<typename T> static long query(const T &l, const std::string &w, std::size_t i) {
    if (w == "len") return get([&] { return (double) l.length(); }, KL);
    if (w == "azi") return get([&] { return (double) l.azimuth(); }, KA);
    if (w == "dir") return get([&] { return (double) l.directions(); }, KA);
    if (w == "abs") return get([&] { return (double) l.absolute_directions(); }, KA);
    if (w == "hlen") return has([&] { return l.has_length(); });
    if (w == "hazi") return has([&] { return l.has_azimuth(); });
    if (w == "hdir") return has([&] { return l.has_directions(); });
    if (w == "lenp") return get([&] { return (double) l.length(i); }, KL);
    if (w == "azip") return get([&] { return (double) l.azimuth(i); }, KA);
    if (w == "dirp") return get([&] { return (double) l.direction(i); }, KA);
    if (w == "absp") return get([&] { return (double) l.absolute_direction(i); }, KA);
    if (w == "hlenp") return has([&] { return l.has_length(i); });
    if (w == "hazip") return has([&] { return l.has_azimuth(i); });
    if (w == "hdirp") return has([&] { return l.has_direction(i); });
    return -5;
}
template<typename T> static J all(const T &l) {
    J per = J::arr(), dirs = J::arr();
    for (std::size_t i = 0; i + 1 < l.size(); ++i)
        per.add(J::arr().add(query(l, "lenp", i)).add(query(l, "azip", i)).add(query(l, "hlenp", i)).add(query(l, "hazip", i)));
    for (std::size_t i = 0; i + 2 < l.size(); ++i)
        dirs.add(J::arr().add(query(l, "dirp", i)).add(query(l, "absp", i)).add(query(l, "hdirp", i)));
    // as computed from scratch
    P f{linestring<pt>(std::cbegin(l.line()), std::cend(l.line()))};
    J fper = J::arr(), fdirs = J::arr();
    for (std::size_t i = 0; i + 1 < f.size(); ++i)
        fper.add(J::arr().add(query(f, "lenp", i)).add(query(f, "azip", i)).add(query(f, "hlenp", i)).add(query(f, "hazip", i)));
    for (std::size_t i = 0; i + 2 < f.size(); ++i)
        fdirs.add(J::arr().add(query(f, "dirp", i)).add(query(f, "absp", i)).add(query(f, "hdirp", i)));
    return J::obj().kv("tot", totals(l)).kv("per", per).kv("dirs", dirs).kv("ftot", totals(f)).kv("fper", fper).kv("fdirs", fdirs);
}
static std::vector<long> nums(std::istringstream &in, long n) { std::vector<long> r(n); for (auto &x : r) in >> x; return r; }
static std::vector<pt> pts(std::istringstream &in) { long n; in >> n; std::vector<pt> r; for (long i = 0; i < n; ++i) { long x, y; in >> x >> y; r.push_back(mk(x, y)); } return r; }

struct H : Handler {
    V s[4]; M m[2];
    void begin() override { for (auto &x : s) x = std::monostate{}; for (auto &x : m) x = std::monostate{}; emit(J::obj().kv("op", "begin")); }
    template<typename F> static void on(V &v, const F &f) {
        std::visit([&](auto &x) { if constexpr (not std::is_same_v<std::decay_t<decltype(x)>, std::monostate>) f(x); }, v);
    }
    template<typename F> static void onm(M &v, const F &f) {
        std::visit([&](auto &x) { if constexpr (not std::is_same_v<std::decay_t<decltype(x)>, std::monostate>) f(x); }, v);
    }
    J P_(int i) { J r = J::arr(); on(s[i], [&](auto &x) { r = points(std::as_const(x).line()); }); return r; }
    J M_(int i) {
        J r = J::arr();
        onm(m[i], [&](auto &x) { for (const auto &l : std::as_const(x).rich_lines()) r.add(points(l.line())); });
        return r;
    }
    template<typename T> static V fresh(const std::vector<pt> &p) {
        using LT = typename T::line_type;
        return V{std::in_place_type<T>, LT(p.begin(), p.end())};
    }
    template<typename T> V conv(V &v) { V r; on(v, [&](auto &x) { r.template emplace<T>(std::as_const(x)); }); return r; }
    V convert(V &v, const std::string &k) {
        if (k == "p") return conv<P>(v);
        if (k == "l") return conv<L>(v);
        if (k == "e") return conv<E>(v);
        if (k == "pb") return conv<PB>(v);
        if (k == "lb") return conv<LB>(v);
        return conv<EB>(v);
    }
    // multi lines are made of non-empty lines
    std::vector<long> usable(std::istringstream &in, long n) {
        std::vector<long> r;
        for (long a : nums(in, n)) on(s[a], [&](auto &x) { if (not x.empty()) r.push_back(a); });
        return r;
    }
    template<typename T> std::vector<T> gather(const std::vector<long> &ids) {
        std::vector<T> r;
        for (long a : ids) on(s[a], [&](auto &x) { r.emplace_back(std::as_const(x)); });
        return r;
    }
    template<typename T> void mnew(int i, const std::string &how, const std::vector<long> &ids) {
        using RL = typename T::rich_line_type;
        auto ls = gather<RL>(ids);
        if (how == "one") m[i].template emplace<T>(ls.front());
        else if (how == "lines") {
            typename T::multi_line_type ml;
            for (auto &x : ls) ml.push_back(x.line());
            m[i].template emplace<T>(ml);
        } else m[i].template emplace<T>(std::move(ls));
    }
    template<typename T> void mcp(int d, int b) { M r; onm(m[b], [&](auto &x) {
        if constexpr (std::is_same_v<T, ME> and std::is_same_v<std::decay_t<decltype(x)>, ML>)   // that constructor cannot be instantiated
            r.template emplace<ME>(static_cast<const MP &>(MP{std::as_const(x)}));
        else r.template emplace<T>(std::as_const(x));
    }); m[d] = std::move(r); }
    void line(const std::string &op, std::istringstream &in) override {
        J ev = J::obj().kv("op", op);
        int d; in >> d;
        ev.kv("d", d);
        if (op == "new") {
            std::string k; in >> k;
            auto p = pts(in);
            if (k == "p") s[d] = fresh<P>(p); else if (k == "l") s[d] = fresh<L>(p); else if (k == "e") s[d] = fresh<E>(p);
            else if (k == "pb") s[d] = fresh<PB>(p); else if (k == "lb") s[d] = fresh<LB>(p); else s[d] = fresh<EB>(p);
            J a = J::arr(); for (auto &x : p) a.add(J::arr().add(X(x)).add(Y(x)));
            ev.kv("in", a).kv("pts", P_(d));
        } else if (op == "copy") {
            int b; std::string k; in >> b >> k;
            V r = convert(s[b], k);
            if (d == b) s[d] = std::monostate{};
            std::visit([&](auto &x) { s[d].emplace<std::decay_t<decltype(x)>>(std::move(x)); }, r);
            ev.kv("s", b).kv("pts", P_(d));
        } else if (op == "asg") {
            int b; in >> b;
            on(s[d], [&](auto &x) { on(s[b], [&](auto &y) {
                using A = std::decay_t<decltype(x)>; using B = std::decay_t<decltype(y)>;
                // plain lines have no converting assignment
                if constexpr (std::is_same_v<A, B> or not (std::is_same_v<A, P> or std::is_same_v<A, PB>)) x = std::as_const(y);
                else x = A{std::as_const(y)};
            }); });
            ev.kv("s", b).kv("pts", P_(d));
        } else if (op == "mcopy" or op == "masg") {
            int b; in >> b;
            if (op == "mcopy") { V r; on(s[b], [&](auto &y) { r.emplace<std::decay_t<decltype(y)>>(std::move(y)); }); std::visit([&](auto &x) { s[d].emplace<std::decay_t<decltype(x)>>(std::move(x)); }, r); }
            else on(s[d], [&](auto &x) { on(s[b], [&](auto &y) {
                if constexpr (std::is_same_v<decltype(x), decltype(y)>) x = std::move(y);
                else x = std::decay_t<decltype(x)>{std::as_const(y)};
            }); });
            ev.kv("s", b).kv("pts", P_(d));
            if (b != d) s[b] = std::monostate{};
        } else if (op == "set") {
            auto p = pts(in);
            on(s[d], [&](auto &x) { typename std::decay_t<decltype(x)>::line_type l(p.begin(), p.end()); x = std::move(l); });
            J a = J::arr(); for (auto &x : p) a.add(J::arr().add(X(x)).add(Y(x)));
            ev.kv("in", a).kv("pts", P_(d));
        } else if (op == "merge") {
            std::string how; long k; in >> how >> k;
            auto ids = nums(in, k);
            J a = J::arr(); for (long i : ids) a.add(i);
            bool ok = true;
            long expect = -1;
            on(s[d], [&](auto &x) {
                using T = std::decay_t<decltype(x)>;
                std::vector<T> ls;
                for (long i : ids) on(s[i], [&](auto &y) { ls.emplace_back(std::as_const(y)); });
                try {
                    expect = x.calculate_new_size(ls);
                    if (how == "v" and ls.size() == 1) x.merge(std::move(ls[0]));
                    else if (how == "v" and ls.size() == 2) x.merge(std::move(ls[0]), std::move(ls[1]));
                    else x.merge(std::move(ls));
                } catch (rich_line_merge_exception &) { ok = false; }
            });
            ev.kv("src", a).kv("ok", ok).kv("size", expect);
            if (not ok) on(s[d], [&](auto &x) { using T = std::decay_t<decltype(x)>; s[d].emplace<T>(); });   // start over with an empty line
            ev.kv("pts", P_(d));
        } else if (op == "erase" or op == "erases") {
            long n = 1; if (op == "erases") in >> n;
            auto v = nums(in, n);
            on(s[d], [&](auto &x) { std::erase_if(v, [&](long i) { return i >= (long) x.size(); }); });
            if (v.empty()) return;
            on(s[d], [&](auto &x) {
                using T = std::decay_t<decltype(x)>;
                if (op == "erases") { std::vector<std::size_t> w(v.begin(), v.end()); x.erase(w); }
                else if constexpr (requires { x.erase(std::size_t{0}, true); }) x.erase((std::size_t) v[0], true);
                else x.erase((std::size_t) v[0]);
            });
            J a = J::arr(); for (long i : v) a.add(i);
            ev.kv("idx", a).kv("pts", P_(d));
        } else if (op == "sub") {
            int b; long f, t; in >> b >> f >> t;
            bool ok = true;
            V r;
            try { on(s[b], [&](auto &y) { r.emplace<std::decay_t<decltype(y)>>(std::as_const(y).sub_rich_line(f, t)); }); }
            catch (std::out_of_range &) { ok = false; }
            if (ok) std::visit([&](auto &x) { s[d].emplace<std::decay_t<decltype(x)>>(std::move(x)); }, r);
            ev.kv("s", b).kv("from", f).kv("to", t).kv("ok", ok).kv("pts", P_(d));
        } else if (op == "ser") {
            on(s[d], [&](auto &x) {
                using T = std::decay_t<decltype(x)>;
                if constexpr (std::is_same_v<T, P> or std::is_same_v<T, L> or std::is_same_v<T, E>) {
                    std::stringstream st;
                    { boost::archive::binary_oarchive o(st); o << std::as_const(x); }
                    T y; { boost::archive::binary_iarchive a(st); a >> y; }
                    s[d].template emplace<T>(std::move(y));
                }
            });
            ev.kv("pts", P_(d));
        } else if (op == "q") {
            std::string w; long i = 0; in >> w >> i;
            long r = 0;
            on(s[d], [&](auto &x) { r = query(std::as_const(x), w, i); });
            ev.kv("w", w).kv("i", i).kv("r", r);
        } else if (op == "seg") {
            long i; in >> i;
            J a = J::arr(), b = J::arr(), p = J::arr();
            auto segment = [&](const auto &g) {
                return J::arr().add(get([&] { return (double) g.length(); }, KL)).add(get([&] { return (double) g.azimuth(); }, KA))
                    .add(has([&] { return g.has_length(); })).add(has([&] { return g.has_azimuth(); }))
                    .add(X(g.first())).add(Y(g.first())).add(X(g.second())).add(Y(g.second()));
            };
            try { on(s[d], [&](auto &x) { const auto &y = std::as_const(x); a = segment(y.rich_segment(i)); b = segment(y.rich_referring_segment(i)); }); }
            catch (std::out_of_range &) { a = b = J::arr(); }
            ev.kv("i", i).kv("seg", a).kv("ref", b);
        } else if (op == "all") {
            on(s[d], [&](auto &x) { ev.kv("obs", all(std::as_const(x))); });
        } else if (op == "mnew") {
            std::string k, how; long n; in >> k >> how >> n;
            auto ids = usable(in, n);
            if (ids.empty()) return;
            J a = J::arr(); for (long i : ids) a.add(i);
            if (k == "p") mnew<MP>(d, how, ids); else if (k == "l") mnew<ML>(d, how, ids); else mnew<ME>(d, how, ids);
            ev.kv("src", a).kv("lines", M_(d));
        } else if (op == "mcp") {
            int b; std::string k; in >> b >> k;
            if (k == "p") mcp<MP>(d, b); else if (k == "l") mcp<ML>(d, b); else mcp<ME>(d, b);
            ev.kv("s", b).kv("lines", M_(d));
        } else if (op == "masn") {
            int b; in >> b;
            if (m[d].index() == 0 or m[b].index() == 0) return;
            onm(m[d], [&](auto &x) { onm(m[b], [&](auto &y) { x = std::as_const(y); }); });
            ev.kv("s", b).kv("lines", M_(d));
        } else if (op == "mmerge") {
            long n; in >> n;
            auto ids = usable(in, n);
            if (ids.empty() or m[d].index() == 0) return;
            J a = J::arr(); for (long i : ids) a.add(i);
            onm(m[d], [&](auto &x) { x.merge(gather<typename std::decay_t<decltype(x)>::rich_line_type>(ids)); });
            ev.kv("src", a).kv("lines", M_(d));
        } else if (op == "mall") {
            onm(m[d], [&](auto &x) {
                ev.kv("tot", totals(std::as_const(x))).kv("sizes", (long) x.sizes()).kv("empty", x.empty());
                J a = J::arr();
                for (const auto &l : std::as_const(x).rich_lines()) a.add(totals(l));
                ev.kv("each", a);
            });
        }
        emit(ev);
    }
};
int main(int c, char **v) { H h; return mm2v::run(c, v, h); }
