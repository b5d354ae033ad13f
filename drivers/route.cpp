// Drives plain, lazy and eager routes (C10).
// script: kind p|l|e ; pool i k n x y .. ; make d n (o|x)i.. ; inv d b ; copy|asg|mcopy|masg d s ; merge d mode n s.. ;
//  sub d s f t ; subp d s f fp t tp ; ret a b ; trim d a b ; join a b retain ; ask a b ; q d w ; all d
#include "mm2v.hpp"
#include <variant>
#include <memory>
#include <sstream>
#include "types/geometry/point.hpp"
#include "types/geometry/models.hpp"
#include "types/geometry/rich_type/rich_line.hpp"
#include "types/geometry/rich_type/eager_rich_line.hpp"
#include "types/geometry/rich_type/lazy_rich_line.hpp"
#include "types/geometry/rich_type/multi_rich_line.hpp"
#include "types/geometry/rich_type/lazy_multi_rich_line.hpp"
#include "types/geometry/network/route/route.hpp"
#include "types/geometry/network/route/eager_route.hpp"
#include "types/geometry/network/route/lazy_route.hpp"
using namespace mm2v;
using namespace map_matching_2::geometry;
namespace net = map_matching_2::geometry::network;
using cs = cs_cartesian;
using pt = point_type<cs>;
using P = rich_line_type<pt>; using E = eager_rich_line_type<pt>; using L = lazy_rich_line_type<pt>;
using V = rich_line_variant<cs>;
using RefV = typename net::route_type<cs>::rich_line_reference_variant_type;
static pt mk(long x, long y) { return pt{(double) x, (double) y}; }
template<typename C> static J points(const C &l) {
    J a = J::arr();
    for (const auto &p : l) a.add(J::arr().add(I(p.template get<0>())).add(I(p.template get<1>())));
    return a;
}
static const long NONE = 999999999;
template<typename F> static long get(const F &f, double k, bool h) {
    double v;
    try { v = f(); } catch (std::exception &) { return NONE; }
    if (not std::isfinite(v) or std::fabs(v * k) > 1e9) return NONE;
    return std::lround(v * k);
}

struct Any { virtual ~Any() = default; virtual void op(const std::string &o, std::istringstream &in) = 0; };
static std::unique_ptr<V> pool[8];
static std::vector<std::unique_ptr<V>> old_pool;       // referenced lines outlive the routes
static J ppts(int i) { return std::visit([](auto &l) { return points(std::as_const(l).line()); }, *pool[i]); }

template<typename RT, typename W> struct Routes : Any {
    std::unique_ptr<RT> r[4];
    Routes() { for (auto &x : r) x = std::make_unique<RT>(true); }
    static J lines(const RT &x) {
        J a = J::arr();
        for (const auto &ref : x.rich_lines()) std::visit([&](auto &&l) { a.add(points(l.get().line())); }, ref);
        return a;
    }
    static J rec(const RT &x) { return J::obj().kv("inv", x.is_invalid()).kv("ls", lines(x)); }
    static J full(const RT &x) {
        J o = rec(x);
        bool hl = x.has_length(), ha = x.has_azimuth(), hd = x.has_directions();
        J t = J::arr().add(get([&] { return (double) x.length(); }, 10000, hl)).add(get([&] { return (double) x.azimuth(); }, 1000, ha))
            .add(get([&] { return (double) x.directions(); }, 1000, hd)).add(get([&] { return (double) x.absolute_directions(); }, 1000, hd))
            .add((long) hl).add((long) ha).add((long) hd);
        J m = J::arr();
        const auto mr = x.template get_multi_rich_line<multi_rich_line<W>>();
        for (const auto &l : mr.rich_lines()) m.add(points(l.line()));
        (void) x.wkt();
        return o.kv("tot", t).kv("conn", x.is_connected()).kv("empty", x.empty()).kv("size", (long) x.size()).kv("multi", m)
            .kv("flat", points(x.template get_rich_line<W>().line()));
    }
    void put(int d, RT &&x) { r[d] = std::make_unique<RT>(std::move(x)); }      // the old route and its lines are gone
    static RefV ref(int i) { return std::visit([](auto &l) -> RefV { return std::cref(std::as_const(l)); }, *pool[i]); }
    void op(const std::string &o, std::istringstream &in) override {
        J ev = J::obj().kv("op", o);
        int d = 0; in >> d;
        if (o == "make") {
            long n; in >> n;
            std::vector<std::pair<char, int>> src;
            for (long i = 0; i < n; ++i) { std::string t; in >> t; src.emplace_back(t[0], std::stoi(t.substr(1))); }
            bool own = true, ext = true;
            for (auto &s : src) (s.first == 'o' ? ext : own) = false;
            if (n == 1 and own) std::visit([&](auto &l) { put(d, RT{std::decay_t<decltype(l)>{std::as_const(l)}}); }, *pool[src[0].second]);
            else if (n == 1) std::visit([&](auto &l) { put(d, RT{std::cref(std::as_const(l))}); }, *pool[src[0].second]);
            else {
                std::list<V> mine; std::vector<RefV> refs;
                for (auto &s : src) {
                    if (s.first == 'o') {
                        const V &v = mine.emplace_back(*pool[s.second]);
                        std::visit([&](auto &l) { refs.emplace_back(std::cref(std::as_const(l))); }, v);
                    } else refs.push_back(ref(s.second));
                }
                if (own) put(d, RT{std::move(mine)});
                else if (ext) put(d, RT{std::move(refs)});
                else put(d, RT{std::move(mine), std::move(refs)});
            }
            J a = J::arr(); for (auto &s : src) a.add((long) s.second);
            ev.kv("d", d).kv("src", a).kv("r", rec(*r[d]));
        } else if (o == "inv") {
            int b; in >> b; put(d, RT{(bool) b});
            ev.kv("d", d).kv("b", (bool) b).kv("r", rec(*r[d]));
        } else if (o == "copy" or o == "asg" or o == "mcopy" or o == "masg") {
            int s; in >> s;
            if (o == "copy") put(d, RT{*r[s]});
            else if (o == "asg") *r[d] = *r[s];
            else if (o == "mcopy") put(d, RT{std::move(*r[s])});
            else *r[d] = std::move(*r[s]);
            ev.kv("d", d).kv("s", s).kv("r", rec(*r[d]));
        } else if (o == "merge") {
            int mode; long n; in >> mode >> n;
            std::vector<RT> v; J a = J::arr(); v.reserve(n);
            for (long i = 0; i < n; ++i) { int s; in >> s; v.emplace_back(*r[s]); a.add((long) s); }
            bool ok = true;
            try { RT x = RT::template merge<W>(std::move(v), mode == 1, mode == 2); v.clear(); put(d, std::move(x)); }
            catch (net::route_merge_exception &) { ok = false; }
            ev.kv("d", d).kv("mode", mode).kv("src", a).kv("ok", ok);
            if (ok) ev.kv("r", rec(*r[d]));
        } else if (o == "sub" or o == "subp") {
            int s; long f, t, fp = 0, tp = 0; in >> s >> f;
            if (o == "subp") in >> fp;
            in >> t;
            if (o == "subp") in >> tp;
            bool ok = true;
            try {
                if (o == "sub") { RT x = r[s]->sub_route(f, t); put(d, std::move(x)); }
                else { RT x = r[s]->template sub_route<W>(f, fp, t, tp); put(d, std::move(x)); }
            } catch (std::out_of_range &) { ok = false; }
            ev.kv("d", d).kv("s", s).kv("f", f).kv("t", t).kv("fp", fp).kv("tp", tp).kv("ok", ok);
            if (ok) ev.kv("r", rec(*r[d]));
        } else if (o == "ret") {
            int b; in >> b;
            const W x = r[d]->template extract_return_line<W>(*r[b]), y = r[d]->template extract_return_line<W>(*r[b], false);
            ev.kv("a", d).kv("b", b).kv("own", points(x.line())).kv("other", points(y.line()));
        } else if (o == "trim") {
            int a, b; in >> a >> b;
            RT x = r[a]->template trim_merge<W>(*r[b]);
            put(d, std::move(x));
            ev.kv("d", d).kv("a", a).kv("b", b).kv("r", rec(*r[d]));
        } else if (o == "join" or o == "ifjoin") {
            int b, retain; in >> b >> retain;
            // only routes that meet are joined
            if (o == "ifjoin" and not (r[d]->attaches(*r[b]) and r[d]->size() and r[b]->size())) return;
            ev = J::obj().kv("op", "join");
            RT::template join<W>(*r[d], *r[b], (bool) retain);
            ev.kv("a", d).kv("b", b).kv("retain", (bool) retain).kv("ra", rec(*r[d])).kv("rb", rec(*r[b]));
        } else if (o == "ask") {
            int b; in >> b;
            ev.kv("a", d).kv("b", b).kv("meets", r[d]->attaches(*r[b])).kv("mergeable", r[d]->mergeable());
        } else if (o == "q") {
            std::string w; in >> w;
            const RT &x = *r[d];
            if (w == "len") (void) x.has_length(); else if (w == "azi") (void) x.has_azimuth();
            else if (w == "dir") (void) x.has_directions(); else (void) x.is_connected();
            ev.kv("d", d).kv("w", w);
        } else if (o == "all") {
            ev.kv("d", d).kv("r", full(*r[d]));
        }
        emit(ev);
    }
};
struct H : Handler {
    std::unique_ptr<Any> a;
    void begin() override { a.reset(); old_pool.clear(); for (auto &p : pool) p.reset(); emit(J::obj().kv("op", "begin")); }
    void line(const std::string &o, std::istringstream &in) override {
        if (o == "kind") {
            std::string k; in >> k;
            if (k == "p") a = std::make_unique<Routes<net::route_type<cs>, P>>();
            else if (k == "e") a = std::make_unique<Routes<net::eager_route_type<cs>, E>>();
            else if (k == "m") a = std::make_unique<Routes<net::eager_route_type<cs>, L>>();
            else a = std::make_unique<Routes<net::lazy_route_type<cs>, L>>();
        } else if (o == "pool") {
            int i; std::string k; long n; in >> i >> k >> n;
            using lt = linestring_type<pt>;
            lt q; for (long j = 0; j < n; ++j) { long x, y; in >> x >> y; q.push_back(mk(x, y)); }
            if (pool[i]) old_pool.push_back(std::move(pool[i]));
            if (k == "p") pool[i] = std::make_unique<V>(P{q}); else if (k == "e") pool[i] = std::make_unique<V>(E{q}); else pool[i] = std::make_unique<V>(L{q});
            emit(J::obj().kv("op", "pool").kv("i", i).kv("pts", ppts(i)));
        } else a->op(o, in);
    }
    void end() override { a.reset(); }
};
int main(int c, char **v) { H h; return mm2v::run(c, v, h); }
