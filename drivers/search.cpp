// Traversals and searches (C03) on mutable and compressed graphs and on road networks.
//   G n m (s t w)*            generic graphs with integer costs, vertices 1..n
//   bfs|dfs KIND s stop | dij KIND s           KIND: list, bi, vec, csr
//   net cart|geo N (x y)* M (s t npts (x y)*)*  (cart: integer lattice)
//   nd s ngoals goals max factor2 | na s goal max factor2      (limit = max * factor2 / 2, factor2 < 0: none)
#include <list>
#include <unordered_set>
#include "network_net.hpp"
#include "graph/algorithm/breadth_first_search.hpp"
#include "graph/algorithm/depth_first_search.hpp"
#include "graph/algorithm/dijkstra_shortest_path.hpp"
#include "graph/algorithm/a_star_shortest_path.hpp"
using namespace mm2v;
namespace g = map_matching_2::graph;

struct ED { int id; long w; };
using GL = g::adjacency_list<std::list, std::list, g::directional, int, ED, std::list>;
using GB = g::adjacency_list<std::list, std::list, g::bidirectional, int, ED, std::list>;
using GV = g::adjacency_list<std::vector, std::vector, g::directional, int, ED, std::vector>;
using GC = g::compressed_sparse_row<std::vector, std::vector, g::directional, int, ED>;

using imp_c = net_mem;
using net_c = MM2_NETWORK(MM2_GRAPH_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)),
        MM2_INDEX_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_MEMORY_TYPES));

using imp_g = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)));
using net_g = MM2_NETWORK(MM2_GRAPH_HELPER(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)),
        MM2_INDEX_HELPER(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES, MM2_MEMORY_TYPES));

struct Log : g::visitor {
    J log = J::arr();
    long finished = 0, stop_at = 0;
    template<typename G> void discover_vertex(const G &gr, const typename G::vertex_descriptor &v) { log.add(J::arr().add("d").add(gr.get_vertex_data(v))); }
    template<typename G> void examine_vertex(const G &gr, const typename G::vertex_descriptor &v) { log.add(J::arr().add("x").add(gr.get_vertex_data(v))); }
    template<typename G> void examine_edge(const G &gr, const typename G::edge_descriptor &e) { log.add(J::arr().add("e").add(gr.get_edge_data(e).id)); }
    template<typename G> void finish_vertex(const G &gr, const typename G::vertex_descriptor &v) {
        log.add(J::arr().add("f").add(gr.get_vertex_data(v)));
        if (++finished == stop_at) this->stop();
    }
};

struct H : Handler {
    struct E3 { int s, t; long w; };
    int n = 0; std::vector<E3> es;
    GL gl; GB gb; GV gv; GC gc;
    std::unique_ptr<imp_c> ic; std::unique_ptr<net_c> nc;
    std::unique_ptr<imp_g> ig; std::unique_ptr<net_g> ng;
    long tol = 0;
    std::vector<int> perm;                        // edge order of the compressed network -> edge number
    void begin() override { end(); }
    void end() override { nc.reset(); ic.reset(); ng.reset(); ig.reset(); }

    template<typename G> void fill(G &gr) {
        gr = G{};
        std::vector<typename G::vertex_descriptor> V;
        for (int i = 1; i <= n; ++i) V.push_back(gr.add_vertex(int(i)));
        int k = 0;
        for (auto &e : es) { ++k; gr.add_edge(V[e.s - 1], V[e.t - 1], ED{k, e.w}); }
    }
    template<typename G> typename G::vertex_descriptor at(G &gr, int v) {
        auto vv = gr.vertices_view();
        auto it = vv.begin();
        for (int i = 1; i < v; ++i) it = vv.next(it);
        return it;
    }
    template<typename G> void traverse(G &gr, const std::string &op, int s, long stop) {
        Log v; v.stop_at = stop;
        boost::unordered_flat_set<std::size_t> seen;
        if (op == "bfs") { g::queue_type<typename G::vertex_descriptor> q; g::breadth_first_search(gr, at(gr, s), seen, q, v); }
        else { g::stack_type<typename G::vertex_descriptor> q; g::depth_first_search(gr, at(gr, s), seen, q, v); }
        emit(J::obj().kv("op", op).kv("s", s).kv("stop", stop).kv("log", v.log));
    }
    template<typename G> void dijkstra(G &gr, int s) {
        g::predecessors_type pred; g::distances_type<long> dist; g::colors_type col;
        g::priority_queue_type<g::priority_type<long, typename G::vertex_descriptor>> q;
        g::visitor v;
        g::dijkstra_shortest_path(gr, at(gr, s), pred, dist, col, q, v, [](const ED &e) { return e.w; });
        J d = J::arr(), p = J::arr();
        for (int i = 0; i < n; ++i) {
            d.add(dist.contains(i) ? dist[i] : -1L);
            p.add(pred.contains(i) ? (long) pred[i] + 1 : -1L);
        }
        emit(J::obj().kv("op", "dij").kv("s", s).kv("dist", d).kv("pred", p));
    }
    template<typename F> void on(const std::string &k, const F &f) {
        if (k == "list") f(gl); else if (k == "bi") f(gb); else if (k == "vec") f(gv); else if (k == "csr") f(gc); else std::abort();
    }
    template<typename Net> J route_j(const Net &net, const std::list<typename Net::vertex_descriptor> &p) {
        const auto r = net.extract_route(p);
        const auto &gr = net.graph();
        J ids = J::arr();
        auto pi = p.begin();
        for (const auto &var : r.rich_lines()) {
            // the line of the route is the line of an edge between the two vertices
            long id = -1;
            std::visit([&](const auto &ref) {
                const auto &pts = ref.get().line();
                if (pi == p.end() || std::next(pi) == p.end()) return;
                const auto oe = gr.out_edges_view(*pi);
                for (auto it = oe.begin(); it != oe.end() && id < 0; it = oe.next(it)) {
                    const auto &l = gr.get_edge_data(it).rich_line.line();
                    if (gr.target(it) != *std::next(pi) || l.size() != pts.size()) continue;
                    bool eq = true;
                    for (std::size_t i = 0; i < l.size(); ++i)
                        eq = eq && l[i].template get<0>() == pts[i].template get<0>() && l[i].template get<1>() == pts[i].template get<1>();
                    if (eq) id = (long) gr.get_edge_data(it).id;
                }
            }, var);
            if (pi != p.end()) ++pi;
            ids.add(id);
        }
        return J::obj().kv("es", ids).kv("len", !r.has_length() ? 0L : tol ? std::lround(r.length() * 10) : I(r.length())).kv("inv", r.is_invalid());
    }
    template<typename Net> void net_op(const Net &net, const std::string &op, std::istringstream &in) {
        long s; in >> s;
        boost::unordered_flat_set<std::size_t> goals;
        J gj = J::arr();
        if (op == "nd") { for (auto x : read_longs(in)) { goals.emplace(x - 1); gj.add(x); } }
        else { long x; in >> x; goals.emplace(x - 1); gj.add(x); }
        long mx, f2; in >> mx >> f2;
        using len = typename Net::length_type;
        g::predecessors_type pred; g::distances_type<len> dist; g::colors_type col;
        g::priority_queue_type<g::priority_type<len, std::size_t>> q;
        std::vector<std::list<std::size_t>> paths;
        // the working memory is reused from search to search, as the router does
        for (int k = 0; k < 2; ++k) {
            paths.clear();
            if (op == "nd") paths = net.dijkstra_shortest_paths(s - 1, goals, mx, f2 / 2.0, pred, dist, col, q);
            else {
                auto p = net.a_star_shortest_paths(s - 1, *goals.begin(), mx, f2 / 2.0, pred, dist, col, q);
                if (!p.empty()) paths.push_back(p);
            }
        }
        if (!pred.empty() || !dist.empty() || !col.empty() || !q.empty()) paths.emplace_back();
        J pj = J::arr(), rj = J::arr();
        for (auto &p : paths) { J a = J::arr(); for (auto v : p) a.add((long) v + 1); pj.add(a); rj.add(route_j(net, p)); }
        emit(J::obj().kv("op", op == "nd" ? "net" : "astar").kv("s", s).kv("goals", gj).kv("lim", f2 < 0 ? -1L : mx * f2 / 2)
            .kv("tol", tol).kv("paths", pj).kv("routes", rj));
    }
    template<typename Imp, typename Net>
    void make_net(std::unique_ptr<Imp> &ic, std::unique_ptr<Net> &nc, std::istringstream &in, double unit) {
        nc.reset(); ng.reset(); this->nc.reset();
        ic = std::make_unique<Imp>(); nc = std::make_unique<Net>();
        long id = 0;
        auto nodes = read_points(in);
        n = nodes.size();
        for (auto &p : nodes) {
            struct nd { std::uint64_t id; typename Imp::point_type point; } x{(std::uint64_t) ++id, {p[0] * unit, p[1] * unit}};
            ic->graph_helper().add_vertex_with_index_mapping(x);
        }
        int m; in >> m; es.assign(m, {}); id = 0;
        for (auto &e : es) {
            in >> e.s >> e.t;
            auto p = read_points(in);
            typename Imp::line_type l; long w = 0;
            for (std::size_t i = 0; i < p.size(); ++i) {
                l.emplace_back(p[i][0] * unit, p[i][1] * unit);
                if (i) w += std::labs(p[i][0] - p[i - 1][0]) + std::labs(p[i][1] - p[i - 1][1]);
            }
            typename Imp::rich_line_type rl{l};
            e.w = unit == 1.0 ? w : rl.has_length() ? std::lround(rl.length() * 10) : 0;
            ic->graph_helper().add_edge(e.s - 1, e.t - 1, typename Imp::edge_data_type{(std::uint64_t) ++id, rl});
        }
        nc->graph_helper().from_adjacency_list(ic->graph_helper(), ic->tag_helper());
    }
    void graph_event() {
        J a = J::arr();
        for (auto &e : es) a.add(J::obj().kv("s", e.s).kv("t", e.t).kv("w", e.w));
        emit(J::obj().kv("op", "graph").kv("n", n).kv("es", a));
    }
    void line(const std::string &op, std::istringstream &in) override {
        if (op == "G") {
            int m; in >> n >> m; es.assign(m, {});
            for (auto &e : es) in >> e.s >> e.t >> e.w;
            fill(gl); fill(gb); fill(gv); gc = GC{}; gb.reindex(); gc.from_adjacency_list(gb);
            graph_event();
        } else if (op == "bfs" || op == "dfs") {
            std::string k; int s; long st; in >> k >> s >> st;
            on(k, [&](auto &gr) { traverse(gr, op, s, st); });
        } else if (op == "dij") {
            std::string k; int s; in >> k >> s;
            on(k, [&](auto &gr) { dijkstra(gr, s); });
        } else if (op == "net") {
            tol = 0;
            make_net(ic, nc, in, 1.0);
            graph_event();
        } else if (op == "geo") {
            // the costs are those of the code itself, in decimetres; paths are compared with a tolerance
            make_net(ig, ng, in, 1e-4);
            tol = 20;
            graph_event();
        } else if (op == "nd" || op == "na") { if (nc) net_op(*nc, op, in); else net_op(*ng, op, in); }
        else std::abort();
    }
};
int main(int argc, char **argv) { H h; return mm2v::run(argc, argv, h); }
