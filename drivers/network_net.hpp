// Building and observing import networks (in memory or memory mapped), shared by several drivers.
#ifndef MM2V_NETWORK_NET_HPP
#define MM2V_NETWORK_NET_HPP
#include "mm2v.hpp"
#include <filesystem>
#include "types/geometry/network/network_import.hpp"
#include "types/geometry/network/network.hpp"
#include "geometry/network/traits/network.hpp"

namespace mm2v {
    using namespace map_matching_2;
    using net_mem = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_IMPORT_TAG_HELPER(MM2_MEMORY_TYPES)));
#ifdef MM2V_MMAP
    using net_mmap = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(MM2_CARTESIAN, MM2_MMAP_TYPES, MM2_IMPORT_TAG_HELPER(MM2_MMAP_TYPES)));
#endif

    inline std::vector<std::array<long, 2>> read_points(std::istream &in) {
        size_t n; in >> n;
        std::vector<std::array<long, 2>> r(n);
        for (auto &p : r) in >> p[0] >> p[1];
        return r;
    }
    inline std::vector<long> read_longs(std::istream &in) {
        size_t n; in >> n;
        std::vector<long> r(n);
        for (auto &p : r) in >> p;
        return r;
    }
    template<typename TagHelper, typename Tags>
    std::vector<long> tag_numbers(const TagHelper &th, const Tags &tags) {
        std::vector<long> r;
        for (const auto &t : tags) {
            auto kv = th.tag(t);
            r.push_back(kv.first.substr(0, 1) == "k" && "v" + kv.first.substr(1) == kv.second ? std::stol(kv.first.substr(1)) : -1);
        }
        return r;
    }
    template<typename Net>
    struct net_ops {
        using vertex_data = typename Net::vertex_data_type;
        using edge_data = typename Net::edge_data_type;
        using point_type = typename Net::point_type;
        using line_type = typename Net::line_type;
        using rich_line_type = typename Net::rich_line_type;
        using tag_vector = typename Net::tag_helper_type::tag_vector_type;

        static J pts(const auto &line) {
            J a = J::arr();
            for (const auto &p : line) a.add(J::arr().add(I(p.template get<0>())).add(I(p.template get<1>())));
            return a;
        }
        // N id x y ntags tags
        static void node(Net &net, std::istringstream &in) {
            long id, x, y; in >> id >> x >> y;
            auto tags = read_longs(in);
            auto &th = net.graph_helper().tag_helper();
            set_tags(th, tags, [&](tag_vector &&v) { th.set_node_tags(id, std::move(v)); });
            struct nd { std::uint64_t id; point_type point; } n{(std::uint64_t) id, point_type{(double) x, (double) y}};
            net.graph_helper().add_vertex_with_index_mapping(n);
        }
        template<typename TH, typename F>
        static void set_tags(TH &th, const std::vector<long> &tags, const F &f) {
            if (tags.empty()) return;
            std::vector<std::uint64_t> ids;
            for (auto t : tags) ids.push_back(th.id("k" + std::to_string(t), "v" + std::to_string(t)));
            tag_vector v = th.tag_storage().tags();
            for (auto i : ids) v.emplace_back(i);
            f(std::move(v));
        }
        // E id s t ntags tags npts x y ...     (s, t: vertex indices)
        static void edge(Net &net, std::istringstream &in) {
            long id; size_t s, t; in >> id >> s >> t;
            auto tags = read_longs(in);
            auto p = read_points(in);
            auto &th = net.graph_helper().tag_helper();
            set_tags(th, tags, [&](tag_vector &&v) { th.set_edge_tags(id, std::move(v)); });
            using mem_edge = typename net_mem::edge_data_type;
            typename net_mem::line_type line;
            for (auto &q : p) line.emplace_back((double) q[0], (double) q[1]);
            typename net_mem::rich_line_type rl{line};
            if constexpr (std::is_same_v<Net, net_mem>) {
                net.graph_helper().add_edge(s, t, edge_data{(std::uint64_t) id, rl});
            } else {
                net.graph_helper().add_edge(s, t, mem_edge{(std::uint64_t) id, rl});
            }
        }
        static J observe(Net &net) {
            auto &g = net.graph();
            auto &th = net.graph_helper().tag_helper();
            J ns = J::arr(), es = J::arr();
            auto vv = g.vertices_view();
            for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
                const auto &v = g.vertices_view()[it].get();
                ns.add(J::obj().kv("id", v.id).kv("x", I(v.point.template get<0>())).kv("y", I(v.point.template get<1>()))
                        .kv("ix", (long) g.vertex_index(it))
                        .kv("in", (long) g.in_degree(it)).kv("out", (long) g.out_degree(it))
                        .kv("tags", tag_numbers(th, th.node_tags(v.id))));
            }
            auto ev = g.edges_view();
            for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
                const auto &e = g.edges_view()[it].get();
                es.add(J::obj().kv("id", e.id).kv("s", (long) g.vertex_index(g.source(it))).kv("t", (long) g.vertex_index(g.target(it)))
                        .kv("ix", (long) g.edge_index(it))
                        .kv("len", e.rich_line.has_length() ? I(e.rich_line.length()) : -1)
                        .kv("pts", pts(e.rich_line.line())).kv("tags", tag_numbers(th, th.edge_tags(e.id))));
            }
            return J::obj().kv("nodes", ns).kv("edges", es).kv("nv", (long) g.vertices_view().size()).kv("ne", (long) g.edges_view().size());
        }
    };
}
#endif
