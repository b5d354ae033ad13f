// Lattice networks with candidate search, as the matching drivers use them.
#ifndef MM2V_MATCH_NET_HPP
#define MM2V_MATCH_NET_HPP
#include "network_net.hpp"
#include "types/matching/algorithm/algorithms.hpp"
#include "environment/environments/hmm.hpp"
#include "environment/environments/single.hpp"
#include "learning/algorithms/viterbi.hpp"
#include "learning/algorithms/value_iteration.hpp"
#include "learning/algorithms/policy_iteration.hpp"
using namespace mm2v;
using imp_t = net_mem;
using net_t = MM2_NETWORK(MM2_GRAPH_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)),
        MM2_INDEX_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_MEMORY_TYPES));
using tr = matching::network_traits<net_t>;
using track_t = typename tr::track_type;
using cand_t = typename tr::candidate_type;
using point_t = typename tr::point_type;

struct MatchBase : Handler {
    std::unique_ptr<imp_t> ic; std::unique_ptr<net_t> nc;
    std::unique_ptr<util::time_helper> th; std::unique_ptr<matching::algorithms<net_t>> al;
    virtual void drop() { al.reset(); th.reset(); nc.reset(); ic.reset(); }
    static J pt(const point_t &p) { return J::arr().add(I(p.template get<0>())).add(I(p.template get<1>())); }
    template<typename L> static J pts(const L &l) { J a = J::arr(); for (const auto &p : l) a.add(pt(p)); return a; }
    static long sq(double d) { return I(d * d); }

    void net(std::istringstream &in) {
        drop();
        ic = std::make_unique<imp_t>(); nc = std::make_unique<net_t>();
        J nj = J::arr(), ej = J::arr();
        long id = 0;
        for (auto &p : read_points(in)) {
            struct nd { std::uint64_t id; point_t point; } x{(std::uint64_t) ++id, {(double) p[0], (double) p[1]}};
            ic->graph_helper().add_vertex_with_index_mapping(x);
            nj.add(J::arr().add(p[0]).add(p[1]));
        }
        long m; in >> m; id = 0;
        for (long i = 0; i < m; ++i) {
            long s, t; in >> s >> t;
            auto p = read_points(in);
            typename imp_t::line_type l;
            J pj = J::arr();
            for (auto &q : p) { l.emplace_back((double) q[0], (double) q[1]); pj.add(J::arr().add(q[0]).add(q[1])); }
            ic->graph_helper().add_edge(s - 1, t - 1, typename imp_t::edge_data_type{(std::uint64_t) ++id, typename imp_t::rich_line_type{l}});
            ej.add(J::obj().kv("s", s).kv("t", t).kv("p", pj));
        }
        nc->graph_helper().from_adjacency_list(ic->graph_helper(), ic->tag_helper());
        nc->build_spatial_indices();
        th = std::make_unique<util::time_helper>();
        al = std::make_unique<matching::algorithms<net_t>>(*nc, *th);
        emit(J::obj().kv("op", "net").kv("ns", nj).kv("es", ej));
    }
    static void settings(std::istringstream &in, matching::settings &s, J &e) {
        long kind, k, r, lo, hi, ad, si, ne, re;
        in >> kind >> k >> r >> lo >> hi >> ad >> si >> ne >> re;
        s.candidate_search = kind == 0 ? matching::settings::CIRCLE : kind == 1 ? matching::settings::NEAREST :
                             kind == 2 ? matching::settings::COMBINED : matching::settings::NEXT;
        s.k_nearest = k; s.radius = r; s.radius_lower_limit = lo; s.radius_upper_limit = hi; s.adaptive_radius = ad;
        s.candidate_adoption_siblings = si; s.candidate_adoption_nearby = ne; s.candidate_adoption_reverse = re;
        const char *names[] = {"circle", "nearest", "combined", "next"};
        e.kv("kind", names[kind]).kv("k", k).kv("r", r).kv("lo", lo).kv("hi", hi).kv("ad", ad != 0).kv("si", si != 0).kv("ne", ne != 0).kv("re", re != 0);
    }
    static track_t read_track(std::istringstream &in) {
        typename track_t::line_type l;
        for (auto &q : read_points(in)) l.emplace_back((double) q[0], (double) q[1]);
        return track_t{"t", l};
    }
};
#endif
