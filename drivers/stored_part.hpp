#include "stored.hpp"
namespace mm2v {
    using namespace map_matching_2;
    namespace bg = boost::geometry;
    using imp_t = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(MM2V_CS, MM2_MEMORY_TYPES, MM2_IMPORT_TAG_HELPER(MM2_MEMORY_TYPES)));
    using point_t = geometry::point_type<MM2V_CS>;
    namespace {
        J pt(const auto &p) { return J::arr().add(I(p.template get<0>())).add(I(p.template get<1>())); }
        template<typename TH> J tags(const TH &th, const auto &ts) {
            J a = J::arr();
            for (const auto &t : ts) { const auto kv = th.tag(t); a.add(J::arr().add(kv.first).add(kv.second)); }
            return a;
        }
        long rounded(double d) { return std::isfinite(d) && std::fabs(d) < 1e6 ? std::lround(d * 100) : -888888888; }
        J measures(const auto &l) {
            J a = J::arr();
            const auto put = [&](bool has, const auto &f) { a.add(has ? rounded(f()) : -999999999); };
            put(l.has_azimuth(), [&] { return l.azimuth(); }); put(l.has_directions(), [&] { return l.directions(); });
            put(l.has_directions(), [&] { return l.absolute_directions(); });
            for (std::size_t i = 0; i + 1 < l.size(); ++i) { put(l.has_length(i), [&] { return l.length(i); }); put(l.has_azimuth(i), [&] { return l.azimuth(i); }); }
            for (std::size_t i = 0; i + 2 < l.size(); ++i) { put(l.has_direction(i), [&] { return l.direction(i); }); put(l.has_direction(i), [&] { return l.absolute_direction(i); }); }
            return a;
        }
        template<typename Net> J observe(Net &net) {
            auto &g = net.graph();
            auto &th = net.graph_helper().tag_helper();
            J ns = J::arr(), es = J::arr();
            const auto vv = g.vertices_view();
            for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
                const auto &v = vv[it].get();
                ns.add(J::obj().kv("id", (long) v.id).kv("p", pt(v.point)).kv("ix", (long) g.vertex_index(it))
                        .kv("o", (long) g.out_degree(it)).kv("tags", tags(th, th.node_tags(v.id))));
            }
            const auto ev = g.edges_view();
            for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
                const auto &e = ev[it].get();
                J ls = J::arr();
                for (const auto &p : e.rich_line.line()) ls.add(pt(p));
                es.add(J::obj().kv("id", (long) e.id).kv("s", (long) g.vertex_index(g.source(it))).kv("t", (long) g.vertex_index(g.target(it)))
                        .kv("ix", (long) g.edge_index(it)).kv("has", (bool) e.rich_line.has_length())
                        .kv("len", e.rich_line.has_length() ? (long) std::llround(e.rich_line.length() * 100) : -1)
                        .kv("ls", ls).kv("tags", tags(th, th.edge_tags(e.id))).kv("ms", measures(e.rich_line)));
            }
            return J::obj().kv("ns", ns).kv("es", es);
        }
        template<typename Net> J ask(Net &net, const Query &q) {
            auto &g = net.graph();
            const auto &a = q.a;
            const auto P = [&](int i) { return point_t{(double) a[i], (double) a[i + 1]}; };
            using segment_t = typename Net::segment_type;
            J r = J::arr();
            const auto vi = [&](const auto &v) { return (long) g.vertex_index(v); };
            const auto ei = [&](const auto &e) { return (long) g.edge_index(e); };
            const auto points = [&](const auto &res) { for (const auto &x : res) r.add(J::arr().add(vi(x.second)).add(pt(x.first))); };
            const auto segments = [&](const auto &res) {
                for (const auto &x : res) r.add(J::arr().add(ei(x.second.first)).add((long) x.second.second).add(pt(x.first.first)).add(pt(x.first.second)));
            };
            using box_t = bg::model::box<point_t>;
            if (q.q == "pbox") points(net.query_points(bg::index::intersects(box_t{P(0), P(2)})));
            else if (q.q == "pnear") points(net.query_points(bg::index::nearest(P(0), (unsigned) a[2])));
            else if (q.q == "sbox") segments(net.query_segments(bg::index::intersects(box_t{P(0), P(2)})));
            else if (q.q == "ubox") for (const auto &e : net.query_segments_unique(bg::index::intersects(box_t{P(0), P(2)}))) r.add(ei(e));
            else if (q.q == "qbox") for (const auto &p : net.query_segments_points(bg::index::intersects(box_t{P(0), P(2)}))) r.add(pt(p));
            else if (q.q == "snear") segments(net.query_segments(bg::index::nearest(P(0), (unsigned) a[2])));
            else if (q.q == "node") for (const auto &v : net.find_node(a[0])) r.add(vi(v));
            else if (q.q == "edge") for (const auto &e : net.find_edge(a[0])) r.add(ei(e));
            else if (q.q == "pin") { const auto x = net.point_in_nodes(P(0)); r.add(x.first ? vi(x.second) : -1); }
            else if (q.q == "ein") { const auto x = net.point_in_edges(P(0)); r.add(x.first ? ei(x.second.first) : -1).add(x.first ? (long) x.second.second : -1); }
            else if (q.q == "fit") { const auto x = net.fitting_edge(segment_t{P(0), P(2)}); r.add(x.first ? ei(x.second) : -1); }
            else if (q.q == "bounds") { if (not net.points_index().empty()) { const auto b = net.bounds(); r.add(pt(b.min_corner())).add(pt(b.max_corner())); } }
            else std::abort();
            return r;
        }
        template<typename Net> J ask_all(Net &net, const std::vector<Query> &qs) {
            J r = J::arr();
            for (const auto &q : qs) r.add(ask(net, q));
            return r;
        }
        void fill(imp_t &net, const std::vector<std::string> &lines, J &ns, J &es) {
            using tag_vector = typename imp_t::tag_helper_type::tag_vector_type;
            auto &th = net.graph_helper().tag_helper();
            auto &g = net.graph();
            std::vector<long> number;                     // of the nodes that stay
            std::vector<bool> gone;
            std::vector<typename imp_t::edge_descriptor> gone_edges;
            long next = 0;
            for (const auto &l : lines) {
                std::istringstream in{l};
                std::string op; in >> op;
                long id; in >> id;
                const bool drop = op.size() > 1;            // removed again
                const auto tg = [&](std::istream &in, const auto &f) {
                    size_t n; in >> n; in.get();
                    J a = J::arr();
                    std::vector<std::uint64_t> ids;
                    for (size_t i = 0; i < n; ++i) {
                        std::string k, v; std::getline(in, k, '\t'); std::getline(in, v, '\t');
                        ids.push_back(th.id(k, v)); a.add(J::arr().add(k).add(v));
                    }
                    if (not ids.empty()) { tag_vector v = th.tag_storage().tags(); for (auto i : ids) v.emplace_back(i); f(std::move(v)); }
                    return a;
                };
                if (op[0] == 'N') {
                    long x, y; in >> x >> y;
                    const J a = tg(in, [&](tag_vector &&v) { th.set_node_tags(id, std::move(v)); });
                    struct nd { std::uint64_t id; point_t point; } n{(std::uint64_t) id, point_t{(double) x, (double) y}};
                    net.graph_helper().add_vertex_with_index_mapping(n);
                    number.push_back(drop ? -1 : next++); gone.push_back(drop);
                    if (not drop) ns.add(J::obj().kv("id", id).kv("p", J::arr().add(x).add(y)).kv("tags", a));
                } else {
                    long s, t; in >> s >> t;
                    auto p = read_points(in);
                    typename imp_t::line_type line;
                    J ls = J::arr();
                    for (auto &q : p) { line.emplace_back((double) q[0], (double) q[1]); ls.add(J::arr().add(q[0]).add(q[1])); }
                    const J a = tg(in, [&](tag_vector &&v) { th.set_edge_tags(id, std::move(v)); });
                    const auto desc = net.graph_helper().add_edge(s, t, typename imp_t::edge_data_type{(std::uint64_t) id, typename imp_t::rich_line_type{line}});
                    if (drop) gone_edges.push_back(desc);
                    else es.add(J::obj().kv("id", id).kv("s", number.at(s)).kv("t", number.at(t)).kv("ls", ls).kv("tags", a));
                }
            }
            for (const auto &d : gone_edges) g.remove_edge(d);
            std::vector<typename imp_t::vertex_descriptor> vs;
            { const auto vv = g.vertices_view(); for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) vs.push_back(it); }
            for (std::size_t i = 0; i < vs.size(); ++i) if (gone[i]) { g.clear_vertex(vs[i]); g.remove_vertex(vs[i]); }
            if (next != (long) gone.size() or not gone_edges.empty()) g.reindex();
        }
    }
    J MM2V_NAME(Stored &s) {
        J e = J::obj();
        {
            imp_t imp;
            J ns = J::arr(), es = J::arr();
            fill(imp, s.lines, ns, es);
            e.kv("ns", ns).kv("es", es);
            auto var = app::create_compatible_network<MM2V_CS>(s.p);
            std::visit([&](auto &net) {
                net->graph_helper().from_adjacency_list(imp.graph_helper(), imp.tag_helper());
                net->build_spatial_indices();
                e.kv("before", observe(*net)).kv("pre", ask_all(*net, s.queries));
                app::save_network(*net, s.p);
                net.reset();
            }, var);
        }
        J fs = J::arr();
        std::set<std::string> names;
        for (const auto &f : std::filesystem::directory_iterator(s.m.input.input)) names.insert(f.path().filename().string());
        for (const auto &n : names) fs.add(n);
        e.kv("files", fs);
        auto var = open_any(s.m);
        std::visit([&](auto &net) {
            using net_t = std::decay_t<decltype(*net)>;
            if constexpr (std::is_same_v<typename net_t::coordinate_system_type, MM2V_CS>) {
                app::load_network(*net, s.m);
                e.kv("after", observe(*net)).kv("post", ask_all(*net, s.queries));
                net.reset();
            } else std::abort();
        }, var);
        return e;
    }
}
