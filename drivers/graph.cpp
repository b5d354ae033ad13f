// Driver for C01 (mutable graph histories), C02 (compression): replays scripts on graph::adjacency_list.
#include <list>
#include <set>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/list.hpp>
#include "graph/adjacency_list.hpp"
#include "graph/compressed_sparse_row.hpp"
#include "mm2v.hpp"
#ifdef MM2V_STORE
#include "io/serialization/serializer.hpp"
#include "io/serialization/deserializer.hpp"
#include <filesystem>
#include <unistd.h>
// written to a file and read back
template<typename T> static void through_file(const T &from, T &to) {
    const auto f = (std::filesystem::current_path() / ("dump-" + std::to_string(::getpid()) + ".bin")).string();
    map_matching_2::io::serialization::serializer{f, from}.write();
    map_matching_2::io::serialization::deserializer{f, to}.read();
    std::filesystem::remove(f);
}
#endif
using namespace mm2v;
namespace g = map_matching_2::graph;

// allocator that fails at the k-th allocation from now
static long fail_in = -1;
template<typename T> struct failing {
    using value_type = T;
    failing() = default;
    template<typename U> failing(const failing<U> &) {}
    T *allocate(std::size_t n) {
        if (fail_in > 0 && --fail_in == 0) { fail_in = -1; throw std::bad_alloc{}; }
        return std::allocator<T>{}.allocate(n);
    }
    void deallocate(T *p, std::size_t n) { std::allocator<T>{}.deallocate(p, n); }
    template<typename U> bool operator==(const failing<U> &) const { return true; }
};

struct Base {
    virtual ~Base() = default;
    virtual bool op(const std::string &op, std::istringstream &in) = 0;
};

template<typename Dir, template<typename, typename> typename C, bool Rand>
struct Impl : Base {
    using G = g::adjacency_list<C, C, Dir, int, int, C, failing<void>>;
    using CSR = g::compressed_sparse_row<std::vector, std::vector, g::directional, int, int, std::allocator<void>>;
    static constexpr bool bi = G::is_bidirectional_v;
    static constexpr bool und = G::is_undirected_v;
    G graph;
    std::map<int, typename G::vertex_descriptor> V;
    std::map<int, typename G::edge_descriptor> E;
    int nv = 0, ne = 0;

    template<typename Gr> J project(Gr &gr) {
        J vs = J::arr(), es = J::arr();
        const auto vv = gr.vertices_view();
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
            J o = J::arr(), i = J::arr(), rev = J::arr();
            const auto ov = gr.out_edges_view(it);
            for (auto oi = ov.begin(); oi != ov.end(); oi = ov.next(oi)) {
                o.add(gr.get_edge_data(ov[oi]));
                if constexpr (und) if (gr.is_undirected_reverse(it, ov[oi])) rev.add(gr.get_edge_data(ov[oi]));
            }
            long ind = 0, deg = gr.out_degree(it);
            if constexpr (bi) {
                const auto iv = gr.in_edges_view(it);
                for (auto ii = iv.begin(); ii != iv.end(); ii = iv.next(ii)) i.add(gr.get_edge_data(iv[ii]));
                ind = gr.in_degree(it); deg = gr.degree(it);
            }
            vs.add(J::obj().kv("d", gr.get_vertex_data(it)).kv("i", (long) gr.vertex_index(it)).kv("o", o).kv("n", i)
                .kv("od", (long) gr.out_degree(it)).kv("id", ind).kv("dg", deg).kv("rv", rev));
        }
        const auto ev = gr.edges_view();
        for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
            es.add(J::obj().kv("d", gr.get_edge_data(it)).kv("i", (long) gr.edge_index(it))
                .kv("s", gr.get_vertex_data(gr.source(it))).kv("t", gr.get_vertex_data(gr.target(it)))
                .kv("l", gr.is_self_loop(it)));
        }
        return J::obj().kv("vs", vs).kv("es", es).kv("nv", (long) vv.size()).kv("ne", (long) ev.size());
    }

    J csr_view(CSR &c) {
        J vs = J::arr(), es = J::arr();
        const CSR &cc = c;
        const auto vv = c.vertices_view();
        for (std::size_t v = vv.begin(); v != vv.end(); v = vv.next(v)) {
            J o = J::arr();
            const auto ov = cc.out_edges_view(v);
            for (auto e = ov.begin(); e != ov.end(); e = ov.next(e)) {
                // access by descriptor, through the view and by position must name the same edge
                if (ov[e].get() != cc.get_edge_data(e) || c.get_edge(e).source != v) o.add(-1);
                o.add(ov[e].get());
            }
            long fr = -1;
            if (!ov.empty()) fr = ov.front().get();
            vs.add(J::obj().kv("d", cc.get_vertex_data(v)).kv("o", o).kv("f", fr)
                .kv("od", (long) cc.out_degree(v)).kv("sz", (long) ov.size()).kv("em", ov.empty())
                .kv("i", (long) cc.vertex_index(v)));
        }
        const auto ev = cc.edges_view();
        for (std::size_t e = ev.begin(); e != ev.end(); e = ev.next(e))
            es.add(J::obj().kv("d", cc.get_edge_data(e)).kv("s", (long) cc.source(e)).kv("t", (long) cc.target(e))
                .kv("sd", cc.get_vertex_data(cc.source(e))).kv("td", cc.get_vertex_data(cc.target(e))).kv("i", (long) cc.edge_index(e)));
        return J::obj().kv("vs", vs).kv("es", es).kv("nv", (long) vv.size()).kv("ne", (long) ev.size());
    }

    void rebind(G &n) {
        // data values are the logical ids, so handles can be recovered from the graph's own enumeration
        V.clear(); E.clear();
        auto vv = n.vertices_view();
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) V[n.get_vertex_data(it)] = it;
        auto ev = n.edges_view();
        for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) E[n.get_edge_data(it)] = it;
    }

    bool op(const std::string &op_, std::istringstream &in) override {
        const bool quiet = op_[0] == '~';           // perform, but do not observe
        const std::string op = quiet ? op_.substr(1) : op_;
        int a = 0, b = 0; long k = 0;
        std::string res = "ok";
        J ev = J::obj();
        ev.kv("op", op);
        if (op == "av") { ev.kv("a", ++nv); V[nv] = graph.add_vertex(int(nv)); }
        else if (op == "ae") { in >> a >> b; ev.kv("a", a).kv("b", b).kv("id", ++ne); E[ne] = graph.add_edge(V.at(a), V.at(b), int(ne)); }
        else if (op == "avf" || op == "aef") {
            // addition whose k-th allocation fails; may succeed when fewer allocations happen
            if (op == "avf") { in >> k; ev.kv("a", nv + 1); } else { in >> a >> b >> k; ev.kv("a", a).kv("b", b).kv("id", ne + 1); }
            ev.kv("k", k);
            fail_in = k;
            try {
                if (op == "avf") { auto d = graph.add_vertex(int(nv + 1)); V[++nv] = d; }
                else { auto d = graph.add_edge(V.at(a), V.at(b), int(ne + 1)); E[++ne] = d; }
            } catch (const std::bad_alloc &) { res = "failed"; }
            fail_in = -1;
        }
        else if (op == "obs") {}
        else if (op == "cp" || op == "as") {
            if (op == "cp") { G copy{graph}; graph = std::move(copy); rebind(graph); }
            else { G n; auto x = n.add_vertex(77); n.add_edge(x, x, 78); n = graph; graph = G{}; graph = n; rebind(graph); }
        }
#ifdef MM2V_STORE
        else if (op == "dump") {
            if constexpr (Rand) { G read; through_file(graph, read); graph = std::move(read); rebind(graph); }
            CSR c, read; c.from_adjacency_list(graph);
            through_file(c, read);
            ev.kv("csr", csr_view(read));
        }
#endif
        else if (op == "eq") {
            in >> a >> b; ev.kv("a", a).kv("b", b).kv("same", graph.is_same_vertex(V.at(a), V.at(b)));
        }
        else if constexpr (!Rand) {
            if (op == "rv") { in >> a; ev.kv("a", a);
                try { graph.remove_vertex(V.at(a)); V.erase(a); } catch (const std::exception &) { res = "refused"; } }
            else if (op == "re") { in >> a; ev.kv("a", a); auto d = E.at(a); graph.remove_edge(d); E.erase(a); }
            else if (op == "rb") { in >> a >> b; ev.kv("a", a).kv("b", b); graph.remove_edge(V.at(a), V.at(b)); }
            else if (op == "cv") { in >> a; ev.kv("a", a); graph.clear_vertex(V.at(a)); }
            else if (op == "ri") { graph.reindex(); }
            else if (op == "bake") {
                CSR c; c.from_adjacency_list(graph);
                ev.kv("csr", csr_view(c));
                CSR c2{c}; CSR c3; c3 = c2; CSR c4{std::move(c2)};
                ev.kv("csr2", csr_view(c3)).kv("csr3", csr_view(c4));
            }
            else return false;
        } else {
            if (op == "bake") {
                CSR c; c.from_adjacency_list(graph);
                ev.kv("csr", csr_view(c));
                CSR c2{c}; CSR c3; c3 = c2; CSR c4{std::move(c2)};
                ev.kv("csr2", csr_view(c3)).kv("csr3", csr_view(c4));
            } else return false;
        }
        ev.kv("res", res);
        if (!quiet) ev.kv("obs", project(graph));
        if (!quiet && op != "bake") { const G &cg = graph; ev.kv("obc", project(cg)); }
        emit(ev);
        return true;
    }
};

template<typename T, typename A> using vec = std::vector<T, A>;
template<typename T, typename A> using lst = std::list<T, A>;

struct H : Handler {
    std::unique_ptr<Base> b;
    void begin() override { b.reset(); }
    void line(const std::string &op, std::istringstream &in) override {
        if (op == "new") {
            std::string k; in >> k;
            if (k == "dir") b = std::make_unique<Impl<g::directional, lst, false>>();
            else if (k == "bi") b = std::make_unique<Impl<g::bidirectional, lst, false>>();
            else if (k == "und") b = std::make_unique<Impl<g::undirected, lst, false>>();
            else if (k == "vdir") b = std::make_unique<Impl<g::directional, vec, true>>();
            else if (k == "vbi") b = std::make_unique<Impl<g::bidirectional, vec, true>>();
            else if (k == "vund") b = std::make_unique<Impl<g::undirected, vec, true>>();
            else std::abort();
            emit(J::obj().kv("op", "new").kv("kind", k));
        } else if (!b->op(op, in)) { std::fprintf(stderr, "unknown op %s\n", op.c_str()); std::abort(); }
    }
};
int main(int c, char **v) { H h; return run(c, v, h); }
