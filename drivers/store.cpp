// Memory-mapped graph, tag and index stores (C08): growth at any write, closing, reopening, fresh processes.
//   new KIND szG szT CLOSE                KIND: mem | mmap, CLOSE: keep | shrink | destroy
//   node id x y MODE n tags* | edge id s t MODE n tags* npts (x y)*       MODE: none | list | clone
//   ballast G|T|S|U|I|B k   leave k free bytes (S: static graph, U: static tags, I: index, B: index build) before the next use
//   grow G|T | close HOW | openI           HOW: end | crash;  openI: open the import stores read-only
//   static szS szU szI szB CLOSE           build the static network and its index in their own stores
//   closeS HOW | readS | childS | childI | otherS version|compiler
#define MM2V_MMAP
#include "network_net.hpp"
#include <set>
#include <osmium/builder/osm_object_builder.hpp>
using namespace mm2v;
using namespace map_matching_2;
using namespace map_matching_2::io::memory_mapped::storage;
namespace fs = std::filesystem;

using net_s = MM2_NETWORK(MM2_GRAPH_HELPER(MM2_CARTESIAN, MM2_MMAP_TYPES, MM2_TAG_HELPER(MM2_MMAP_TYPES)),
        MM2_INDEX_HELPER(MM2_CARTESIAN, MM2_MMAP_TYPES, MM2_MMAP_TYPES));
using net_r = MM2_NETWORK(MM2_GRAPH_HELPER(MM2_CARTESIAN, MM2_MMAP_TYPES, MM2_TAG_HELPER(MM2_MMAP_TYPES)),
        MM2_INDEX_HELPER_READ_ONLY(MM2_CARTESIAN, MM2_MMAP_TYPES));
using TM = MM2_IMPORT_TAG_HELPER(MM2_MEMORY_TYPES);

static std::string self;
static std::string dir() { return (fs::current_path() / "stores.d").string(); }
static std::uint64_t digest(const std::vector<std::string> &names) {
    std::uint64_t h = 1469598103934665603ull;
    for (auto &n : names) {
        std::ifstream f(dir() + "/" + n, std::ios::binary);
        char b[65536];
        while (f.read(b, sizeof b), f.gcount() > 0) for (long i = 0; i < f.gcount(); ++i) h = (h ^ (unsigned char) b[i]) * 1099511628211ull;
        h = (h ^ (f.is_open() ? 7 : 9)) * 1099511628211ull;
    }
    return h;
}
static std::string kk(long t) { return "k" + std::to_string(t) + std::string(t % 3 ? 0 : 40, 'y'); }
static std::string vv(long t) { return "v" + std::to_string(t) + std::string(t % 2 ? 30 : 0, 'x'); }
template<typename TH, typename Tags> static J tags_of(const TH &th, const Tags &tags) {
    J a = J::arr();
    for (const auto &t : tags) {
        auto kv = th.tag(t);
        long n = -1;
        for (long i = 0; i < 40; ++i) if (kk(i) == kv.first && vv(i) == kv.second) n = i;
        a.add(n);
    }
    return a;
}
template<typename Net> static J graph_obs(Net &net) {
    const auto &g = net.graph();
    const auto &th = net.graph_helper().tag_helper();
    J ns = J::arr(), es = J::arr();
    const auto v = g.vertices_view();
    for (auto it = v.begin(); it != v.end(); it = v.next(it)) {
        const auto &d = v[it].get();
        ns.add(J::arr().add((long) d.id).add(I(d.point.template get<0>())).add(I(d.point.template get<1>())).add(tags_of(th, th.node_tags(d.id))));
    }
    const auto e = g.edges_view();
    for (auto it = e.begin(); it != e.end(); it = e.next(it)) {
        const auto &d = e[it].get();
        J p = J::arr();
        for (const auto &q : d.rich_line.line()) p.add(J::arr().add(I(q.template get<0>())).add(I(q.template get<1>())));
        es.add(J::arr().add((long) d.id).add((long) g.vertex_index(g.source(it)) + 1).add((long) g.vertex_index(g.target(it)) + 1).add(p)
                .add(tags_of(th, th.edge_tags(d.id))));
    }
    return J::obj().kv("nodes", ns).kv("edges", es);
}
template<typename Net> static J static_obs(Net &net) {
    J j = graph_obs(net);
    J p = J::arr(), s = J::arr();
    for (const auto &x : net.points_index())
        p.add(J::arr().add(I(x.first.template get<0>())).add(I(x.first.template get<1>())).add((long) net.graph().vertex_index(x.second) + 1));
    for (const auto &x : net.segments_index())
        s.add(J::arr().add((long) x.second.first + 1).add((long) x.second.second + 1)
                .add(I(x.first.first.template get<0>())).add(I(x.first.first.template get<1>()))
                .add(I(x.first.second.template get<0>())).add(I(x.first.second.template get<1>())));
    return j.kv("points", p).kv("segments", s);
}
template<typename SM> static void leave(SM *sm, long k) {
    if (k < 0) return;
    void *keep = k > 0 ? sm->allocate(k, std::nothrow) : nullptr;
    for (std::size_t n = 1u << 24; n >= 8; n /= 2) while (sm->allocate(n, std::nothrow)) {}
    if (keep) sm->deallocate(keep);
}
static net_r open_static() {
    using GH = net_r::graph_helper_type; using IH = net_r::index_helper_type;
    return net_r{GH{GH::graph_storage_type{dir(), "S.bin"}, GH::tag_helper_type{GH::tag_helper_type::tag_storage_type{dir(), "U.bin"}}},
            IH{IH::index_storage_type{dir(), "I.bin"}}};
}
static net_mmap open_import() {
    using GH = net_mmap::graph_helper_type;
    return net_mmap{GH{GH::graph_storage_type{dir(), "G.bin"}, GH::tag_helper_type{GH::tag_helper_type::tag_storage_type{dir(), "T.bin"}}}};
}
static const std::vector<std::string> SF = {"S.bin", "U.bin", "I.bin"}, GF = {"G.bin", "T.bin"};

struct H : Handler {
    std::unique_ptr<net_mem> m;
    std::unique_ptr<net_mmap> g;
    std::unique_ptr<net_s> s;
    std::map<std::string, long> ball;
    void begin() override { end(); fs::create_directories(dir()); }
    void end() override { m.reset(); g.reset(); s.reset(); ball.clear(); fs::remove_all(dir()); }

    long ballast(const std::string &k) { auto r = ball.count(k) ? ball[k] : -1; ball.erase(k); return r; }
    void fill() {
        long a = ballast("G"), b = ballast("T");
        if (g) {
            leave(g->graph_helper().graph_storage().allocator().get_segment_manager(), a);
            leave(g->graph_helper().tag_helper().tag_storage().allocator().get_segment_manager(), b);
        }
    }
    template<typename F> static void tagged(const std::string &mode, long id, bool node, const std::vector<long> &tags, const F &f) {
        if (mode == "list") {
            osmium::memory::Buffer buf{4096, osmium::memory::Buffer::auto_grow::yes};
            {
                osmium::builder::NodeBuilder nb{buf};
                nb.set_user("x");
                osmium::builder::TagListBuilder tb{nb};
                for (auto t : tags) tb.add_tag(kk(t), vv(t));
            }
            buf.commit();
            f(buf.get<osmium::Node>(0).tags());
        } else {
            TM th;
            th.id("other", "tag");
            std::vector<std::uint64_t> ids;
            for (auto t : tags) ids.push_back(th.id(kk(t), vv(t)));
            if (node) th.copy_node_tags(id, ids); else th.copy_edge_tags(id, ids);
            f(th);
        }
    }
    template<typename Net> void node(Net &net, long id, long x, long y, const std::string &mode, const std::vector<long> &tags) {
        struct nd { std::uint64_t id; typename Net::point_type point; } n{(std::uint64_t) id, typename Net::point_type{(double) x, (double) y}};
        if (mode == "none") net.graph_helper().add_vertex_with_index_mapping(n);
        else tagged(mode, id, true, tags, [&](const auto &t) { net.graph_helper().add_vertex_with_index_mapping(n, t); });
    }
    template<typename Net> void edge(Net &net, long id, long a, long b, const std::string &mode, const std::vector<long> &tags, const std::vector<std::array<long, 2>> &p) {
        using mem_edge = typename net_mem::edge_data_type;
        typename net_mem::line_type line;
        for (auto &q : p) line.emplace_back((double) q[0], (double) q[1]);
        mem_edge e{(std::uint64_t) id, typename net_mem::rich_line_type{line}};
        if (mode == "none") net.graph_helper().add_edge(a - 1, b - 1, e);
        else tagged(mode, id, false, tags, [&](const auto &t) { net.graph_helper().add_edge(a - 1, b - 1, e, t); });
    }
    template<typename F> void imp(const F &f) { if (g) f(*g); else f(*m); }
    J obs() { J j = J::obj(); imp([&](auto &n) { j = graph_obs(n); }); return j; }
    void child(const char *what, J j) {
        std::string cmd = self + " --dump " + what, out;
        std::fflush(stdout);
        auto &names = std::string(what) == "static" ? SF : GF;
        auto before = digest(names);
        FILE *p = popen(cmd.c_str(), "r");
        char b[4096]; std::size_t r;
        while ((r = fread(b, 1, sizeof b, p)) > 0) out.append(b, r);
        int rc = pclose(p);
        j.kv("same", before == digest(names)).kv("rc", rc);
        while (!out.empty() && out.back() == '\n') out.pop_back();
        if (out.empty()) out = "{}";
        std::string e = j.str(); e.pop_back();
        std::printf("%s,\"obs\":%s}\n", e.c_str(), out.c_str());
    }
    std::string how;
    void line(const std::string &op, std::istringstream &in) override {
        J j = J::obj().kv("op", op);
        if (op == "ballast") { std::string k; long v; in >> k >> v; ball[k] = v; return; }
        if (op == "new") {
            std::string kind; std::size_t a, b; in >> kind >> a >> b >> how;
            m.reset(); g.reset();
            if (kind == "mem") m = std::make_unique<net_mem>();
            else {
                using GH = net_mmap::graph_helper_type;
                auto d = how == "destroy" ? DESTROY_ON_CLOSE : DO_NOT_DESTROY_ON_CLOSE; auto sh = how == "shrink" ? SHRINK_ON_CLOSE : DO_NOT_SHRINK_ON_CLOSE;
                g = std::make_unique<net_mmap>(GH{GH::graph_storage_type{dir(), "G.bin", DESTROY_AND_CREATE, a, d, sh},
                        GH::tag_helper_type{GH::tag_helper_type::tag_storage_type{dir(), "T.bin", DESTROY_AND_CREATE, b, d, sh}}});
            }
            emit(j.kv("close", how).kv("mapped", kind != "mem").kv("obs", obs()));
            return;
        }
        if (op == "node") {
            long id, x, y; std::string mode; in >> id >> x >> y >> mode;
            auto t = read_longs(in);
            fill();
            imp([&](auto &n) { node(n, id, x, y, mode, t); });
            emit(j.kv("id", id).kv("x", x).kv("y", y).kv("tags", mode == "none" ? std::vector<long>{} : t).kv("obs", obs()));
        } else if (op == "edge") {
            long id, a, b; std::string mode; in >> id >> a >> b >> mode;
            auto t = read_longs(in); auto p = read_points(in);
            fill();
            imp([&](auto &n) { edge(n, id, a, b, mode, t, p); });
            emit(j.kv("id", id).kv("s", a).kv("t", b).kv("pts", p).kv("tags", mode == "none" ? std::vector<long>{} : t).kv("obs", obs()));
        } else if (op == "grow") {
            std::string k; in >> k;
            if (g) { if (k == "G") g->graph_helper().graph_storage().grow(); else g->graph_helper().tag_helper().tag_storage().grow(); }
            emit(J::obj().kv("op", "keep").kv("obs", obs()));
        } else if (op == "close") {
            std::string h; in >> h;
            if (h == "crash") { m.release(); g.release(); } else { m.reset(); g.reset(); }
            emit(j.kv("how", h).kv("exists", fs::exists(dir() + "/G.bin") && fs::exists(dir() + "/T.bin")).kv("gone", !fs::exists(dir() + "/G.bin") && !fs::exists(dir() + "/T.bin")));
        } else if (op == "openI") {
            auto before = digest(GF);
            bool ok = true;
            J o = J::obj();
            try { auto n = open_import(); o = graph_obs(n); } catch (std::exception &) { ok = false; }
            emit(j.kv("ok", ok).kv("same", before == digest(GF)).kv("obs", o));
        } else if (op == "static") {
            std::size_t a, b, c, d; std::string h; in >> a >> b >> c >> d >> h;
            using GH = net_s::graph_helper_type; using IH = net_s::index_helper_type; using BH = IH::index_build_helper_type;
            auto sh = h == "shrink" ? SHRINK_ON_CLOSE : DO_NOT_SHRINK_ON_CLOSE;
            s.reset();
            s = std::make_unique<net_s>(GH{GH::graph_storage_type{dir(), "S.bin", DESTROY_AND_CREATE, a, DO_NOT_DESTROY_ON_CLOSE, sh},
                    GH::tag_helper_type{GH::tag_helper_type::tag_storage_type{dir(), "U.bin", DESTROY_AND_CREATE, b, DO_NOT_DESTROY_ON_CLOSE, sh}}},
                    IH{IH::index_storage_type{dir(), "I.bin", DESTROY_AND_CREATE, c, DO_NOT_DESTROY_ON_CLOSE, sh},
                       BH{BH::index_build_storage_type{dir(), "B.bin", DESTROY_AND_CREATE, d, DESTROY_ON_CLOSE}}});
            leave(s->graph_helper().graph_storage().allocator().get_segment_manager(), ballast("S"));
            leave(s->graph_helper().tag_helper().tag_storage().allocator().get_segment_manager(), ballast("U"));
            leave(s->index_helper().index_storage().allocator().get_segment_manager(), ballast("I"));
            leave(s->index_helper().index_build_helper().index_build_storage().allocator().get_segment_manager(), ballast("B"));
            std::cout.setstate(std::ios::failbit);      // growth is reported there
            imp([&](auto &n) { s->graph_helper().from_adjacency_list(n.graph_helper(), n.graph_helper().tag_helper()); });
            s->build_spatial_indices();
            emit(j.kv("obs", static_obs(*s)));
        } else if (op == "closeS") {
            std::string h; in >> h;
            if (h == "crash") s.release(); else s.reset();
            emit(j.kv("how", h).kv("exists", fs::exists(dir() + "/S.bin") && fs::exists(dir() + "/U.bin") && fs::exists(dir() + "/I.bin"))
                    .kv("gone", h == "crash" || !fs::exists(dir() + "/B.bin")));
        } else if (op == "readS") {
            auto before = digest(SF);
            J o = J::obj();
            bool refused = false;
            {
                auto n = open_static();
                try { n.graph_helper().tag_helper().id("new", "tag"); } catch (std::runtime_error &) { refused = true; }
                o = static_obs(n);
            }
            emit(j.kv("same", before == digest(SF)).kv("rc", refused ? 0 : 1).kv("obs", o));
        } else if (op == "childS") child("static", J::obj().kv("op", "readS"));
        else if (op == "otherS") {      // another build (version|compiler) reads the static stores
            std::string what; in >> what;
            std::fflush(stdout);
            auto before = digest(SF);
            int rc = std::system((self + "-" + what + " --dump static > /dev/null 2>&1").c_str());
            emit(j.kv("rc", WEXITSTATUS(rc)).kv("same", before == digest(SF)));
        }
        else if (op == "childI") child("import", J::obj().kv("op", "openI").kv("ok", true));
        else std::abort();
    }
};
int main(int argc, char **argv) {
    self = fs::read_symlink("/proc/self/exe").string();
    if (argc == 3 && std::string(argv[1]) == "--dump") {
        try {
            if (std::string(argv[2]) == "static") { auto n = open_static(); emit(static_obs(n)); }
            else { auto n = open_import(); emit(graph_obs(n)); }
        } catch (std::runtime_error &) { return 3; }
        std::fflush(stdout);
        return 0;
    }
    H h; return mm2v::run(argc, argv, h);
}
