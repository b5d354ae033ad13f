// Tag stores (C07): in memory and memory mapped, with storage running out at a chosen point of every operation.
//   new KA KB SIZE            kinds: mem, impmem, mmap, imp
//   id S k v | set S m n cnt (k v)* | list S m n cnt (k v)* | copy S m n cnt (k v)* | clone S m n | merge S n o
//   fin S | grow S | ballast k (leave k free bytes before the next operation) | reopen S shrink | child S
#include "mm2v.hpp"
#include <filesystem>
#include <set>
#include <variant>
#include <osmium/builder/osm_object_builder.hpp>
#include "types/io/memory_mapped/storage/tag_storage.hpp"
#include "types/io/helper/tag_helper.hpp"
using namespace mm2v;
using namespace map_matching_2;
using namespace map_matching_2::io::memory_mapped::storage;
constexpr int NMAX = 5;

using T_mem = MM2_TAG_HELPER(MM2_MEMORY_TYPES);
using T_impmem = MM2_IMPORT_TAG_HELPER(MM2_MEMORY_TYPES);
using T_mmap = MM2_TAG_HELPER(MM2_MMAP_TYPES);
using T_imp = MM2_IMPORT_TAG_HELPER(MM2_MMAP_TYPES);
using V = std::variant<std::monostate, std::unique_ptr<T_mem>, std::unique_ptr<T_impmem>, std::unique_ptr<T_mmap>, std::unique_ptr<T_imp>>;

static std::string text(char c, int i) { return std::string(1, c) + std::to_string(i) + std::string(i % 2 ? 40 + i : 0, c); }
static long num(const std::string &s, char c) {
    for (int i = 0; i < 200; ++i) if (s == text(c, i)) return i;
    return -1;
}
template<typename TH> static J lists(const TH &th, bool nodes) {
    J a = J::arr();
    for (int n = 1; n <= NMAX; ++n) {
        J b = J::arr();
        for (auto t : nodes ? th.node_tags(n) : th.edge_tags(n)) b.add((long) t);
        a.add(b);
    }
    return a;
}
template<typename TH> static J observe(const TH &th) {
    // all identities that anything of the store mentions
    std::set<std::uint64_t> ids;
    for (auto &x : th.tag_storage().tags_map()) ids.insert(x.first);
    for (int n = 1; n <= NMAX; ++n) { for (auto t : th.node_tags(n)) ids.insert(t); for (auto t : th.edge_tags(n)) ids.insert(t); }
    J t = J::arr();
    for (auto i : ids) {
        long k = -1, v = -1;
        try { auto kv = th.tag(i); k = num(kv.first, 'k'); v = num(kv.second, 'v'); } catch (std::exception &) {}
        t.add(J::arr().add((long) i).add(k).add(v));
    }
    return J::obj().kv("tags", t).kv("nodes", lists(th, true)).kv("edges", lists(th, false)).kv("fin", th.tag_storage().is_finalized());
}
static std::string dir() { return (std::filesystem::current_path() / "tagstore.d").string(); }
template<typename TH> static std::unique_ptr<TH> create(const std::string &file, std::size_t size) {
    using S = typename TH::tag_storage_type;
    if constexpr (io::helper::is_mmap_tag_helper<TH>) return std::make_unique<TH>(S{dir(), file, DESTROY_AND_CREATE, size});
    else return std::make_unique<TH>();
}

static std::string self;
struct H : Handler {
    struct Store { V v; std::string kind, file; bool ro = false; } st[2];
    long ballast = -1;
    void begin() override { end(); std::filesystem::create_directories(dir()); }
    void end() override { for (auto &s : st) s = Store{}; std::filesystem::remove_all(dir()); ballast = -1; }
    static void open(Store &s, std::size_t size) {
        if (s.kind == "mem") s.v = create<T_mem>(s.file, size);
        else if (s.kind == "impmem") s.v = create<T_impmem>(s.file, size);
        else if (s.kind == "mmap") s.v = create<T_mmap>(s.file, size);
        else s.v = create<T_imp>(s.file, size);
    }
    template<typename TH> void fill(TH &th) {
        if (ballast < 0) return;
        if constexpr (io::helper::is_mmap_tag_helper<TH>) {
            if (th.tag_storage().is_finalized()) { ballast = -1; return; }
            auto *sm = th.tag_storage().allocator().get_segment_manager();
            void *keep = ballast > 0 ? sm->allocate(ballast, std::nothrow) : nullptr;
            for (std::size_t n = 1u << 24; n >= 8; n /= 2) while (sm->allocate(n, std::nothrow)) {}
            if (keep) sm->deallocate(keep);
        }
        ballast = -1;
    }
    template<typename F> void on(Store &s, const F &f) {
        std::visit([&](auto &p) { if constexpr (!std::is_same_v<std::decay_t<decltype(p)>, std::monostate>) f(*p); }, s.v);
    }
    static std::vector<std::pair<int, int>> pairs(std::istream &in) {
        int n; in >> n; std::vector<std::pair<int, int>> r(n);
        for (auto &p : r) in >> p.first >> p.second;
        return r;
    }
    void line(const std::string &op, std::istringstream &in) override {
        if (op == "new") {
            std::size_t size; in >> st[0].kind >> st[1].kind >> size;
            st[0].file = "A.bin"; st[1].file = "B.bin";
            for (auto &s : st) open(s, size);
            emit(J::obj().kv("op", "new"));
            return;
        }
        if (op == "ballast") { in >> ballast; return; }
        std::string S; in >> S;
        auto &s = st[S == "B"];
        J j = J::obj();
        j.kv("op", op).kv("s", S);
        bool skip = false;
        on(s, [&](auto &th) {
            using TH = std::decay_t<decltype(th)>;
            if (op == "id") {
                int k, v; in >> k >> v;
                fill(th);
                try { auto r = (long) th.id(text('k', k), text('v', v)); j.kv("k", k).kv("v", v).kv("r", r); }
                catch (std::runtime_error &) { if (!th.tag_storage().is_finalized()) throw; j = J::obj(); j.kv("op", "idr").kv("s", S); }
            } else if (op == "set" || op == "copy") {
                std::string m; int n; in >> m >> n;
                auto ps = pairs(in);
                std::vector<std::uint64_t> ids;
                J a = J::arr();
                for (auto &p : ps) {
                    // identities of tags known to the store
                    for (auto &x : th.tag_storage().tags_map()) {
                        auto kv = th.tag(x.first);
                        if (kv.first == text('k', p.first) && kv.second == text('v', p.second)) { ids.push_back(x.first); a.add((long) x.first); }
                    }
                }
                j.kv("m", m).kv("n", n).kv("ids", a);
                if (op == "copy") {
                    fill(th);
                    if (m == "nodes") th.copy_node_tags(n, ids); else th.copy_edge_tags(n, ids);
                } else {
                    long b = ballast; ballast = -1;
                    while (true) {
                        bool calling = false;
                        try {
                            typename TH::tag_vector_type v = th.tag_storage().tags();
                            for (auto i : ids) v.emplace_back(i);
                            ballast = b;
                            fill(th);
                            calling = true;
                            if (m == "nodes") th.set_node_tags(n, std::move(v)); else th.set_edge_tags(n, std::move(v));
                            break;
                        } catch (boost::interprocess::bad_alloc &) {
                            if (calling) throw;     // from the store itself
                        }
                        if constexpr (io::helper::is_mmap_tag_helper<TH>) th.tag_storage().grow();
                    }
                }
            } else if (op == "list") {
                std::string m; int n; in >> m >> n;
                auto ps = pairs(in);
                osmium::memory::Buffer buf{4096, osmium::memory::Buffer::auto_grow::yes};
                {
                    osmium::builder::NodeBuilder nb{buf};
                    nb.set_user("x");
                    osmium::builder::TagListBuilder tb{nb};
                    for (auto &p : ps) tb.add_tag(text('k', p.first), text('v', p.second));
                }
                buf.commit();
                const auto &tl = buf.get<osmium::Node>(0).tags();
                J a = J::arr();
                for (auto &p : ps) a.add(J::arr().add(p.first).add(p.second));
                j.kv("m", m).kv("n", n).kv("pairs", a);
                fill(th);
                if (m == "nodes") th.set_node_tags(n, tl); else th.set_edge_tags(n, tl);
            } else if (op == "clone") {
                std::string m; int n; in >> m >> n;
                j.kv("o", S == "A" ? "B" : "A").kv("m", m).kv("n", n);
                on(st[S != "B"], [&](auto &o) {
                    fill(th);
                    if (m == "nodes") th.clone_node_tags(n, o); else th.clone_edge_tags(n, o);
                });
            } else if (op == "merge") {
                int n, o; in >> n >> o;
                j.kv("n", n).kv("other", o);
                fill(th);
                th.merge_edge_tags(n, o);
            } else if (op == "fin") {
                // a finalized store cannot grow any more: leave it enough space for what follows
                if constexpr (io::helper::is_mmap_tag_helper<TH>) th.tag_storage().grow();
                th.finalize();
            } else if (op == "grow") {
                if constexpr (io::helper::is_mmap_tag_helper<TH>) th.tag_storage().grow(); else skip = true;
            } else if (op != "reopen" && op != "child") std::abort();
        });
        if (op == "reopen") {
            int shrink; in >> shrink;
            on(s, [&](auto &th) {
                using TH = std::decay_t<decltype(th)>;
                if constexpr (io::helper::is_mmap_tag_helper<TH>) {
                    if (shrink) th.tag_storage().shrink_to_fit(false);
                } else skip = true;
            });
            if (!skip) {
                std::string k = s.kind;
                s.v = std::monostate{};
                using SM = T_mmap::tag_storage_type; using SI = T_imp::tag_storage_type;
                if (k == "mmap") s.v = std::make_unique<T_mmap>(SM{dir(), s.file}); else s.v = std::make_unique<T_imp>(SI{dir(), s.file});
            }
        } else if (op == "child" && (s.kind == "mmap" || s.kind == "imp")) {
            std::string cmd = self + " --dump " + s.kind + " " + s.file, out;
            std::fflush(stdout);
            FILE *p = popen(cmd.c_str(), "r");
            char b[4096]; std::size_t r;
            while ((r = fread(b, 1, sizeof b, p)) > 0) out.append(b, r);
            int rc = pclose(p);
            if (rc != 0 || out.empty()) out = "{}";
            while (!out.empty() && out.back() == '\n') out.pop_back();
            std::string e = j.str();
            e.pop_back();
            std::printf("%s,\"obs\":%s}\n", e.c_str(), out.c_str());
            return;
        } else if (op == "child") return;
        if (skip) return;
        on(s, [&](auto &th) { j.kv("obs", observe(th)); });
        emit(j);
    }
};
int main(int argc, char **argv) {
    self = std::filesystem::read_symlink("/proc/self/exe").string();
    if (argc == 4 && std::string(argv[1]) == "--dump") {
        if (std::string(argv[2]) == "mmap") { T_mmap t{T_mmap::tag_storage_type{dir(), argv[3]}}; emit(observe(t)); }
        else { T_imp t{T_imp::tag_storage_type{dir(), argv[3]}}; emit(observe(t)); }
        return 0;
    }
    H h; return mm2v::run(argc, argv, h);
}
