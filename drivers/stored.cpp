// Networks written to disk and read back (C17).
//   N id x y ntags k\tv\t...   E id s t npts x y ... ntags k\tv\t...     the network
//   Q kind n args                                                      a query, asked before writing and after reading
//   NX, EX: added and removed again
//   store geo graph tags index build size                              kinds: 0 in memory, 1 mapped
#include "stored.hpp"
#include <unistd.h>
using namespace mm2v;
struct H : Handler {
    Stored s;
    void begin() override { s = {}; emit(J::obj().kv("op", "begin")); }
    void end() override {}
    void line(const std::string &op, std::istringstream &in) override {
        if (op[0] == 'N' or op[0] == 'E') { std::string rest; std::getline(in, rest); s.lines.push_back(op + rest); }
        else if (op == "Q") { Query q; in >> q.q; q.a = read_longs(in); s.queries.push_back(q); }
        else if (op == "store") {
            int geo, g, t, i, b; std::size_t size; in >> geo >> g >> t >> i >> b >> size;
            const auto dir = (std::filesystem::current_path() / ("stored-" + std::to_string(::getpid()))).string();
            std::filesystem::remove_all(dir); std::filesystem::create_directories(dir);
            s.p.network.output = dir; s.m.input.input = dir;
            s.p.files.graph_file = s.m.files.graph_file = "graph.bin"; s.p.files.tags_file = s.m.files.tags_file = "tags.bin";
            s.p.files.index_file = s.m.files.index_file = "index.bin"; s.p.files.index_build_file = "index_build.bin"; s.p.files.initial_size = size;
            s.p.memory.mmap_graph = s.m.memory.mmap_graph = g; s.p.memory.mmap_tags = s.m.memory.mmap_tags = t;
            s.p.memory.mmap_indices = s.m.memory.mmap_indices = i; s.p.memory.mmap_index_build = b;
            s.m.srs.srs.srs_type = geo ? geometry::SRS::CS_GEOGRAPHIC : geometry::SRS::CS_CARTESIAN;
            J qs = J::arr();
            for (const auto &q : s.queries) { J a = J::arr(); for (auto x : q.a) a.add(x); qs.add(J::obj().kv("q", q.q).kv("a", a)); }
            J e = J::obj().kv("op", "stored");
            std::string failed;
            J r = J::obj();
            try { r = geo ? stored_geographic(s) : stored_cartesian(s); } catch (const std::exception &x) { failed = x.what(); }
            std::error_code ec; std::filesystem::remove_all(dir, ec);
            emit(e.kv("geo", (bool) geo).kv("kinds", J::arr().add(g).add(t).add(i).add(b)).kv("failed", failed).kv("qs", qs).kv("r", r));
            s = {};
        } else std::abort();
    }
};
int main(int argc, char **argv) { H h; return run(argc, argv, h); }
