// Simplification and clean-up of import networks (C04, C05).
//   new mem|mmap GRAPHSIZE TAGSIZE | N id x y tags | E id s t tags pts | obs | simplify 0|1 | comp | dupn simplify complete | dupe
#include "network_net.hpp"
using namespace mm2v;

struct H : Handler {
    std::unique_ptr<net_mem> mem;
#ifdef MM2V_MMAP
    std::unique_ptr<net_mmap> mm;
#endif
    void begin() override { end(); }
    void end() override {
        mem.reset();
#ifdef MM2V_MMAP
        mm.reset();
#endif
    }
    template<typename N> void op(N &net, const std::string &o, std::istringstream &in) {
        using ops = net_ops<N>;
        if (o == "N") { ops::node(net, in); return; }
        if (o == "E") { ops::edge(net, in); return; }
        J j = J::obj();
        if (o == "obs") j.kv("op", "net");
        else if (o == "simplify") { int c; in >> c; j.kv("op", o).kv("complete", (bool) c); net.graph_helper().simplify(net, c); }
        else if (o == "comp") { j.kv("op", o); net.remove_unconnected_components(); }
        else if (o == "dupn") { int s, c; in >> s >> c; j.kv("op", o).kv("simplify", (bool) s).kv("complete", (bool) c); net.remove_duplicate_nodes(s, c); }
        else if (o == "dupe") { j.kv("op", o); net.remove_duplicate_edges(); }
        else std::abort();
        emit(j.kv("net", ops::observe(net)));
    }
    void line(const std::string &o, std::istringstream &in) override {
        if (o == "new") {
            std::string k; size_t gs, ts; in >> k >> gs >> ts;
            if (k == "mem") mem = std::make_unique<net_mem>();
#ifdef MM2V_MMAP
            else {
                using namespace io::memory_mapped::storage;
                auto dir = (std::filesystem::current_path() / "net").string();
                std::filesystem::create_directories(dir);
                using GH = net_mmap::graph_helper_type;
                using TH = GH::tag_helper_type;
                mm = std::make_unique<net_mmap>(GH{
                    GH::graph_storage_type{dir, "graph.bin", DESTROY_AND_CREATE, gs, DESTROY_ON_CLOSE},
                    TH{TH::tag_storage_type{dir, "tags.bin", DESTROY_AND_CREATE, ts, DESTROY_ON_CLOSE}}});
            }
#endif
            return;
        }
        if (mem) op(*mem, o, in);
#ifdef MM2V_MMAP
        else op(*mm, o, in);
#endif
    }
};
int main(int argc, char **argv) { H h; return mm2v::run(argc, argv, h); }
