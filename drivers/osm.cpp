// Imports OpenStreetMap files through the real importers, in memory and memory mapped (C06).
//   file suffix / text <line> ; items <json> ; cfg <json> ; rules (4 lines: query, filter, oneway, reverse) ; import car kind size ;  kind: 0 memory, 1 mapped, 2 mapped vertices only, 3 mapped tags only
//   pattern <json words> <string>
#include "mm2v.hpp"
#include <filesystem>
#include <unistd.h>
#include "types/geometry/network/network_import.hpp"
#include "geometry/network/traits/network.hpp"
#include "types/io/network/osm_handler.hpp"
#include "io/network/osm_car_importer.hpp"
#include "io/network/osm_manual_importer.hpp"
#include "geometry/srs.hpp"
using namespace mm2v;
using namespace map_matching_2;
namespace mm = io::memory_mapped;
using namespace mm::storage;
using cs = geometry::cs_geographic;
using point_t = geometry::point_type<cs>;
using tags_mem = io::helper::import_tag_helper_type<mm::memory_types>;
using tags_map = io::helper::import_tag_helper_type<mm::file_types>;
using net_mem = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(MM2_GEOGRAPHIC, MM2_MEMORY_TYPES, MM2_IMPORT_TAG_HELPER(MM2_MEMORY_TYPES)));
using net_map = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(MM2_GEOGRAPHIC, MM2_MMAP_TYPES, MM2_IMPORT_TAG_HELPER(MM2_MMAP_TYPES)));
struct H : Handler {
    std::vector<std::string> suffixes, texts, rules;
    std::string items = "[]", cfg = "{}", dir;
    void begin() override { suffixes.clear(); texts.clear(); rules.clear(); items = "[]"; cfg = "{}"; emit(J::obj().kv("op", "begin")); }
    void end() override {}
    template<typename Tags> Tags make_tags(const std::string &name, std::size_t size) {
        if constexpr (std::is_same_v<Tags, tags_map>) return Tags{typename Tags::tag_storage_type{dir, name, DESTROY_AND_CREATE, size, DESTROY_ON_CLOSE}};
        else return Tags{};
    }
    template<typename Net> Net make_net(std::size_t size) {
        using GH = typename Net::graph_helper_type;
        if constexpr (std::is_same_v<Net, net_map>) return Net{GH{typename GH::graph_storage_type{dir, "graph.bin", DESTROY_AND_CREATE, size, DESTROY_ON_CLOSE}, make_tags<tags_map>("tags.bin", size)}};
        else return Net{};
    }
    template<typename Net, typename Types, typename Tags>
    J import(bool car, const std::vector<std::string> &files, std::size_t size) {
        Net net = make_net<Net>(size);
        using GH = typename Net::graph_helper_type;
        using HH = io::helper::osm_handler_helper_type<point_t, Types, Tags>;
        using OH = io::network::osm_handler<GH, HH>;
        std::unique_ptr<OH> h;
        const auto rv = geometry::create_point_reprojector(geometry::compute_srs_transform(4326, "geographic", -1, ""));
        if constexpr (std::is_same_v<Types, mm::file_types>)
            h = std::make_unique<OH>(net.graph_helper(), rv, HH{typename HH::osm_handler_storage_type{dir, "vertices.bin", DESTROY_AND_CREATE, size, DESTROY_ON_CLOSE}, make_tags<Tags>("osmtags.bin", size)});
        else h = std::make_unique<OH>(net.graph_helper(), rv, HH{typename HH::osm_handler_storage_type{}, make_tags<Tags>("osmtags.bin", size)});
        if (car) { io::network::osm_car_importer<OH> imp{files, *h}; imp.read(); }
        else { io::network::osm_manual_importer<OH> imp{files, *h, rules.at(0), rules.at(1), rules.at(2), rules.at(3)}; imp.read(); }
        h.reset();
        return observe(net);
    }
    template<typename TH> static J tags(const TH &th, const auto &ts) {
        J a = J::arr();
        for (const auto &t : ts) { const auto kv = th.tag(t); a.add(J::arr().add(kv.first).add(kv.second)); }
        return a;
    }
    static J point(const auto &p) { return J::arr().add(I(p.template get<0>())).add(I(p.template get<1>())); }
    template<typename Net> static J observe(Net &net) {
        auto &g = net.graph();
        auto &th = net.graph_helper().tag_helper();
        J vs = J::arr(), es = J::arr();
        auto vv = g.vertices_view();
        for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) {
            const auto &v = vv[it].get();
            vs.add(J::obj().kv("id", (long) v.id).kv("p", point(v.point)).kv("tags", tags(th, th.node_tags(v.id))));
        }
        auto ev = g.edges_view();
        for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) {
            const auto &e = ev[it].get();
            J ls = J::arr();
            for (const auto &p : e.rich_line.line()) ls.add(point(p));
            es.add(J::obj().kv("id", (long) e.id).kv("s", (long) g.get_vertex_data(g.source(it)).id).kv("t", (long) g.get_vertex_data(g.target(it)).id)
                    .kv("ls", ls).kv("tags", tags(th, th.edge_tags(e.id))));
        }
        return J::obj().kv("verts", vs).kv("edges", es);
    }
    void line(const std::string &op, std::istringstream &in) override {
        std::string rest;
        if (op == "file") { std::string s; in >> s; suffixes.push_back(s); texts.emplace_back(); return; }
        in.get(); 
        if (op == "text") { std::getline(in, rest); texts.back() += rest + "\n"; }
        else if (op == "rule") { std::getline(in, rest); rules.push_back(rest); }
        else if (op == "items") std::getline(in, items);
        else if (op == "cfg") std::getline(in, cfg);
        else if (op == "pattern") {
            std::getline(in, rest);
            const auto k = rest.find('\t');
            std::string s = std::string("{\"op\":\"pattern\",\"words\":") + rest.substr(0, k) + ",\"ok\":"
                    + (std::regex_match(rest.substr(k + 1), io::network::OSM_TAGS_FILTER_PATTERN) ? "true" : "false") + "}\n";
            std::fwrite(s.data(), 1, s.size(), stdout);
        } else if (op == "import") {
            int car, kind; std::size_t size; in >> car >> kind >> size;
            dir = (std::filesystem::current_path() / ("osm-" + std::to_string(::getpid()))).string();
            std::filesystem::create_directories(dir);
            std::vector<std::string> files;
            for (std::size_t i = 0; i < texts.size(); ++i) {
                files.push_back(dir + "/f" + std::to_string(i) + "." + suffixes[i]);
                std::ofstream f(files.back(), std::ios::binary); f << texts[i];
            }
            std::string failed; J got = J::obj();
            try {
                got = kind == 0 ? import<net_mem, mm::memory_types, tags_mem>(car, files, size)
                    : kind == 1 ? import<net_map, mm::file_types, tags_map>(car, files, size)
                    : kind == 2 ? import<net_mem, mm::file_types, tags_mem>(car, files, size)
                    : import<net_mem, mm::memory_types, tags_map>(car, files, size);
            } catch (const std::exception &x) { failed = x.what(); }
            std::error_code ec; std::filesystem::remove_all(dir, ec);
            std::string s = std::string("{\"op\":\"osm\",\"items\":") + items + ",\"cfg\":" + cfg + ",\"car\":" + (car ? "true" : "false")
                    + ",\"kind\":" + std::to_string(kind) + ",\"failed\":" + J::q(failed) + ",\"got\":" + got.str() + "}\n";
            std::fwrite(s.data(), 1, s.size(), stdout);
            suffixes.clear(); texts.clear(); rules.clear();
        } else std::abort();
    }
};
int main(int argc, char **argv) { H h; return run(argc, argv, h); }
