// Drives the importers of tracks: delimited text, standard input, GPX and lists of edges (C16).
// script: file n / text <rest of line> (lines of the files) ; rows <json> (what the lines mean, kept as it is) ;
//   csv wkt grouped noid whole noparse skip noheader <delim> <xcol> <ycol> <gcol> <agg> <tagg> <format (~ is a blank)> nid <id cols> nt <time cols> nsel <ids>
//   input ; gpx noid noparse <format> nsel <ids> ; enet nodes m (id s t pts)* ; edges <delim or -> skip ncol <cols>
#include "match_net.hpp"
#include <filesystem>
#include <unistd.h>
#include "types/geometry/track/multi_track.hpp"
#include "geometry/algorithm/reproject.hpp"
#include "io/track/csv_track_importer.hpp"
#include "io/track/gpx_track_importer.hpp"
#include "io/track/input_importer.hpp"
#include "io/track/edges_list_importer.hpp"
namespace g = map_matching_2::geometry;
extern "C" const char *__asan_default_options() { return "detect_leaks=0"; }       // the parser of GPX leaves its tree behind
struct recorder {
    using multi_track_variant_type = g::track::multi_track_variant_type;
    J got = J::arr();
    void pass(multi_track_variant_type v) {
        std::visit([this](auto &t) {
            J ls = J::arr();
            for (std::size_t i = 0; i < t.size(); ++i) {
                J l = J::arr();
                const auto tk = t.get_track(i);
                for (const auto &p : tk.rich_line.line()) l.add(J::arr().add(I(p.template get<0>())).add(I(p.template get<1>())));
                ls.add(l);
            }
            got.add(J::obj().kv("id", t.id).kv("ls", ls));
        }, v);
    }
};
static std::string word(std::istream &in) {             // a word, ~ stands for a blank, - for nothing
    std::string s; in >> s;
    if (s == "-") return "";
    for (auto &c : s) if (c == '~') c = ' ';
    return s;
}
static std::vector<std::string> words(std::istream &in) { long n; in >> n; std::vector<std::string> r; while (n--) r.push_back(word(in)); return r; }
struct H : MatchBase {
    std::vector<std::string> files, texts; std::string rows = "[]";
    g::srs_transform srs;
    H() { srs = g::compute_srs_transform(3857, "cartesian", -1, ""); }
    void begin() override { drop(); clear(); emit(J::obj().kv("op", "begin")); }
    void end() override { drop(); }
    void clear() { files.clear(); texts.clear(); rows = "[]"; }
    void enet(std::istringstream &in) {
        drop();
        ic = std::make_unique<imp_t>(); nc = std::make_unique<net_t>();
        long n = 0;
        for (auto &p : read_points(in)) {
            struct nd { std::uint64_t id; point_t point; } x{(std::uint64_t) ++n, {(double) p[0], (double) p[1]}};
            ic->graph_helper().add_vertex_with_index_mapping(x);
        }
        J ej = J::arr();
        long m; in >> m;
        for (long i = 0; i < m; ++i) {
            long id, s, t; in >> id >> s >> t;
            typename imp_t::line_type l; J pj = J::arr();
            for (auto &q : read_points(in)) { l.emplace_back((double) q[0], (double) q[1]); pj.add(J::arr().add(q[0]).add(q[1])); }
            ic->graph_helper().add_edge(s - 1, t - 1, typename imp_t::edge_data_type{(std::uint64_t) id, typename imp_t::rich_line_type{l}});
            ej.add(J::obj().kv("id", id).kv("p", pj));
        }
        nc->graph_helper().from_adjacency_list(ic->graph_helper(), ic->tag_helper());
        emit(J::obj().kv("op", "enet").kv("es", ej));
    }
    std::vector<std::string> write() {
        std::vector<std::string> r;
        for (std::size_t i = 0; i < texts.size(); ++i) {
            r.push_back("tracks-" + std::to_string(::getpid()) + "-" + std::to_string(i));
            std::ofstream f(r.back(), std::ios::binary); f << texts[i];
        }
        return r;
    }
    void done(const char *op, const recorder &r, const std::vector<std::string> &fs, const std::string &cfg, const std::string &failed) {
        for (auto &f : fs) { std::error_code ec; std::filesystem::remove(f, ec); }
        std::string s = std::string("{\"op\":\"") + op + "\",\"rows\":" + rows + ",\"cfg\":" + cfg + ",\"failed\":" + J::q(failed) + ",\"got\":" + r.got.str() + "}\n";
        std::fwrite(s.data(), 1, s.size(), stdout);
        clear();
    }
    void line(const std::string &op, std::istringstream &in) override {
        if (op == "enet") { enet(in); return; }
        if (op == "file") { texts.emplace_back(); return; }
        if (op == "text") { in.get(); std::string s; std::getline(in, s); texts.back() += s + "\n"; return; }
        if (op == "rows") { in.get(); std::getline(in, rows); return; }
        recorder rec;
        const g::point_reprojector_variant rv = g::create_point_reprojector(srs);
        const auto fs = write();
        std::string failed, cfg;
        if (op == "csv") {
            io::csv_settings st;
            int b[7]; for (auto &x : b) in >> x;
            st.wkt = b[0]; st.grouped = b[1]; st.no_id = b[2]; st.no_id_whole_file = b[3]; st.no_parse_time = b[4]; st.skip_lines = b[5]; st.no_header = b[6];
            st.delimiter = word(in); st.field_x = word(in); st.field_y = word(in); st.field_geometry = word(in);
            st.id_aggregator = word(in); st.time_aggregator = word(in); st.time_format = word(in);
            st.field_id = words(in); st.field_time = words(in);
            const auto sel = words(in);
            cfg = J::obj().kv("wkt", st.wkt).kv("grouped", st.grouped).kv("noid", st.no_id).kv("whole", st.no_id_whole_file)
                    .kv("agg", st.id_aggregator).kv("sel", sel).str();
            try { io::track::csv_track_importer<recorder> imp{fs, sel, st, rec, srs, rv}; imp.read(); }
            catch (const std::exception &x) { failed = x.what(); }
        } else if (op == "gpx") {
            int noid, noparse; in >> noid >> noparse;
            const auto fmt = word(in); const auto sel = words(in);
            cfg = J::obj().kv("noid", noid != 0).kv("sel", sel).str();
            try { io::track::gpx_track_importer<recorder> imp{fs, sel, noid != 0, fmt, noparse != 0, rec, srs, rv}; imp.read(); }
            catch (const std::exception &x) { failed = x.what(); }
        } else if (op == "input") {
            cfg = "{}";
            std::istringstream s{texts.empty() ? "" : texts[0]};
            auto *old = std::cin.rdbuf(s.rdbuf());
            std::cin.clear();
            try { io::track::input_importer<recorder> imp{rec, srs, rv}; imp.read(); }
            catch (const std::exception &x) { failed = x.what(); }
            std::cin.rdbuf(old);
        } else if (op == "edges") {
            const std::string d = word(in); std::size_t skip; in >> skip;
            const auto cols = words(in);
            cfg = "{}";
            using graph_t = typename net_t::graph_type;
            try { io::track::edges_list_importer<recorder, graph_t> imp{fs, rec, srs, rv, nc->graph(), d, cols, skip}; imp.read(); }
            catch (const std::exception &x) { failed = x.what(); }
        } else std::abort();
        done(op.c_str(), rec, fs, cfg, failed);
    }
};
int main(int argc, char **argv) { H h; return mm2v::run(argc, argv, h); }
