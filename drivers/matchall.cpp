// Drives the whole matching program: tracks, several threads, the written CSV (C15).
//   net .. (as in match.cpp) ; threads n ; match model turns join astar factor2 filter kind k radius lower upper adaptive siblings nearby reverse ;
//   track id lines (npts (x y)*)* ; go how breaks       how: 0 stop, join; 1 just destroyed, as when reading ends with an error
#include "pausing_queue.hpp"
#include "match_net.hpp"
#include <filesystem>
#include <unistd.h>
#include "matching/matcher.hpp"
#include "matching/matcher/matcher_forwarder.hpp"
using mt_t = geometry::track::multi_track_type<point_t>;
struct H : MatchBase {
    matching::settings st;
    unsigned threads = 1;
    std::vector<std::pair<std::string, std::vector<std::vector<std::vector<long>>>>> ins;
    void begin() override { drop(); st = {}; threads = 1; ins.clear(); emit(J::obj().kv("op", "begin")); }
    void end() override { drop(); }
    static std::vector<std::vector<std::string>> csv(const std::string &file) {
        std::ifstream f(file, std::ios::binary);
        std::vector<std::vector<std::string>> r; std::vector<std::string> row; std::string x; bool q = false; char c;
        while (f.get(c)) {
            if (q) { if (c == '"') { if (f.peek() == '"') { f.get(c); x += c; } else q = false; } else x += c; }
            else if (c == '"') q = true;
            else if (c == ',') { row.push_back(x); x.clear(); }
            else if (c == '\n') { row.push_back(x); x.clear(); r.push_back(row); row.clear(); }
            else x += c;
        }
        return r;
    }
    static mt_t make(const std::string &id, const std::vector<std::vector<std::vector<long>>> &ls) {
        typename mt_t::multi_line_type ml;
        for (auto &l : ls) { typename mt_t::line_type r; for (auto &p : l) r.emplace_back((double) p[0], (double) p[1]); ml.push_back(r); }
        return mt_t{id, ml};
    }
    // one after the other, without the program around it
    template<typename Learner> std::vector<std::string> alone(const mt_t &t) {
        using env_t = typename Learner::environment_type;
        util::time_helper time;
        matching::algorithms<net_t> algs{*nc, time};
        std::vector<std::unique_ptr<env_t>> envs;
        std::vector<typename tr::route_type> routes;
        typename tr::multi_track_multi_rich_line_type::rich_lines_container_type prep;
        for (std::size_t i = 0; i < t.size(); ++i) {
            envs.push_back(std::make_unique<env_t>(*nc, algs, st));
            Learner learn{*envs.back(), st};
            envs.back()->set(t.get_track(i));
            routes.emplace_back(envs.back()->result(learn()));
            prep.emplace_back(envs.back()->track().rich_line);
        }
        mt_t p{t.id, typename tr::multi_track_multi_rich_line_type{std::move(prep)}};
        auto m = tr::route_type::template merge<typename tr::lazy_rich_line_type>({routes.begin(), routes.end()});
        auto len = [](const auto &x) { return std::to_string(x.has_length() ? x.length() : 0.0); };
        return {t.id, "no", t.wkt(), p.wkt(), m.wkt(), len(t.multi_rich_line), len(p.multi_rich_line), len(m)};
    }
    void go(int how) {
        const std::string file = "matchall-" + std::to_string(::getpid()) + ".csv";
        J want = J::arr(), got = J::arr();
        for (auto &[id, ls] : ins) {
            auto t = make(id, ls);
            if (st.model == matching::settings::VITERBI) want.add(alone<learning::viterbi<environment::hmm<net_t>>>(t));
            else if (st.model == matching::settings::VALUE_ITERATION) want.add(alone<learning::value_iteration<environment::single<net_t>>>(t));
            else want.add(alone<learning::policy_iteration<environment::single<net_t>>>(t));
        }
        {
            matching::matcher_output_settings os{file, "id,aborted,track,prepared,match,track_length,prepared_length,match_length", "", "", false, false};
            matching::matcher<net_t> m{*nc, os, threads};
            m.start();
            matching::matcher_forwarder<matching::matcher<net_t>> fw{m, st};
            for (auto &[id, ls] : ins) fw.pass(make(id, ls));
            if (how == 0) { m.stop(); m.join(); }
        }
        auto rows = csv(file);
        std::error_code ec; std::filesystem::remove(file, ec);
        for (std::size_t i = 1; i < rows.size(); ++i) got.add(rows[i]);
        emit(J::obj().kv("op", "program").kv("w", threads).kv("want", want).kv("got", got));
    }
    void line(const std::string &op, std::istringstream &in) override {
        if (op == "net") { net(in); ins.clear(); }
        else if (op == "threads") in >> threads;
        else if (op == "match") {
            int model, turns, join, astar, filter; long f2;
            in >> model >> turns >> join >> astar >> f2 >> filter;
            st = {};
            J e = J::obj();
            settings(in, st, e);
            st.model = model == 0 ? matching::settings::VITERBI : model == 1 ? matching::settings::VALUE_ITERATION : matching::settings::POLICY_ITERATION;
            st.within_edge_turns = turns; st.join_merges = join; st.a_star = astar; st.routing_max_distance_factor = f2 / 2.0;
            st.filter_duplicates = filter; st.simplify_track = st.median_merge = st.adaptive_median_merge = false;
        } else if (op == "track") {
            std::string id; long n; in >> id >> n;
            std::vector<std::vector<std::vector<long>>> ls;
            for (long i = 0; i < n; ++i) { std::vector<std::vector<long>> l; for (auto &p : read_points(in)) l.push_back({p[0], p[1]}); ls.push_back(l); }
            ins.emplace_back(id, ls);
        } else if (op == "go") { int how; unsigned br; in >> how >> br; pauses = br; go(how); }
        else std::abort();
    }
};
int main(int argc, char **argv) { H h; return mm2v::run(argc, argv, h); }
