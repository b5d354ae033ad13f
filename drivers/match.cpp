// Candidates, routes between them and whole matches on lattice networks (C13, C14, C18).
//   net N (x y)* M (s t npts (x y)*)*                                  s, t from 1; compressed, with spatial indices
//   search kind k radius lower upper adaptive siblings nearby reverse npts (x y)*     kind: 0 circle 1 nearest 2 combined 3 next
//   route from source to target turns astar factor2                      on the candidates of the last search, positions from 0
//   roads from road to road turns astar factor2                          the same, candidates given by their roads
//   join turns join astar factor2 n (position candidate)*                the route of a choice
//   match model turns join astar factor2 filter kind k radius lower upper adaptive siblings nearby reverse npts (x y)*
//                                                                        model: 0 viterbi 1 value iteration 2 policy iteration
#include "match_net.hpp"
struct H : MatchBase {
    std::unique_ptr<track_t> track;
    std::vector<cand_t> cs;
    void drop() override { cs.clear(); track.reset(); MatchBase::drop(); }
    void begin() override { drop(); emit(J::obj().kv("op", "begin")); }
    void end() override { drop(); }
    J cands(const std::vector<cand_t> &cs, const track_t &t) const {
        J a = J::arr();
        for (const auto &c : cs) {
            J e = J::arr(), n = J::arr();
            for (const auto &x : c.edges)
                e.add(J::obj().kv("e", (long) nc->edge(x.edge_desc).id).kv("a", x.adopted).kv("p", pt(x.projection_point)).kv("d", sq(x.distance))
                        .kv("f", pts(x.from->line())).kv("t", pts(x.to->line()))
                        .kv("fl", x.from->has_length() ? I(x.from->length()) : 0).kv("tl", x.to->has_length() ? I(x.to->length()) : 0));
            for (const auto &x : c.nodes) n.add(J::obj().kv("v", (long) nc->vertex(x.vertex_desc).id).kv("d", sq(x.distance)));
            a.add(J::obj().kv("ix", c.track == &t ? (long) c.index : -1L).kv("eq", c.next_equal).kv("es", e).kv("vs", n));
        }
        return a;
    }
    void search(std::istringstream &in) {
        matching::settings s;
        J e = J::obj().kv("op", "search");
        settings(in, s, e);
        cs.clear();
        track = std::make_unique<track_t>(read_track(in));
        // a router remembers its routes for one set of candidates after the other, as for the tracks of a multi track
        cs = al->searcher.candidate_search(*track, s);
        emit(e.kv("ps", pts(track->rich_line.line())).kv("cs", cands(cs, *track)));
    }
    template<typename R> static J route_j(const R &r) {
        J ls = J::arr();
        if (!r.is_invalid())
            for (const auto &var : r.rich_lines()) std::visit([&](const auto &ref) { ls.add(pts(ref.get().line())); }, var);
        return J::obj().kv("inv", r.is_invalid()).kv("ls", ls).kv("len", !r.is_invalid() && r.has_length() ? I(r.length()) : 0L);
    }
    void route(std::istringstream &in, bool roads) {
        long f, s, t, g; int turns, astar; long f2;
        in >> f >> s >> t >> g >> turns >> astar >> f2;
        if (roads) {                                  // given by the roads of the candidates
            for (auto [c, x] : {std::pair{f, &s}, std::pair{t, &g}}) {
                if (c >= (long) cs.size()) return;
                long k = 0;
                while (k < (long) cs[c].edges.size() && (long) nc->edge(cs[c].edges[k].edge_desc).id != *x) ++k;
                if (k == (long) cs[c].edges.size()) return;
                *x = k;
            }
        }
        if (f >= (long) cs.size() || t >= (long) cs.size() || cs[f].edges.empty() || cs[t].edges.empty()) return;
        s %= cs[f].edges.size(); g %= cs[t].edges.size();
        auto r = al->router.candidate_route(cs, f, s, t, g, turns, astar, f2 / 2.0);
        emit(J::obj().kv("op", "route").kv("f", f).kv("s", s).kv("t", t).kv("g", g).kv("turns", turns != 0).kv("astar", astar != 0).kv("f2", f2).kv("r", route_j(r)));
    }
    using pol_t = std::vector<std::pair<std::size_t, std::size_t>>;
    static J pol_j(const pol_t &p) { J a = J::arr(); for (auto &x : p) a.add(J::arr().add((long) x.first).add((long) x.second)); return a; }
    // the route of a choice and the routes between each two of its positions
    J joined(J e, const std::vector<cand_t> &cs, const pol_t &p, bool turns, bool join, bool astar, long f2) {
        auto r = al->router.candidates_route(cs, p, turns, join, astar, f2 / 2.0);
        J rs = J::arr();
        for (std::size_t k = 1; k < p.size(); ++k) {
            if (p[k].first == p[k - 1].first) { rs.add(J::arr()); continue; }
            auto x = al->router.candidate_route(cs, p[k - 1].first, p[k - 1].second, p[k].first, p[k].second, turns, astar, f2 / 2.0);
            rs.add(J::arr().add(J::obj().kv("f", (long) p[k - 1].first).kv("s", (long) p[k - 1].second).kv("t", (long) p[k].first).kv("g", (long) p[k].second)
                    .kv("turns", turns).kv("astar", astar).kv("f2", f2).kv("r", route_j(x))));
        }
        return e.kv("ch", pol_j(p)).kv("turns", turns).kv("join", join).kv("astar", astar).kv("f2", f2).kv("rs", rs).kv("way", route_j(r));
    }
    void join(std::istringstream &in) {
        int turns, join, astar; long f2, n;
        in >> turns >> join >> astar >> f2 >> n;
        pol_t p;
        for (long i = 0; i < n; ++i) {
            long a, b; in >> a >> b;
            if (a >= (long) cs.size() || cs[a].edges.empty()) continue;
            p.emplace_back(a, b % cs[a].edges.size());
        }
        emit(joined(J::obj().kv("op", "join"), cs, p, turns, join, astar, f2));
    }
    static long cent(double d) { return std::isinf(d) ? -1000000L : std::lround(d * 100); }
    void match(std::istringstream &in) {
        int model, turns, join, astar, filter; long f2;
        in >> model >> turns >> join >> astar >> f2 >> filter;
        matching::settings s;
        J e = J::obj().kv("op", "match");
        settings(in, s, e);
        s.within_edge_turns = turns; s.join_merges = join; s.a_star = astar; s.routing_max_distance_factor = f2 / 2.0;
        s.filter_duplicates = filter; s.simplify_track = s.median_merge = s.adaptive_median_merge = false;
        track_t t = read_track(in);
        e.kv("raw", pts(t.rich_line.line())).kv("filter", filter != 0);
        const char *names[] = {"viterbi", "value", "policy"};
        e.kv("model", names[model]);
        cs.clear(); track.reset();
        if (model == 0) {
            environment::hmm<net_t> env{*nc, *al, s};
            learning::viterbi<environment::hmm<net_t>> learn{env, s};
            env.set(t);
            auto p = learn();
            J o = J::arr(), q = J::arr();
            for (auto &x : env.observations()) { J a = J::arr(); for (auto v : x) a.add(cent(v)); o.add(a); }
            for (auto &x : env.transitions()) {
                J a = J::arr();
                for (auto &y : x) { J b = J::arr(); for (auto v : y) b.add(cent(v)); a.add(b); }
                q.add(a);
            }
            e.kv("obs", o).kv("tr", q);
            matched(e, env, p, s, f2);
        } else {
            environment::single<net_t> env{*nc, *al, s};
            env.set(t);
            pol_t p;
            if (model == 1) { learning::value_iteration<environment::single<net_t>> learn{env, s}; p = learn(); }
            else { learning::policy_iteration<environment::single<net_t>> learn{env, s}; p = learn(); }
            // the decision problem as the environment poses it
            struct st { long pos; std::vector<long> prev; std::vector<std::array<long, 4>> acts; };
            std::vector<st> m;
            std::map<std::size_t, long> no;
            std::vector<std::size_t> todo{env.reset()};
            no[todo[0]] = 1;
            for (std::size_t i = 0; i < todo.size(); ++i) {
                env.state = todo[i];
                auto in = env.state2internal(todo[i]);
                st x{in.back(), {}, {}};
                if (in.size() >= 3) x.prev = {in[in.size() - 3], in[in.size() - 2]};
                for (auto a : env.actions()) {
                    env.state = todo[i];
                    auto [n, b, r, d] = env.step(a);
                    if (!d && !no.contains(n)) { todo.push_back(n); no[n] = (long) todo.size(); }
                    x.acts.push_back({d ? 0 : no[n], std::lround(r * 100), d, (long) env.action2internal(b)});
                }
                m.push_back(x);
            }
            J mj = J::arr();
            for (auto &x : m) {
                J a = J::arr(), pv = J::arr();
                for (auto v : x.prev) pv.add(v);
                for (auto &y : x.acts) a.add(J::obj().kv("n", y[0]).kv("r", y[1]).kv("d", y[2] != 0).kv("e", y[3]));
                mj.add(J::obj().kv("pos", x.pos).kv("prev", pv).kv("acts", a));
            }
            e.kv("m", mj).kv("d", 99L);
            matched(e, env, p, s, f2);
        }
    }
    template<typename Env> void matched(J &e, Env &env, const pol_t &p, const matching::settings &s, long f2) {
        track = std::make_unique<track_t>(env.track());
        e.kv("ps", pts(track->rich_line.line())).kv("cs", cands(env.candidates(), env.track())).kv("er", route_j(env.result(p)));
        emit(joined(e, env.candidates(), p, s.within_edge_turns, s.join_merges, s.a_star, f2));
    }
    void line(const std::string &op, std::istringstream &in) override {
        if (op == "net") net(in);
        else if (op == "search") search(in);
        else if (op == "route") route(in, false);
        else if (op == "roads") route(in, true);
        else if (op == "join") join(in);
        else if (op == "match") match(in);
        else std::abort();
    }
};
int main(int argc, char **argv) { H h; return mm2v::run(argc, argv, h); }
