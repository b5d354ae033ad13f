// Drives the learners on given decision problems (C13).
// script: hmm T then per position: n obs.. and n rows of transitions (m entries each, m candidates before; the first one: 1 entry); x: impossible
//         mdp discount(1/100) S then per state: pos A then A times: next(from 1, S+1: end) reward done edge
//         run what   (viterbi | value | policy | learn)
#include "mm2v.hpp"
#include <limits>
#include "learning/algorithms/viterbi.hpp"
#include "learning/algorithms/value_iteration.hpp"
#include "learning/algorithms/policy_iteration.hpp"
#include "learning/algorithms/q_learning.hpp"
using namespace mm2v;
using namespace map_matching_2;
constexpr long No = -1000000;
struct Hmm {
    using action_type = std::int64_t;
    const action_type no_action = -1;
    std::vector<std::vector<long>> o; std::vector<std::vector<std::vector<long>>> t;
    std::vector<std::vector<double>> od; std::vector<std::vector<std::vector<double>>> td;
    bool abort() { return false; }
    const auto &observations() const { return od; }
    const auto &transitions() const { return td; }
    static double d(long v) { return v == No ? -std::numeric_limits<double>::infinity() : (double) v; }
    void fill() {
        od.clear(); td.clear();
        for (auto &x : o) { od.emplace_back(); for (auto v : x) od.back().push_back(d(v)); }
        for (auto &x : t) { td.emplace_back(); for (auto &y : x) { td.back().emplace_back(); for (auto v : y) td.back().back().push_back(d(v)); } }
    }
};
struct Act { long n, r, d, e; };
struct St { long pos; std::vector<Act> a; };
struct Mdp {
    using state_type = std::size_t; using action_type = std::size_t; using reward_type = double;
    std::vector<St> s;
    state_type state = 0;
    bool intelligent_action = false;
    const std::size_t special_actions = 2;
    std::vector<std::int64_t> internal;
    std::vector<int> cand;
    void init() { long n = 0; for (auto &x : s) n = std::max(n, x.pos + 1); cand.assign(n, 0); }
    bool abort() { return false; }
    state_type reset() { return state = 0; }
    const auto &candidates() const { return cand; }
    std::size_t edges() const { std::size_t n = 0; for (auto &x : s) n += x.a.size(); return n; }
    static std::size_t id(long k) { return k + 2; }
    std::vector<action_type> actions() {
        std::vector<action_type> r;
        if (state >= s.size()) return {0};
        for (std::size_t k = 0; k < s[state].a.size(); ++k) r.push_back(id(k));
        return r;
    }
    std::tuple<state_type, action_type, reward_type, bool> step(action_type a) {
        if (state >= s.size() || a < 2 || a - 2 >= s[state].a.size()) throw std::out_of_range("action that does not exist");
        const Act &x = s[state].a[a - 2];
        state = x.n - 1;
        return {state, x.e == -1 ? 0 : x.e == -2 ? 1 : (std::size_t) x.e + 2, (double) x.r, x.d != 0};
    }
    const std::vector<std::int64_t> &state2internal(state_type st) { internal = {s.at(st).pos}; return internal; }
    std::int64_t action2internal(action_type a) const { return a == 0 ? -1 : a == 1 ? -2 : (std::int64_t) a - 2; }
};
struct H : Handler {
    Hmm h; Mdp m; long disc = 99;
    void begin() override { emit(J::obj().kv("op", "begin")); h.o.clear(); h.t.clear(); m.s.clear(); }
    static J js(const std::vector<std::pair<std::size_t, std::size_t>> &p) {
        J a = J::arr(); for (auto &x : p) a.add(J::arr().add(x.first).add(x.second)); return a;
    }
    static long val(std::istringstream &in) { std::string x; in >> x; return x == "x" ? No : std::stol(x); }
    void line(const std::string &op, std::istringstream &in) override {
        if (op == "hmm") {
            long T; in >> T; h.o.clear(); h.t.clear();
            for (long t = 0; t < T; ++t) {
                long n; in >> n; h.o.emplace_back(); h.t.emplace_back();
                for (long i = 0; i < n; ++i) h.o.back().push_back(val(in));
                long w = t == 0 ? 1 : (long) h.o[t - 1].size();
                for (long i = 0; i < n; ++i) { h.t.back().emplace_back(); for (long j = 0; j < w; ++j) h.t.back().back().push_back(val(in)); }
            }
            h.fill();
        } else if (op == "mdp") {
            long S; in >> disc >> S; m.s.clear();
            for (long i = 0; i < S; ++i) {
                St s; long A; in >> s.pos >> A;
                for (long k = 0; k < A; ++k) { Act a; in >> a.n >> a.r >> a.d >> a.e; s.a.push_back(a); }
                m.s.push_back(s);
            }
        } else if (op == "run") {
            std::string what; in >> what;
            matching::settings st; st.discount = disc / 100.0; st.episodes = 100000;
            if (what == "viterbi") {
                learning::viterbi<Hmm> v{h, st};
                auto p = v();
                J o = J::arr(), t = J::arr();
                for (auto &x : h.o) o.add(x);
                for (auto &x : h.t) { J y = J::arr(); for (auto &z : x) y.add(z); t.add(y); }
                emit(J::obj().kv("op", "viterbi").kv("obs", o).kv("tr", t).kv("policy", js(p)).kv("slack", 0));
            } else {
                std::vector<std::pair<std::size_t, std::size_t>> p;
                if (what == "value") { learning::value_iteration<Mdp> v{m, st}; p = v(); }
                else if (what == "policy") { learning::policy_iteration<Mdp> v{m, st}; p = v(); }
                else { learning::q_learning<Mdp> v{m, st}; p = v(); m.intelligent_action = false; }
                J s = J::arr();
                for (auto &x : m.s) {
                    J a = J::arr();
                    for (auto &y : x.a) a.add(J::obj().kv("n", y.n).kv("r", y.r).kv("d", y.d != 0).kv("e", y.e));
                    s.add(J::obj().kv("pos", x.pos).kv("acts", a));
                }
                emit(J::obj().kv("op", what).kv("m", s).kv("d", disc).kv("policy", js(p)).kv("slack", (long) (60 + 20 * m.s.size())));
            }
        }
    }
};
int main(int argc, char **argv) { H h; return run(argc, argv, h); }
