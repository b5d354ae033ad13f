// Common driver support: reads a script file ("history N" ... "end"), writes one JSON object per event.
#ifndef MM2V_HPP
#define MM2V_HPP
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstdint>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <csignal>

namespace mm2v {

    // minimal JSON value builder
    struct J {
        std::string s;
        bool first = true;
        char close;
        static J obj() { J j; j.s = "{"; j.close = '}'; return j; }
        static J arr() { J j; j.s = "["; j.close = ']'; return j; }
        static std::string q(const std::string &v) {
            std::string r = "\"";
            for (unsigned char c : v) {
                if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
                else if (c < 0x20) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
                else r += (char) c;
            }
            return r + "\"";
        }
        void sep() { if (!first) s += ","; first = false; }
        template<typename T> static std::string v(const T &x) {
            if constexpr (std::is_same_v<T, J>) return x.str();
            else if constexpr (std::is_same_v<T, bool>) return x ? "true" : "false";
            else if constexpr (std::is_arithmetic_v<T>) return std::to_string(x);
            else if constexpr (std::is_convertible_v<T, std::string>) return q(std::string(x));
            else { J a = arr(); for (const auto &y : x) a.add(y); return a.str(); }
        }
        template<typename T> J &add(const T &x) { sep(); s += v(x); return *this; }
        template<typename T> J &kv(const std::string &k, const T &x) { sep(); s += q(k) + ":" + v(x); return *this; }
        std::string str() const { return s + close; }
    };

    inline void emit(const J &j) { std::string s = j.str(); s += "\n"; std::fwrite(s.data(), 1, s.size(), stdout); }

    struct Handler {
        virtual ~Handler() = default;
        virtual void begin() = 0;                                    // a new history starts
        virtual void line(const std::string &op, std::istringstream &in) = 0;
        virtual void end() {}
    };

    inline int run(int argc, char **argv, Handler &h, unsigned history_seconds = 20) {
        std::ifstream f(argv[1]);
        std::string ln;
        bool open = false;
        while (std::getline(f, ln)) {
            std::istringstream in(ln);
            std::string op;
            if (!(in >> op)) continue;
            if (op == "history" || op == "end") {
                if (open) h.end();
                open = false;
                std::fflush(stdout);
                if (op == "end") break;
                long n; in >> n;
                emit(J::obj().kv("history", n));
                std::fflush(stdout);
                alarm(history_seconds);      // SIGALRM kills the driver: an endless operation is a finding
                open = true;
                h.begin();
            } else {
                h.line(op, in);
            }
        }
        std::fflush(stdout);
        return 0;
    }
    // numbers that should be integers on lattice inputs: -999999 marks anything else
    inline long I(double x, double eps = 1e-6) {
        if (!std::isfinite(x) || std::fabs(x) > 2e9) return std::isinf(x) ? (x > 0 ? 999999999 : -999999999) : -888888888;
        double r = std::round(x);
        return std::fabs(x - r) < eps ? (long) r : -777777777;
    }
}
#endif
