// Stand-in for vincentlaucsb/csv-parser (not installed here): just the interface the library uses.
// Rows are RFC 4180 text; only used by the drivers under /verif.
#ifndef MM2V_STUB_CSV_HPP
#define MM2V_STUB_CSV_HPP
#include <algorithm>
#include <fstream>
#include <filesystem>
#include <iostream>
#include <iterator>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
namespace csv {
    class CSVFormat {
    public:
        CSVFormat &delimiter(char c) { delims = {c}; return *this; }
        CSVFormat &delimiter(const std::vector<char> &c) { delims = c; return *this; }
        CSVFormat &no_header() { header = false; return *this; }
        CSVFormat &quote(char c) { q = c; return *this; }
        CSVFormat &header_row(int r) { header = r >= 0; return *this; }
        CSVFormat &trim(const std::vector<char> &) { return *this; }
        std::vector<char> delims{','};
        bool header{true};
        char q{'"'};
    };
    class CSVField {
    public:
        explicit CSVField(std::string s) : s{std::move(s)} {}
        template<typename T = std::string> T get() const {
            if constexpr (std::is_same_v<T, std::string> or std::is_same_v<T, std::string_view>) return T(s);
            else {
                std::size_t pos = 0;
                T v;
                if constexpr (std::is_integral_v<T>) v = static_cast<T>(std::stoll(s, &pos));
                else v = static_cast<T>(std::stod(s, &pos));
                if (s.find_first_not_of(" \t\r", pos) != std::string::npos) throw std::runtime_error("Not a number.");
                return v;
            }
        }
    private:
        std::string s;
    };
    class CSVRow {
    public:
        CSVRow(std::vector<std::string> f, std::shared_ptr<std::vector<std::string>> n) : f{std::move(f)}, n{std::move(n)} {}
        CSVField operator[](std::size_t i) const { return CSVField{f.at(i)}; }
        CSVField operator[](const std::string &name) const {
            auto it = std::find(n->begin(), n->end(), name);
            if (it == n->end()) throw std::runtime_error("Can't find a column named " + name);
            return CSVField{f.at(it - n->begin())};
        }
        const std::vector<std::string> &get_col_names() const { return *n; }
        std::size_t size() const { return f.size(); }
        bool empty() const { return f.empty(); }
    private:
        std::vector<std::string> f;
        std::shared_ptr<std::vector<std::string>> n;
    };
    class CSVReader {
    public:
        CSVReader(const std::string &file, const CSVFormat &format) {
            std::ifstream in(file, std::ios::binary);
            std::string all{std::istreambuf_iterator<char>(in), {}};
            char d = format.delims.empty() ? ',' : format.delims.front();
            if (format.delims.size() > 1) {
                const std::string first = all.substr(0, all.find('\n'));
                std::ptrdiff_t best = -1;
                for (char c : format.delims) {
                    auto k = std::count(first.begin(), first.end(), c);
                    if (k > best) { best = k; d = c; }
                }
            }
            std::vector<std::string> cur; std::string fld; bool quoted = false, any = false;
            std::vector<std::vector<std::string>> recs;
            auto flush = [&]() { cur.push_back(fld); fld.clear(); };
            for (std::size_t i = 0; i < all.size(); ++i) {
                char c = all[i];
                if (quoted) {
                    if (c == format.q) { if (i + 1 < all.size() && all[i + 1] == format.q) { fld += c; ++i; } else quoted = false; }
                    else fld += c;
                } else if (c == format.q && fld.empty()) { quoted = true; any = true; }
                else if (c == d) { flush(); any = true; }
                else if (c == '\n') { if (any || !fld.empty()) { flush(); recs.push_back(cur); } cur.clear(); any = false; }
                else if (c == '\r') {}
                else { fld += c; any = true; }
            }
            if (any || !fld.empty()) { flush(); recs.push_back(cur); }
            std::size_t b = 0;
            if (format.header && !recs.empty()) { *names = recs[0]; b = 1; }
            for (; b < recs.size(); ++b) if (!format.header || recs[b].size() == names->size()) rows.emplace_back(recs[b], names);
        }
        std::vector<std::string> get_col_names() const { return *names; }
        auto begin() { return rows.begin(); }
        auto end() { return rows.end(); }
    private:
        std::shared_ptr<std::vector<std::string>> names = std::make_shared<std::vector<std::string>>();
        std::vector<CSVRow> rows;
    };
    template<typename Out, char Delim = ',', char Quote = '"', bool Flush = false>
    class DelimWriter {
    public:
        explicit DelimWriter(Out &o) : o{o} {}
        template<typename C> DelimWriter &operator<<(const C &row) {
            bool first = true;
            for (const auto &x : row) {
                if (!first) o << Delim;
                first = false;
                std::string s(x);
                if (s.find_first_of(std::string{Delim, Quote, '\n', '\r'}) != std::string::npos) {
                    std::string e(1, Quote);
                    for (char c : s) { if (c == Quote) e += Quote; e += c; }
                    s = e + Quote;
                }
                o << s;
            }
            o << '\n';
            if (Flush) o.flush();
            return *this;
        }
    private:
        Out &o;
    };
    template<typename Out> using CSVWriter = DelimWriter<Out>;
}
#endif
