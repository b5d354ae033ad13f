// Stand-in for irdvo/gpxlib (not installed here): parses <trk><name/><trkseg><trkpt lat lon><time/></trkpt>...
#ifndef MM2V_STUB_GPX_HPP
#define MM2V_STUB_GPX_HPP
#include <istream>
#include <iterator>
#include <list>
#include <memory>
#include <string>
namespace gpx {
    struct Leaf { std::string v; const std::string &getValue() const { return v; } };
    template<typename T> struct List { std::list<T *> l; std::list<T *> &list() { return l; } };
    struct WPT { Leaf t, la, lo; Leaf &time() { return t; } Leaf &lat() { return la; } Leaf &lon() { return lo; } };
    struct TRKSeg { List<WPT> p; List<WPT> &trkpts() { return p; } };
    struct TRK { Leaf n; List<TRKSeg> s; Leaf &name() { return n; } List<TRKSeg> &trksegs() { return s; } };
    struct Meta { Leaf n; Leaf &name() { return n; } };
    struct GPX { Meta m; List<TRK> t; Meta &metadata() { return m; } List<TRK> &trks() { return t; } };
    class Parser {
    public:
        explicit Parser(void *) {}
        GPX *parse(std::istream &in) {
            std::string s{std::istreambuf_iterator<char>(in), {}};
            auto attr = [](const std::string &tag, const std::string &n) {
                auto p = tag.find(n + "=\"");
                if (p == std::string::npos) return std::string{};
                p += n.size() + 2;
                return tag.substr(p, tag.find('"', p) - p);
            };
            static std::list<std::shared_ptr<void>> keep;            // the real one does not hand over ownership clearly
            auto hold = [](auto *x) { keep.emplace_back(x, [](void *) {}); return x; };
            GPX *g = hold(new GPX);
            TRK *trk = nullptr; TRKSeg *seg = nullptr; WPT *pt = nullptr; bool meta = false;
            std::size_t i = 0;
            while ((i = s.find('<', i)) != std::string::npos) {
                auto e = s.find('>', i);
                if (e == std::string::npos) return nullptr;
                std::string tag = s.substr(i + 1, e - i - 1);
                bool self = !tag.empty() && tag.back() == '/';
                std::string name = tag.substr(0, tag.find_first_of(" /\t\n", 1));
                auto text = s.substr(e + 1, s.find('<', e) == std::string::npos ? 0 : s.find('<', e) - e - 1);
                if (name == "metadata") meta = true;
                else if (name == "/metadata") meta = false;
                else if (name == "trk") { trk = hold(new TRK); g->t.l.push_back(trk); }
                else if (name == "/trk") trk = nullptr;
                else if (name == "trkseg") { seg = hold(new TRKSeg); if (trk) trk->s.l.push_back(seg); }
                else if (name == "trkpt") {
                    pt = hold(new WPT); pt->la.v = attr(tag, "lat"); pt->lo.v = attr(tag, "lon");
                    if (seg) seg->p.l.push_back(pt);
                    if (self) pt = nullptr;
                } else if (name == "/trkpt") pt = nullptr;
                else if (name == "name" && !self) { if (meta) g->m.n.v = text; else if (trk && !pt) trk->n.v = text; }
                else if (name == "time" && !self) { if (pt) pt->t.v = text; }
                i = e + 1;
            }
            return g;
        }
        std::string errorText() const { return "error"; }
        int errorLineNumber() const { return 0; }
        int errorColumnNumber() const { return 0; }
    };
}
#endif
