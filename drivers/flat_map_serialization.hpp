// Boost 1.84 and later store these maps themselves; the one installed here does not.
#ifndef MM2V_FLAT_MAP_SERIALIZATION_HPP
#define MM2V_FLAT_MAP_SERIALIZATION_HPP
#include <boost/version.hpp>
#if BOOST_VERSION < 108400
#include <boost/unordered/unordered_flat_map.hpp>
#include <boost/serialization/split_free.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
namespace boost::serialization {
    template<typename A, typename K, typename V, typename H, typename E, typename Al>
    void save(A &ar, const boost::unordered_flat_map<K, V, H, E, Al> &m, unsigned) {
        const std::size_t n = m.size();
        ar << n;
        for (const auto &x : m) { const K k = x.first; ar << k << x.second; }
    }
    template<typename A, typename K, typename V, typename H, typename E, typename Al>
    void load(A &ar, boost::unordered_flat_map<K, V, H, E, Al> &m, unsigned) {
        std::size_t n; ar >> n;
        m.clear();
        for (; n > 0; --n) { K k; V v; ar >> k >> v; m.emplace(std::move(k), std::move(v)); }
    }
    template<typename A, typename K, typename V, typename H, typename E, typename Al>
    void serialize(A &ar, boost::unordered_flat_map<K, V, H, E, Al> &m, unsigned v) { split_free(ar, m, v); }
}
#endif
#endif
