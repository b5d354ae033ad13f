// Networks written to disk and read back (C17), shared by the parts for the coordinate systems.
#ifndef MM2V_STORED_HPP
#define MM2V_STORED_HPP
#include "flat_map_serialization.hpp"
#include "network_net.hpp"
#include "app/network.hpp"
namespace mm2v {
    struct Query { std::string q; std::vector<long> a; };
    struct Stored { std::vector<std::string> lines; std::vector<Query> queries; app::prepare_data p; app::match_data m; };
    J stored_cartesian(Stored &);
    J stored_geographic(Stored &);
    // the program opens a network of any kind
    geometry::network::network_variant_type open_any(const app::match_data &);
}
#endif
