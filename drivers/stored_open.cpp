#include "app/network.cpp"
#include "stored.hpp"
namespace mm2v { geometry::network::network_variant_type open_any(const app::match_data &m) { return app::open_network(m); } }
