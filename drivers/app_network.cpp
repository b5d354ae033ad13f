#include "flat_map_serialization.hpp"
#include "app/network.cpp"
