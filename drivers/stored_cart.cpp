#define MM2V_CS MM2_CARTESIAN
#define MM2V_NAME stored_cartesian
#include "stored_part.hpp"
