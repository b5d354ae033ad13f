#define MM2V_CS MM2_GEOGRAPHIC
#define MM2V_NAME stored_geographic
#include "stored_part.hpp"
