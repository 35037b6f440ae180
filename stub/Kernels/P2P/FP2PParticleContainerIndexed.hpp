#include "vf_scalfmm.hpp"
