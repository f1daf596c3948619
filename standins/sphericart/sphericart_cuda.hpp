// Stand-in: only the CPU path (no SYMMETRIX_SPHERICART_CUDA) is built here.
#pragma once
#include "sphericart.hpp"
