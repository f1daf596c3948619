#pragma once
#include "vlammps_kokkos.h"
