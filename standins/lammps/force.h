#pragma once
#include "vlammps.h"
