#pragma once
#include "KokkosBatched_Util.hpp"
