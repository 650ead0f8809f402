#pragma once
#include "tfl_shim.h"
