#pragma once
#include "lite_shim.h"
