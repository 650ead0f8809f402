#pragma once
#include "ruy_shim.h"
