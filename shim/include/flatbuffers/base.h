#pragma once
#include "flex_shim.h"
