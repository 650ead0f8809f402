#pragma once
#include "bench_shim.h"
