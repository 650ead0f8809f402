#include "tf_edges.h"
