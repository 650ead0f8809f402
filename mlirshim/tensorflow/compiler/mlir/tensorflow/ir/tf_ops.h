// Stand-in for TensorFlow's tf_ops.h.
#ifndef LCEV_TF_OPS_H_
#define LCEV_TF_OPS_H_
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Traits.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinTypes.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/OpImplementation.h"
#include "mlir/IR/TypeUtilities.h"
#include "mlir/Interfaces/SideEffectInterfaces.h"
#include "tf_dialect.h.inc"
#include "tf_ops.h.inc"
#endif
