#pragma once
#include "mlir/IR/BuiltinAttributes.h"
#include "mlir/IR/BuiltinTypes.h"
namespace mlir { namespace TFL {
inline bool TFIntListIs1XY1(Attribute attr) {
  auto a = llvm::dyn_cast_or_null<ArrayAttr>(attr);
  if (!a || a.size() != 4) return false;
  for (auto e : a) if (!llvm::isa<IntegerAttr>(e)) return false;
  return llvm::cast<IntegerAttr>(a[0]).getInt() == 1 && llvm::cast<IntegerAttr>(a[3]).getInt() == 1;
}
} }
