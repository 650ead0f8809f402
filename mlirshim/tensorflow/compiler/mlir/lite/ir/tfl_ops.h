// Stand-in for TensorFlow Lite's tfl_ops.h (op classes are generated by
// lib/mtblgen.py from the stand-in tfl_ops.td).
#ifndef LCEV_TFL_OPS_H_
#define LCEV_TFL_OPS_H_
#include "mlir/Bytecode/BytecodeOpInterface.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Quant/QuantOps.h"
#include "mlir/Dialect/Quant/QuantTypes.h"
#include "mlir/Dialect/Traits.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinTypes.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/DialectImplementation.h"
#include "mlir/IR/OpImplementation.h"
#include "mlir/IR/TypeUtilities.h"
#include "mlir/Interfaces/InferTypeOpInterface.h"
#include "mlir/Interfaces/SideEffectInterfaces.h"
#include "mlir/Support/LogicalResult.h"
#include "tensorflow/lite/schema/schema_generated.h"
namespace mlir {
namespace OpTrait {
#ifndef LCEV_FADRT
#define LCEV_FADRT
template <typename C> class FirstAttrDerivedResultType : public TraitBase<C, FirstAttrDerivedResultType> {};
#endif
}
namespace TFL {
namespace detail { struct ConstBytesAttrStorage; }
class ConstBytesAttr : public Attribute::AttrBase<ConstBytesAttr, Attribute, detail::ConstBytesAttrStorage> {
 public:
  using Base::Base;
  static constexpr StringLiteral name = "tfl.const_bytes";
  static ConstBytesAttr get(MLIRContext* context, StringRef value);
  StringRef getValue() const;
};
}  // namespace TFL
}  // namespace mlir
#include "tfl_dialect.h.inc"
#include "tfl_ops.h.inc"
#endif
