// Stand-in: recognising SpaceToBatch/BatchToSpace is TensorFlow's code.
#pragma once
#include "mlir/IR/PatternMatch.h"
namespace mlir { namespace TFL {
template <typename Conv2dOpTy>
struct ConvertTFDilatedConvOp : public OpRewritePattern<Conv2dOpTy> {
  using OpRewritePattern<Conv2dOpTy>::OpRewritePattern;
  LogicalResult matchAndRewrite(Conv2dOpTy, PatternRewriter&) const override { return failure(); }
};
} }
