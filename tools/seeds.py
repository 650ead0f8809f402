"""The planted bugs: edits, what they need, and the script of the demonstration."""
import random, struct

L = "larq_compute_engine/"
KREF, KOPT, KIND = (1, 0), (0, 0), (0, 1)
SEEDS = []


def seed(**k):
    SEEDS.append(k)


def cd(a, b):
    return -(-a // b)


def n(s):
    r = 1
    for x in s:
        r *= x
    return r


def packed(r, rows, ch, p=0.5):
    b = b""
    for _ in range(rows):
        for w in range(cd(ch, 32)):
            v = 0
            for i in range(32):
                if 32 * w + i < ch and r.random() < p:
                    v |= 1 << i
            b += struct.pack("<I", v)
    return b.hex()


def floats(v):
    return b"".join(struct.pack("<f", x) for x in v).hex()


def ints(v):
    return b"".join(struct.pack("<i", x) for x in v).hex()


def conv(i, kernel, s, w, cin, pad=1, pv=1, st=(1, 1), dil=(1, 1), act=0, ot="f32", mul=None, bias=None, thr=None, scale=1.0, zp=0, seed=1, affine=1,
         bias_n=None, thr_n=None, run=True, kin=5, in_type="i32", mode="rw"):
    """Lines for one LceBconv2d.  s = input shape (n, h, w), w = (co, fh, fw), wpg words per filter pixel."""
    r = random.Random(seed)
    co, fh, fw = w[:3]
    wp = w[3] if len(w) > 3 else cd(cin, 32)
    o = ["new %d LceBconv2d %d %d" % ((i,) + kernel)]
    for k, v in (("stride_height", st[0]), ("stride_width", st[1]), ("dilation_height_factor", dil[0]), ("dilation_width_factor", dil[1]),
                 ("padding", pad), ("pad_values", pv), ("channels_in", cin), ("fused_activation_function", act)):
        o.append("opt %d int %s %d" % (i, k, v))
    o.append("init %d" % i)
    ws = cd(cin, 32)
    o.append("tensor %d in %s %s 4 %d %d %d %d" % (i, in_type, mode, s[0], s[1], s[2], ws))
    o.append("tensor %d in i32 ro 4 %d %d %d %d" % (i, co, fh, fw, wp))
    o.append("tensor %d in f32 ro 1 %d" % (i, co))
    o.append("tensor %d in f32 ro 1 %d" % (i, bias_n or co))
    o.append("tensor %d in i32 ro 1 %d" % (i, thr_n or co))
    o.append("tensor %d out %s rw 4 0 0 0 0" % (i, ot))
    if ot == "i8":
        o.append("quant %d out 0 %r %d %d" % (i, scale, zp, affine))
    o.append("data %d 1 %s" % (i, packed(r, co * fh * fw, cin if wp == ws else 32 * wp)))
    mul = mul or [1.0] * co
    bias = bias or [0.0] * (bias_n or co)
    K = fh * fw * (cin if wp == ws else 32 * wp)
    thr = thr or [K // 2 + r.randrange(-3, 4) for _ in range(thr_n or co)]
    o.append("data %d 2 %s" % (i, floats(mul)))
    o.append("data %d 3 %s" % (i, floats(bias)))
    o.append("data %d 4 %s" % (i, ints(thr)))
    o.append("prepare %d" % i)
    if run:
        o.append("data %d 0 %s" % (i, packed(r, n(s), cin)))
        o.append("eval %d 153" % i)
    return o


def feed(i, s, cin, seed):
    return ["data %d 0 %s" % (i, packed(random.Random(seed), n(s), cin)), "eval %d 7" % i]


def script(*parts):
    out = ["mark 0"]
    for p in parts:
        out += p
    return "\n".join(out) + "\n"


def quant(i, t, shape, data, zp=0):
    return ["new %d LceQuantize 0 0" % i, "init %d" % i, "tensor %d in %s rw %d %s" % (i, t, len(shape), " ".join(map(str, shape))),
            "quant %d in 0 1.0 %d 1" % (i, zp), "tensor %d out i32 rw %d %s" % (i, len(shape), " ".join("0" for _ in shape)),
            "prepare %d" % i, "data %d 0 %s" % (i, data), "eval %d 85" % i]


def dequant(i, t, os, data, scale=1.0, zp=0):
    s = list(os[:-1]) + [cd(os[-1], 32)]
    o = ["new %d LceDequantize 0 0" % i, "init %d" % i, "tensor %d in i32 rw %d %s" % (i, len(s), " ".join(map(str, s))),
         "tensor %d out %s rw %d %s" % (i, t, len(os), " ".join(map(str, os)))]
    if t == "i8":
        o.append("quant %d out 0 %r %d 1" % (i, scale, zp))
    return o + ["prepare %d" % i, "data %d 0 %s" % (i, data), "eval %d 85" % i]


def pool(i, s, f, st, pad, p=0.8, seed=3):
    o = ["new %d LceBMaxPool2d 0 0" % i]
    for k, v in (("filter_height", f[0]), ("filter_width", f[1]), ("stride_height", st[0]), ("stride_width", st[1]), ("padding", pad)):
        o.append("opt %d int %s %d" % (i, k, v))
    o += ["init %d" % i, "tensor %d in i32 rw 4 %d %d %d %d" % ((i,) + tuple(s)), "tensor %d out i32 rw 4 0 0 0 0" % i, "prepare %d" % i,
          "data %d 0 %s" % (i, packed(random.Random(seed), n(s), 32, p)), "eval %d 85" % i]
    return o


rr = random.Random(77)
I8 = lambda k, lo=-128, hi=127: bytes((rr.randrange(lo, hi + 1)) & 255 for _ in range(k)).hex()

# ---- C01 ------------------------------------------------------------------
seed(id="C01-flat-rows", property="C01",
     needs="A last dimension that is not a multiple of 32 while rows*channels is (e.g. 4 rows of 8 channels).",
     breaks="The flat fast path is taken for the whole matrix, so several rows are packed into the same 32-bit word.",
     edits=[(L + "core/bitpacking/bitpack.h",
             "  if (input_num_cols % bitpacking_bitwidth == 0) {\n    // If each row can be bitpacked without any padding, then we can treat\n",
             "  if ((input_num_rows * input_num_cols) % bitpacking_bitwidth == 0) {\n    // If the matrix can be bitpacked without any padding, then we can treat\n")],
     script=script(quant(0, "f32", [4, 8], floats([(-1.0) ** (i * i // 3) * (i + 1) for i in range(32)])), quant(1, "i8", [2, 3, 33], I8(198), 5)))

seed(id="C01-tail-zero-point", property="C01",
     needs="int8 input with a positive zero point and a channel count that is not a multiple of 32.",
     breaks="The padding channels of the last word are compared as value 0 against a positive zero point, so padding bits become 1.",
     edits=[(L + "core/bitpacking/bitpack.h",
             "    std::array<TIn, bitpacking_bitwidth> padding_buffer = {{0}};\n    memcpy(padding_buffer.data(), in, elements_left * sizeof(TIn));\n    for (size_t i = elements_left; i < bitpacking_bitwidth; ++i)\n      padding_buffer[i] = zero_point;\n",
             "    // Value-initialised, i.e. the padding elements are non-negative.\n    std::array<TIn, bitpacking_bitwidth> padding_buffer = {{0}};\n    memcpy(padding_buffer.data(), in, elements_left * sizeof(TIn));\n")],
     script=script(quant(0, "i8", [2, 40], I8(80), 0), quant(1, "i8", [2, 40], I8(80), 9)))

# ---- C02 ------------------------------------------------------------------
seed(id="C02-truncated-offset", property="C02",
     needs="int8 output whose reciprocal scale is not an integer and has a fractional part above one half (e.g. scale 0.4).",
     breaks="The int8 code of +1/-1 is truncated instead of rounded, so the decoded value is one step off.",
     edits=[(L + "tflite/kernels/quantization.cc",
             "    int offset = TfLiteRound(1.0f / output->params.scale);\n",
             "    const int offset = static_cast<int>(1.0f / output->params.scale);\n")],
     script=script(dequant(0, "i8", [1, 33], packed(rr, 1, 33), 0.25, 3), dequant(1, "i8", [1, 33], packed(rr, 1, 33), 0.375, -4)))

seed(id="C02-tail-rows", property="C02",
     needs="More than one row and a channel count with a full word and a remainder (e.g. 2x40).",
     breaks="The input pointer is advanced per row by the rounded-down word count, so rows after the first read the wrong words.",
     edits=[(L + "core/bitpacking/bitpack.h",
             "    if (elements_left != 0) {\n      unpack_bitfield(*in_ptr++, out_ptr, elements_left, zero_bit_result,\n                      one_bit_result);\n    }\n",
             "    if (elements_left != 0) {\n      unpack_bitfield(*in_ptr, out_ptr, elements_left, zero_bit_result,\n                      one_bit_result);\n      // A row of less than one word is its own remainder.\n      if (num_cols < bitpacking_bitwidth) in_ptr++;\n    }\n")],
     script=script(dequant(0, "f32", [3, 20], packed(rr, 3, 20)), dequant(1, "f32", [2, 64], packed(rr, 2, 64)), dequant(2, "bool", [3, 40], packed(rr, 3, 40))))

# ---- C03 / C04 --------------------------------------------------------------
seed(id="C03-indirect-batch", property="C03",
     needs="The indirect kernel, batch > 1 and an output that is not as large as the input (stride or VALID padding).",
     breaks="The batch offset into the input is computed with the output's spatial size, so later batches read shifted pixels.",
     edits=[(L + "core/indirect_bgemm/kernel.h",
             "                    (input_ptr + (batch_index * input_height * input_width +\n",
             "                    (input_ptr + (batch_index * output_height * output_width +\n")],
     script=script(conv(0, KIND, (1, 4, 4), (4, 3, 3), 40, pad=1), conv(1, KIND, (2, 4, 5), (3, 3, 2), 40, pad=1)))

seed(id="C03-ref-dilated-bound", property="C03",
     needs="The reference kernel with different row and column dilation.",
     breaks="The column dilation is used for rows, so the filter taps are taken from the wrong image rows.",
     edits=[(L + "core/bconv2d/reference.h",
             "              const int in_y = in_y_origin + dilation_height_factor * filter_y;\n",
             "              const int in_y = in_y_origin + dilation_width_factor * filter_y;\n"),
            (L + "core/bconv2d/reference.h",
             "              const int in_x = in_x_origin + dilation_width_factor * filter_x;\n",
             "              const int in_x = in_x_origin + dilation_height_factor * filter_x;\n")],
     script=script(conv(0, KREF, (1, 6, 6), (2, 2, 2), 20, dil=(2, 2)), conv(1, KREF, (1, 6, 6), (2, 2, 3), 20, pad=0, dil=(2, 1))))

seed(id="C04-im2col-stride", property="C04",
     needs="The optimized BGEMM kernel, a 1x1 filter, no dilation, unit column stride and a row stride above 1.",
     breaks="The 'no im2col needed' shortcut ignores the row stride at two cooperating sites, so the GEMM runs on all rows of the input.",
     edits=[(L + "core/bconv2d/optimized_bgemm.h",
             "  const bool need_im2col = stride_width != 1 || stride_height != 1 ||\n                           filter_width != 1 || filter_height != 1;\n",
             "  const bool need_im2col =\n      stride_width != 1 || filter_width != 1 || filter_height != 1;\n"),
            (L + "core/bconv2d/optimized_bgemm.h", "  const int stride_height = params.stride_height;\n  const int dilation_width_factor = params.dilation_width_factor;\n  const int dilation_height_factor = params.dilation_height_factor;\n\n  // On bitpacked",
             "  const int dilation_width_factor = params.dilation_width_factor;\n  const int dilation_height_factor = params.dilation_height_factor;\n\n  // On bitpacked"),
            (L + "tflite/kernels/bconv2d.cc", "      (bconv2d_params->stride_width != 1 ||\n       bconv2d_params->stride_height != 1 ||\n", "      (bconv2d_params->stride_width != 1 ||\n")],
     script=script(conv(0, KOPT, (1, 4, 4), (2, 1, 1), 20, st=(1, 1)), conv(1, KOPT, (1, 4, 4), (2, 1, 1), 20, st=(2, 1))))

seed(id="C04-indirect-two-left", property="C04",
     needs="The indirect kernel with an output channel count that leaves exactly three channels in the last block (e.g. 7), and the second pixel of a pair.",
     breaks="After the two-channel tail only the first pixel's accumulator is shifted down, so the third channel of every second pixel is wrong.",
     edits=[(L + "core/indirect_bgemm/kernel_4x2_portable.h", "            acc_01 = acc_21;\n            acc_00 = acc_20;\n", "            acc_00 = acc_20;\n            acc_01 = acc_11;\n")],
     script=script(conv(0, KIND, (1, 2, 3), (6, 2, 2), 40), conv(1, KIND, (1, 2, 3), (7, 2, 2), 40, pad=0)))

# ---- C05 ------------------------------------------------------------------
seed(id="C05-cache-dilation", property="C05",
     needs="SAME zero padding with different row and column dilations and a filter of more than one column.",
     breaks="The cached padding corrections assign filter columns to positions using the row dilation (as the comment above the code says).",
     edits=[(L + "core/bconv2d/zero_padding_correction.h", "            const int effective_filter_x = dilation_cols * filter_x;\n            const int effective_filter_y = dilation_rows * filter_y;\n",
             "            const int effective_filter_x = dilation_rows * filter_x;\n            const int effective_filter_y = dilation_cols * filter_y;\n")],
     script=script(conv(0, KOPT, (1, 7, 7), (2, 3, 3), 20, pad=0, pv=0, dil=(2, 2)), conv(1, KOPT, (1, 7, 7), (2, 3, 3), 20, pad=0, pv=0, dil=(1, 2)))) 

seed(id="C05-skip-too-far", property="C05",
     needs="SAME zero padding with a column stride of at least 2 and a width for which the last output column sticks out on the right after an inner column.",
     breaks="The jump over the interior of a row rounds up once more, skipping the first column that needs the right-hand correction.",
     edits=[(L + "core/bconv2d/zero_padding_correction.h",
             "          int new_out_x = (input_width + filter_left_offset -\n                           effective_filter_width + stride_cols - 1) /\n                              stride_cols -\n                          1;\n",
             "          int new_out_x = (input_width + filter_left_offset -\n                           effective_filter_width + 2 * (stride_cols - 1)) /\n                              stride_cols -\n                          1;\n")],
     script=script(conv(0, KOPT, (1, 6, 6), (2, 3, 3), 20, pad=0, pv=0), *[conv(i, KOPT, (1, 9, 5 + i), (2, 4, 4), 20, pad=0, pv=0, st=(1, 2), seed=i) for i in range(1, 6)],
                   *[conv(i, KOPT, (1, 9, 3 + i), (2, 3, 5), 20, pad=0, pv=0, st=(2, 3), seed=i) for i in range(6, 12)]))

# ---- C06 ------------------------------------------------------------------
seed(id="C06-halved-clamp", property="C06",
     needs="Float output, a fused ReLU and an odd number of accumulated bits (e.g. a 1x3 filter over 33 channels).",
     breaks="Clamping before the left shift rounds an odd clamp bound, so ReLU lets -1 through or returns 1 instead of 0.",
     edits=[(L + "core/bconv2d/output_transform.h",
             "  float Run(const std::int32_t accum, int out_channel) const {\n    TFLITE_DCHECK(multiplier != nullptr);\n    TFLITE_DCHECK(bias != nullptr);\n    std::int32_t x = accum << 1;\n    x = std::max<std::int32_t>(std::min<std::int32_t>(x, clamp_max), clamp_min);\n    return static_cast<float>(x) * multiplier[out_channel] + bias[out_channel];\n",
             "  float Run(const std::int32_t accum, int out_channel) const {\n    TFLITE_DCHECK(multiplier != nullptr);\n    TFLITE_DCHECK(bias != nullptr);\n    std::int32_t x = std::max<std::int32_t>(\n        std::min<std::int32_t>(accum, clamp_max >> 1), clamp_min >> 1);\n    x <<= 1;\n    return static_cast<float>(x) * multiplier[out_channel] + bias[out_channel];\n")],
     script=script(conv(0, KOPT, (1, 3, 3), (3, 1, 2), 32, act=1), conv(1, KOPT, (1, 3, 3), (3, 1, 3), 33, act=1), conv(2, KREF, (1, 3, 3), (3, 1, 1), 5, act=1)))

seed(id="C06-int16-saturate", property="C06",
     needs="int8 output where the scaled value is beyond the 16-bit range (large multiplier, small output scale).",
     breaks="The rounded value is narrowed to 16 bits before it is saturated to int8, so very large values wrap around.",
     edits=[(L + "core/bconv2d/output_transform.h", "// Clamp an int32 value to int8 range\ninline std::int8_t saturate(std::int32_t x) {\n", "// Clamp a value to int8 range\ninline std::int8_t saturate(std::int16_t y) {\n  std::int32_t x = y;\n"),
            (L + "core/bconv2d/output_transform.h", "#ifdef __arm__\n  std::int8_t y;\n  asm(\"ssat %[y], #8, %[x]\\n\" : [y] \"=r\"(y) : [x] \"r\"(x));\n  return y;\n#else\n  x = std::min<std::int32_t>(x, std::numeric_limits<std::int8_t>::max());",
             "#ifdef __arm__\n  std::int8_t z;\n  asm(\"ssat %[y], #8, %[x]\\n\" : [y] \"=r\"(z) : [x] \"r\"(x));\n  return z;\n#else\n  x = std::min<std::int32_t>(x, std::numeric_limits<std::int8_t>::max());")],
     script=script(conv(0, KOPT, (1, 3, 3), (3, 3, 3), 64, ot="i8", scale=1.0), conv(1, KOPT, (1, 3, 3), (3, 3, 3), 64, ot="i8", mul=[700.0, -900.0, 2500.0], scale=0.5, zp=3)))

# ---- C07 ------------------------------------------------------------------
seed(id="C07-indirect-half-tail", property="C07",
     needs="The indirect kernel, bitpacked output and an output channel count whose remainder modulo 16 is 1..3 after a multiple of 4 (e.g. 17 or 34).",
     breaks="The final partial half-word is only written when at least four channels are left in it, so the last channels' bits stay 0.",
     edits=[(L + "core/indirect_bgemm/kernel_4x2_portable.h", "      if (this->output_channels % 16 > 0) {\n", "      if (this->output_channels % 16 >= 4 ||\n          this->output_channels < 16) {\n")],
     script=script(conv(0, KIND, (1, 2, 3), (20, 1, 1), 40, ot="i32"), conv(1, KIND, (1, 2, 3), (34, 1, 1), 40, ot="i32")))

seed(id="C07-unsigned-threshold", property="C07",
     needs="Bitpacked output with a negative threshold (a channel that is always -1 after fusing a batch normalisation with negative bias).",
     breaks="The threshold comparison is unsigned, so a negative threshold never triggers and the bit is 0 instead of 1.",
     edits=[(L + "core/bconv2d/output_transform.h", "    return accum > thresholds[out_channel];\n",
             "    // The accumulator is a popcount, i.e. never negative.\n    return static_cast<std::uint32_t>(accum) >\n           static_cast<std::uint32_t>(thresholds[out_channel]);\n")],
     script=script(conv(0, KOPT, (1, 2, 3), (5, 1, 1), 40, ot="i32"), conv(1, KREF, (1, 2, 3), (5, 1, 1), 40, ot="i32", thr=[20, -1, 19, -2147483647, 21])))

# ---- C08 ------------------------------------------------------------------
seed(id="C08-group-mask", property="C08",
     needs="The indirect kernel, bitpacked output and groups whose number of output channels is not a multiple of 4.",
     breaks="Only the first pixel's column is masked at the end of a group, so in every second pixel bits computed from stale weights leak into the next group's channels.",
     edits=[(L + "core/indirect_bgemm/kernel_4x2_portable.h",
             "            output_col_0 &=\n                (TBitpacked(1) << (base_output_index + gap_to_group_end)) - 1;\n            output_col_1 &=\n                (TBitpacked(1) << (base_output_index + gap_to_group_end)) - 1;\n",
             "            output_col_0 &=\n                (TBitpacked(1) << (base_output_index + gap_to_group_end)) - 1;\n            output_col_1 &= (TBitpacked(1) << (base_output_index + 4)) - 1;\n")],
     script=script(conv(0, KIND, (1, 2, 3), (8, 2, 2, 1), 64, ot="i32"), conv(1, KIND, (1, 2, 4), (12, 2, 2, 1), 64, ot="i32", thr=[-5] * 12)))

seed(id="C08-ref-zero-pad-group", property="C08",
     needs="The reference kernel with groups > 1 and SAME zero padding.",
     breaks="The value accumulated for a padded position uses the channel count of all groups instead of one group.",
     edits=[(L + "core/bconv2d/reference.h", "      (bconv2d_params->channels_in / bconv2d_params->groups) / 2;\n", "      bconv2d_params->channels_in / 2;\n")],
     script=script(conv(0, KREF, (1, 3, 3), (2, 3, 3), 64, pad=0, pv=0), conv(1, KREF, (1, 3, 3), (4, 3, 3, 1), 64, pad=0, pv=0)))

# ---- C09 ------------------------------------------------------------------
seed(id="C09-row-jump", property="C09",
     needs="SAME padding with a window clipped on the left or right and at least two in-image rows.",
     breaks="The jump to the next row uses the full filter width, so clipped windows read neighbouring pixels in later rows.",
     edits=[(L + "core/bmaxpool.h", "        const int y_stride = channels * (input_width - filter_x_count);\n", "        const int y_stride = channels * (input_width - filter_width);\n")],
     script=script(pool(0, (1, 4, 4, 1), (2, 2), (2, 2), 0), pool(1, (1, 5, 5, 2), (3, 3), (2, 2), 0, 0.7)))

# ---- C10 ------------------------------------------------------------------
seed(id="C10-im2col-grow-only", property="C10",
     needs="The optimized BGEMM kernel with im2col, invoked on a large input, then resized to a smaller one.",
     breaks="The im2col tensor is only ever enlarged, but its shape determines the number of GEMM columns, so after shrinking the op computes (and writes) the old number of pixels.",
     edits=[(L + "tflite/kernels/bconv2d.cc",
             "    TF_LITE_ENSURE_STATUS(context->ResizeTensor(context, im2col, im2col_size));\n",
             "    // The buffer can be reused if it is large enough already.\n    int required = 1;\n    for (int i = 0; i < 4; ++i) required *= im2col_size->data[i];\n    if (im2col->dims == nullptr || NumDimensions(im2col) != 4 ||\n        NumElements(im2col) < required) {\n      TF_LITE_ENSURE_STATUS(\n          context->ResizeTensor(context, im2col, im2col_size));\n    } else {\n      TfLiteIntArrayFree(im2col_size);\n    }\n")],
     script=script(conv(0, KOPT, (1, 3, 3), (2, 2, 2), 20), ["resize 0 0 4 1 5 5 1", "prepare 0"], feed(0, (1, 5, 5), 20, 3), ["resize 0 0 4 1 3 4 1", "prepare 0"], feed(0, (1, 3, 4), 20, 4)))

seed(id="C10-stale-padding", property="C10",
     needs="SAME padding with a stride above 1, two prepares: resizing the input between sizes whose total padding differs (e.g. 5 -> 6 with stride 2).",
     breaks="The padding offsets are only computed by the first Prepare and kept for later input sizes.",
     edits=[(L + "tflite/kernels/bconv2d.cc",
             "  bconv2d_params->padding_values = ComputePaddingHeightWidth(\n",
             "  const auto padding_values = ComputePaddingHeightWidth(\n"),
            (L + "tflite/kernels/bconv2d.cc",
             "      bconv2d_params->filter_width, bconv2d_params->padding_type, &out_height,\n      &out_width);\n",
             "      bconv2d_params->filter_width, bconv2d_params->padding_type, &out_height,\n      &out_width);\n  if (!op_data->one_time_setup_complete) {\n    bconv2d_params->padding_values = padding_values;\n  }\n")],
     script=script(conv(0, KREF, (1, 5, 5), (2, 3, 3), 20, pad=0, st=(2, 2)), ["resize 0 0 4 2 7 7 1", "prepare 0"], feed(0, (2, 7, 7), 20, 3), ["resize 0 0 4 1 6 6 1", "prepare 0"], feed(0, (1, 6, 6), 20, 4)))

# ---- C11 ------------------------------------------------------------------
seed(id="C11-bias-length", property="C11",
     needs="A post-activation bias whose length differs from the number of output channels (multiplier correct).",
     breaks="The bias length check tests the multiplier again, so a short bias is accepted and read out of bounds.",
     edits=[(L + "tflite/kernels/bconv2d.cc", "    TF_LITE_ENSURE_EQ(context, SizeOfDimension(post_activation_bias, 0),\n                      bconv2d_params->channels_out);\n",
             "    TF_LITE_ENSURE_EQ(context, SizeOfDimension(post_activation_multiplier, 0),\n                      NumElements(post_activation_multiplier));\n")],
     script=script(conv(0, KOPT, (1, 3, 3), (4, 1, 1), 20), conv(1, KOPT, (1, 3, 3), (4, 1, 1), 20, bias_n=3, run=False)))

seed(id="C11-dequant-leading", property="C11",
     needs="LceDequantize with an output of rank 3 or more whose dimension before the last differs from the input's.",
     breaks="The check that the leading dimensions agree stops one dimension early, so a mismatching output is accepted and input is read out of bounds.",
     edits=[(L + "tflite/kernels/quantization.cc", "  for (int i = 0; i < num_dims - 1; ++i) {\n    TF_LITE_ENSURE_EQ(context, SizeOfDimension(output, i),\n", "  for (int i = 0; i + 1 < num_dims - 1; ++i) {\n    TF_LITE_ENSURE_EQ(context, SizeOfDimension(output, i),\n")],
     script=script(dequant(0, "f32", [2, 3, 33], packed(rr, 6, 33)),
                   ["new 1 LceDequantize 0 0", "init 1", "tensor 1 in i32 rw 3 2 3 2", "tensor 1 out f32 rw 3 2 4 33", "prepare 1"]))

# ---- C12 ------------------------------------------------------------------
seed(id="C12-row-range", property="C12",
     needs="Bitpacked output with more output channels than one block (32), computed in several row blocks that run concurrently or out of order.",
     breaks="A block clears the first word of the block below it (to have padding bits zero), which loses that block's result if it was computed before.",
     edits=[(L + "core/bgemm/kernels.h",
             "    for (int j = start_col; j < clamped_end_col; j++) {\n      TBitpacked bitpacked_column = 0;\n      for (int i = start_row; i < clamped_end_row; i++) {\n",
             "    for (int j = start_col; j < clamped_end_col; j++) {\n      TBitpacked bitpacked_column = 0;\n      if (clamped_end_row < dst->layout.rows) {\n        // Clear the next word, so that the padding bits are always zero.\n        *(dst->data.get() + clamped_end_row / bitpacking_bitwidth +\n          j * dst_stride_bitpacked) = 0;\n      }\n      for (int i = start_row; i < clamped_end_row; i++) {\n")],
     script=script(["sched 1 1 0 1"], conv(0, KOPT, (1, 2, 2), (70, 1, 1), 40, ot="i32"), *[x for k in range(1, 6) for x in (["sched 1 1 %d 1" % k], conv(k, KOPT, (1, 2, 2), (70, 1, 1), 40, ot="i32"))]))

# ---- C13 ------------------------------------------------------------------
seed(id="C13-indirect-last-pixel", property="C13",
     needs="The indirect kernel with an odd number of output pixels.",
     breaks="For the last, unpaired pixel the second output pointer is only redirected when the block is not the first, so a single-pixel output is followed by a write past the end of the output tensor.",
     edits=[(L + "core/indirect_bgemm/kernel_4x2_portable.h",
             "      auto output_ptr_1 = output_ptr_0 + this->output_channels;\n\n      // At the end of the output array we might get a block where the number of\n      // pixels is less than 2, if the overall output size is not a multiple\n      // of 2. When this happens we set the 'leftover' output pointer equal to\n      // the first output pointer, so that there's no risk of writing beyond the\n      // array bounds. At the end, when we write to the output array, we do it\n      // 'back to front' so that the outputs for the first pixel are written\n      // last, which means that the result will still be correct.\n      if (pixel_end - p_index < 2) {\n",
             "      auto output_ptr_1 = output_ptr_0 + this->output_channels;\n\n      // At the end of the output array we might get a block where the number of\n      // pixels is less than 2, if the overall output size is not a multiple\n      // of 2. When this happens we set the 'leftover' output pointer equal to\n      // the first output pointer, so that there's no risk of writing beyond the\n      // array bounds. At the end, when we write to the output array, we do it\n      // 'back to front' so that the outputs for the first pixel are written\n      // last, which means that the result will still be correct.\n      if (p_index > pixel_start && pixel_end - p_index < 2) {\n")],
     script=script(conv(0, KIND, (1, 3, 3), (4, 1, 1), 20), conv(1, KIND, (1, 3, 3), (5, 3, 3), 20, pad=1)))

# ---- C14 ------------------------------------------------------------------
seed(id="C14-ref-and-indirect", property="C14",
     needs="Registering with both use_reference_bconv and use_indirect_bgemm set.",
     breaks="The indirect kernel wins although the documented rule is that use_indirect_bgemm has no effect when the reference kernel is requested.",
     edits=[(L + "tflite/kernels/lce_ops_register.h", "  if (use_reference_bconv) {\n    resolver->AddCustom(", "  if (use_reference_bconv && !use_indirect_bgemm) {\n    resolver->AddCustom(")],
     script=script(conv(0, (1, 1), (1, 3, 3), (2, 3, 3), 20, ot="i8", pad=0, pv=0, run=True), conv(1, KIND, (1, 3, 3), (2, 3, 3), 20, ot="i8", pad=0, pv=0, run=False)))

# ---- C15 ------------------------------------------------------------------
SB = L + "mlir/transforms/set_batch_size.cc"
SB_MODULES = """func.func @simple(%arg0: tensor<?x6xf32>, %arg1: tensor<2x6xf32>) -> tensor<?x6xf32> {
  %0 = "t.add"(%arg0, %arg1) : (tensor<?x6xf32>, tensor<2x6xf32>) -> tensor<?x6xf32>
  return %0 : tensor<?x6xf32>
}
// -----
func.func @dyn(%arg0: tensor<?x?x3xf32>, %arg1: tensor<3x?xi8>) -> tensor<?xf32> {
  %0 = "t.f"(%arg0, %arg1) : (tensor<?x?x3xf32>, tensor<3x?xi8>) -> tensor<?xf32>
  return %0 : tensor<?xf32>
}
// -----
func.func @enc(%arg0: tensor<?x4xf32, {bounds = 3 : i64}>, %arg1: tensor<?xi8, "e">) -> tensor<?xf32> {
  %0 = "t.f"(%arg0, %arg1) : (tensor<?x4xf32, {bounds = 3 : i64}>, tensor<?xi8, "e">) -> tensor<?xf32>
  return %0 : tensor<?xf32>
}
// -----
"""
DEMO_SB = """#!/bin/bash
# Builds the pass of the current directory's sources and compares its results.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
F="-std=c++17 -O0 -w -fno-rtti -I$PWD -isystem /usr/lib/llvm-18/include"
g++ $F -c "$D/setbatch_driver.cc" -o "$T/a.o" &
g++ $F -c larq_compute_engine/mlir/transforms/set_batch_size.cc -o "$T/b.o" &
wait
g++ "$T"/a.o "$T"/b.o -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lMLIR -lLLVM-18 -o "$T/d"
"$T/d" "$D/modules.mlir" "$T/out" x
python3 - "$T/out" <<'PY'
import json, sys
def want(t):
    t = json.loads(json.dumps(t))
    if t["k"] == "ranked" and t["d"] and t["d"][0] == -1: t["d"][0] = 1
    return t
for line in open(sys.argv[1]):
    m = json.loads(line)
    for b, a in zip(m["before"]["f"], m["after"]["f"]):
        if [want(t) for t in b["sig"]] != a["sig"] or a["sig"] != a["args"] or b["res"] != a["res"]:
            print("DEMO:", b["name"], "\\n before", b["sig"], "\\n after ", a["sig"], "\\n args  ", a["args"]); sys.exit(1)
print("DEMO: as expected")
PY
"""
import os
SB_FILES = {"modules.mlir": SB_MODULES, "demo.sh": DEMO_SB,
            "setbatch_driver.cc": open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "drivers", "setbatch_driver.cc")).read()}
seed(id="C15-drops-encoding", property="C15",
     needs="A ranked argument with a dynamic batch dimension and an encoding attribute.",
     breaks="The new type is rebuilt from shape and element type only, so the encoding is lost.",
     edits=[(SB, "      return tensor_type.clone(shape_new);\n", "      return mlir::RankedTensorType::get(shape_new,\n                                         tensor_type.getElementType());\n")],
     files=SB_FILES)
seed(id="C15-all-dynamic", property="C15",
     needs="An argument with a dynamic batch and another dynamic dimension (e.g. ?x?x3).",
     breaks="Every dynamic dimension becomes 1, not only the batch dimension.",
     edits=[(SB, "      shape_new[0] = 1;\n", "      for (auto& dim : shape_new) {\n        if (dim == ShapedType::kDynamic) dim = 1;\n      }\n")],
     files=SB_FILES)

# ---- the Python layer --------------------------------------------------------
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
UT = L + "mlir/python/util.py"
IW = L + "tflite/python/interpreter_wrapper_utils.h"


def io(call, n, pred=lambda c: True, seed=11):
    def f():
        import pychecks
        r = random.Random(seed)
        out = []
        while len(out) < n:
            out += [c for c in pychecks.io_cases(r, 50, call) if pred(c)]
        return out[:n]
    return f


def sess(n, misfits, pred=lambda c: True, seed=11):
    def f():
        import pychecks
        r = random.Random(seed)
        out = []
        while len(out) < n:
            out += [c for c in pychecks.p_cases(r, 50, misfits) if pred(c)]
        return out[:n]
    return f


def nets(n, pred=lambda c: True, seed=11):
    def f():
        import netgen
        r = random.Random(seed)
        out = []
        while len(out) < n:
            c = netgen.case(r)
            if pred(c):
                out.append(c)
        return out
    return f


seed(id="C16-tail-shortcut", property="C16", ext=False, cases=io("modify", 150),
     needs="The removed tensors include the last tensor of the subgraph but are not contiguous.",
     breaks="The shortcut for tensors at the end of the list is taken when only the last removed tensor is at the end, so surviving tensors are deleted and indices dangle.",
     edits=[(UT, "    if min(remove_tensors_idxs) == len(tensors) - len(remove_tensors_idxs):\n", "    if max(remove_tensors_idxs) == len(tensors) - 1:\n")])
seed(id="C16-pop-order", property="C16", ext=False, cases=io("modify", 150),
     needs="At least two tensors are removed and they are not at the end of the list.",
     breaks="Tensors are popped in ascending order, so every pop after the first removes a neighbour of the tensor that was meant.",
     edits=[(UT, "        for idx in sorted(remove_tensors_idxs, reverse=True):\n", "        for idx in sorted(remove_tensors_idxs):\n")])
seed(id="C17-int8-refused", property="C17", ext=False, cases=io("strip", 150),
     needs="An LceDequantize with an int8 output at a model output.",
     breaks="A model whose LceDequantize produces int8 is refused, though it can be stripped.",
     edits=[(UT, "            output_tensor.type != tflite_schema.TensorType.FLOAT32\n            and output_tensor.type != tflite_schema.TensorType.INT8\n",
             "            output_tensor.type != tflite_schema.TensorType.FLOAT32\n")])
seed(id="C17-main-subgraph-only", property="C17", ext=False, cases=io("strip", 150),
     needs="A model with more than one subgraph.",
     breaks="Only the main subgraph is stripped.",
     edits=[(UT, "    for subgraph in model.subgraphs:\n        _strip", "    for subgraph in model.subgraphs[:1]:\n        _strip")])
seed(id="C18-strided-input", property="C18", ext=True, cases=sess(60, False),
     needs="An input array that is not contiguous in memory (transposed, strided or reversed).",
     breaks="The array is copied byte by byte from its first element without making it contiguous first.",
     edits=[(IW, "        pybind11::array::ensure(input_list[i], pybind11::array::c_style);\n", "        pybind11::array::ensure(input_list[i]);\n")])
seed(id="C18-output-view", property="C18", ext=True, cases=sess(60, False),
     needs="More than one sample per predict call.",
     breaks="Outputs are returned as views of the interpreter's buffer, which the next sample overwrites before the results are concatenated.",
     edits=[(IW, "                            tensor->data.raw);\n    result.append(nparray);\n", "                            tensor->data.raw, pybind11::none());\n    result.append(nparray);\n")])
seed(id="C19-rank-check", property="C19", ext=True, cases=sess(400, True),
     needs="An input whose shape is a proper prefix of the tensor's shape, the rest being ones.",
     breaks="Arrays of lower rank than the input tensor are accepted when their byte size matches.",
     edits=[(IW, "  if (ndim != tensor->dims->size) {\n", "  if (ndim > tensor->dims->size) {\n")])
seed(id="C19-int16-type", property="C19", ext=True, cases=sess(80, True),
     needs="A model with an int16 output (or input).",
     breaks="int16 tensors are reported and returned as uint16.",
     edits=[(IW, "    case kTfLiteInt16:\n      return pybind11::dtype::of<std::int16_t>();\n", "    case kTfLiteInt16:\n      return pybind11::dtype::of<std::uint16_t>();\n")])
seed(id="C19-zero-point-first", property="C19", ext=True, cases=sess(200, True),
     needs="A per-channel quantized tensor whose zero points differ.",
     breaks="Only the first per-channel zero point is compared, so one wrong zero point is reported for all channels.",
     edits=[(IW, "      for (int i = 0; i < affine_quantization->zero_point->size; ++i)\n        MINIMAL", "      for (int i = 0; i < 1; ++i)\n        MINIMAL")])
seed(id="C20-shared-padding-cache", property="C20", ext=True, cases=nets(150),
     needs="Two zero-padded float convolutions in one model, and a second sample.",
     breaks="The zero-padding corrections of all LceBconv2d nodes live in one buffer: from the second sample on, every convolution but the last uses another node's corrections.",
     edits=[(L + "tflite/kernels/bconv2d.cc", "  std::vector<float> padding_buffer;\n", "  inline static std::vector<float> padding_buffer;\n")])
seed(id="C20-shared-bias", property="C20", ext=True, cases=nets(40),
     needs="Two LceBconv2d nodes with float or int8 output in one model, and a second sample.",
     breaks="The transformed biases of all LceBconv2d nodes live in one vector.",
     edits=[(L + "tflite/kernels/bconv2d.cc", "  std::vector<float> output_transform_bias;\n", "  inline static std::vector<float> output_transform_bias;\n")])


# ---- the converter -----------------------------------------------------------------
def mods(*gens, n=150, seed=7):
    """Modules for the converter's passes from the generators; a demonstration
    records what the passes make of them on the clean sources."""
    def make():
        import mlirgen
        out = []
        for g in gens:
            r = random.Random("seed-%s-%d" % (g, seed))
            out += [getattr(mlirgen, "gen_" + g)(r, False) for _ in range(n)]
        return [dict(passes=c["passes"], text=c["text"]) for c in out]
    return make


T = L + "mlir/transforms/"
PP, OC, OCC, PT, TA = T + "prepare_patterns_common.td", T + "optimize_patterns_common.td", T + "optimize.cc", T + "prepare_tf.cc", T + "optimize_patterns_target_arm.td"
seed(id="C21-swapped-strides", property="C21", modules=mods("prepare", n=400),
     needs="A one-padded convolution (PadV2 with ones in front) with different vertical and horizontal strides.",
     breaks="The one-padding pattern writes the horizontal stride as the vertical one and vice versa.",
     edits=[(PP, """              ConstantAttr<I32Attr, "1">,
              TFL_PAD_Same,
              ExtractI32At<1>:$strides,
              ExtractI32At<2>:$strides),""", """              ConstantAttr<I32Attr, "1">,
              TFL_PAD_Same,
              ExtractI32At<2>:$strides,
              ExtractI32At<1>:$strides),""")])
seed(id="C21-square-filter-scan", property="C21", modules=mods("prepare", n=400),
     needs="A filter wider than high whose values beyond the square part are not binary.",
     breaks="Only the first H columns of the filter are checked for being binary.",
     edits=[(PT, "    for (std::size_t w = 0; w < shape[1]; ++w) {\n", "    for (std::size_t w = 0; w < shape[0] && w < shape[1]; ++w) {\n")])
ACT1 = """                    (Arith_ConstantOp ConstantValue<"1.0f">:$post_activation_multiplier),
                    (Arith_ConstantOp ConstantValue<"0.0f">:$post_activation_bias),
                    $output_threshold,
                    $channels_in,
                    $dilation_height_factor,
                    $dilation_width_factor,
                    TFL_AF_None,
                    %s,
"""
seed(id="C22-activation-past-bias", property="C22", modules=mods("optimize", n=500),
     needs="A bias and then an activation behind a convolution with SAME one-padding.",
     breaks="An activation is fused although the convolution already has a bias, which the kernel adds after the activation.",
     edits=[(OC, ACT1 % 'ConstantAttr<I32Attr, "1">:$pad_values', (ACT1 % 'ConstantAttr<I32Attr, "1">:$pad_values').replace('ConstantValue<"0.0f">:$post_activation_bias', "F32ElementsAttr:$post_activation_bias"))])
seed(id="C22-zero-padded-activation", property="C22", modules=mods("optimize", n=500),
     needs="An activation behind a convolution with SAME zero-padding.",
     breaks="Activations are fused into convolutions with zero padding, whose kernel corrects for the padding after the activation.",
     edits=[(OC, 'ConstantAttr<I32Attr, "1">:$pad_values,\n                    TFL_PAD_Same:$padding', '$pad_values,\n                    TFL_PAD_Same:$padding')])
seed(id="C22-bias-not-scaled", property="C22", modules=mods("optimize", n=500),
     needs="A multiplication behind an addition behind a convolution.",
     breaks="A multiplication or division is fused into the multiplier but not into the bias.",
     edits=[(OC, """                (binaryOp (Arith_ConstantOp $post_activation_bias),
                          (Arith_ConstantOp $value), TFL_AF_None),
                $output_threshold,
                $channels_in,
                $dilation_height_factor,
                $dilation_width_factor,
                $fused_activation_function,
                $pad_values,
                $padding,
                $stride_height,
                $stride_width),
            [(HasOneUse $conv_output),""", """                (Arith_ConstantOp $post_activation_bias),
                $output_threshold,
                $channels_in,
                $dilation_height_factor,
                $dilation_width_factor,
                $fused_activation_function,
                $pad_values,
                $padding,
                $stride_height,
                $stride_width),
            [(HasOneUse $conv_output),""")])
seed(id="C23-zero-multiplier", property="C23", modules=mods("threshold", n=400),
     needs="A channel whose multiplier and bias are both zero.",
     breaks="A zero multiplier with a zero bias writes ones (a negative sign).",
     edits=[(OCC, "      if (bias < 0.0f) {\n", "      if (bias <= 0.0f) {\n")])
seed(id="C23-range-touches-zero", property="C23", modules=mods("threshold", n=400),
     needs="A ReLU (or clamp) such that the smallest value the channel can take is exactly zero.",
     breaks="A range that starts at zero is treated as if it crossed zero, so clamped values count as negative.",
     edits=[(OCC, "    if (output_range_start >= 0 && output_range_end >= 0) {\n", "    if (output_range_start > 0 && output_range_end > 0) {\n")])
seed(id="C23-clamp-not-mirrored", property="C23", modules=mods("threshold", n=400),
     needs="A negative multiplier together with an asymmetric activation and a suitable bias.",
     breaks="The clamping range is not mirrored for negative multipliers.",
     edits=[(OCC, "      effective_clamp_min = -1 * clamp_max;\n      effective_clamp_max = -1 * clamp_min;\n", "      effective_clamp_min = clamp_min;\n      effective_clamp_max = clamp_max;\n")])
seed(id="C24-negative-zero", property="C24", modules=mods("bitpack", n=400),
     needs="A folded constant that contains a negative zero.",
     breaks="Folding goes by the sign bit, so -0.0 is packed as a negative value; the kernels pack it as positive.",
     edits=[(T + "bitpack.cc", "      old_values[i++] = x;\n    }\n    assert(i == num_rows * unpacked_channels);", "      old_values[i++] = __builtin_signbit(x) ? -1.0f : 1.0f;\n    }\n    assert(i == num_rows * unpacked_channels);")])
seed(id="C24-unpack-flat", property="C24", modules=mods("bitpack", n=400),
     needs="A folded dequantization of several rows whose channels are not a multiple of 32.",
     breaks="The whole constant is unpacked as one row, ignoring the padding bits at the end of every row.",
     edits=[(T + "bitpack.cc", "    unpack_matrix(old_values.data(), num_rows, unpacked_channels,\n", "    unpack_matrix(old_values.data(), 1, num_rows * unpacked_channels,\n")])
seed(id="C25-depthwise-pad-value", property="C25", modules=mods("padding", n=400),
     needs="A PadV2 with another value than zero in front of a depthwise convolution.",
     breaks="The padding's value is not looked at for depthwise convolutions.",
     edits=[(T + "fuse_padding.td", """                        $depth_multiplier),
          [(HasOneUse $pad_output),
           (ConstFloatValueIs<"0.0"> $pad_values),
""", """                        $depth_multiplier),
          [(HasOneUse $pad_output),
""")])
seed(id="C25-channel-padding", property="C25", modules=mods("padding", n=400),
     needs="A padding that fits SAME spatially and also pads the channels.",
     breaks="Channel padding is dropped.",
     edits=[(T + "fuse_padding.cc", "  return IsNoPadding(paddings, 0) && IsNoPadding(paddings, 3);\n", "  return IsNoPadding(paddings, 0);\n")])
QP = T + "quantize_patterns.td"
seed(id="C26-scale-of-multiplier", property="C26", modules=mods("quantize", n=400),
     needs="A convolution with different strides whose output is quantized.",
     breaks="The convolution that writes int8 has its strides swapped.",
     edits=[(QP, """              $padding,
              $stride_height,
              $stride_width),
          [(HasOneUse $output)]>;""", """              $padding,
              $stride_width,
              $stride_height),
          [(HasOneUse $output)]>;""")])
seed(id="C26-fold-requantize", property="C26", modules=mods("quantize", n=400),
     needs="A quantizer behind a quantize operator directly (a requantization between two int8 tensors) or behind a float tensor that gets quantized.",
     breaks="A pattern added next to the others lets LceQuantize read what a tfl.quantize reads, so values that round to the zero point change sign.",
     edits=[(QP, "def : Pat<(LQ_QuantizeOp (TFL_DequantizeOp:$output $input)),\n          (LQ_QuantizeOp $input),\n          [(HasOneUse $output)]>;",
             "def : Pat<(LQ_QuantizeOp (TFL_DequantizeOp:$output $input)),\n          (LQ_QuantizeOp $input),\n          [(HasOneUse $output)]>;\n\ndef : Pat<(LQ_QuantizeOp (TFL_DequantizeOp (TFL_QuantizeOp $input, $qtype))),\n          (LQ_QuantizeOp $input),\n          [], [], (addBenefit 10)>;")])
RP = T + "op_removal_patterns.td"
seed(id="C27-identityn", property="C27", modules=mods("removal", n=300),
     needs="A tf.IdentityN in the model.",
     breaks="tf.IdentityN is no longer removed.",
     edits=[(RP, "def : Pat<(TF_IdentityNOp $arg), (replaceWithValue $arg)>;", "// def : Pat<(TF_IdentityNOp $arg), (replaceWithValue $arg)>;")])
seed(id="C27-rewrite-cap", property="C27", modules=mods("removal", n=300),
     needs="More than a few pass-through operators in one function.",
     breaks="The number of rewrites is capped, so the rest of the pass-through operators stay.",
     edits=[(T + "op_removal.cc", "  (void)applyPatternsAndFoldGreedily(func, std::move(patterns));\n", "  GreedyRewriteConfig config;\n  config.maxIterations = 1;\n  config.maxNumRewrites = 6;\n  (void)applyPatternsAndFoldGreedily(func, std::move(patterns), config);\n")])
DP = T + "detection_postprocess.cc"
seed(id="C28-wrong-parameters", property="C28", modules=mods("detection", n=300),
     needs="Boxes and scores with different quantization parameters.",
     breaks="The int8 scores get the parameters of the boxes.",
     edits=[(DP, "    auto scores_type = scores_input.getType()\n", "    auto scores_type = boxes_input.getType()\n")])
seed(id="C28-last-result-type", property="C28", modules=mods("detection", n=300),
     needs="An operator whose last result is not an int32 tensor.",
     breaks="The type of the number of detections is not checked; it becomes int32.",
     edits=[(DP, "    for (auto i = 0; i < 4; ++i) {\n      auto original_type =\n", "    for (auto i = 0; i < 3; ++i) {\n      auto original_type =\n")])
seed(id="C29-pool-strides", property="C29", modules=mods("legalize", n=300),
     needs="A binary max pool with different strides.",
     breaks="The horizontal stride is written as the vertical one.",
     edits=[(L + "mlir/ir/lce_ops.cc", '    fbb.Int("stride_width", getStrideWidth());\n    fbb.Int("stride_height", getStrideHeight());\n    fbb.Int("filter_width"', '    fbb.Int("stride_width", getStrideHeight());\n    fbb.Int("stride_height", getStrideHeight());\n    fbb.Int("filter_width"')])
seed(id="C29-translate-dilation", property="C29", modules=mods("legalize", n=300),
     needs="A convolution with different dilations that is translated back.",
     breaks="The vertical dilation is read for both directions.",
     edits=[(T + "translate_tflite.cc", '          map["dilation_width_factor"].AsInt32(),\n', '          map["dilation_height_factor"].AsInt32(),\n')])


# ---- whole conversions ----------------------------------------------------------
def convs(*gens, n=200, seed=7):
    def make():
        import mlirgen
        out = []
        for g in gens:
            r = random.Random("seed-%s-%d" % (g, seed))
            out += [getattr(mlirgen, "gen_" + g)(r, False) for _ in range(n)]
        return [{k: c.get(k) for k in ("kind", "text", "args", "fail", "out", "missing")} for c in out]
    return make


TP, TT, CC = L + "mlir/tf_tfl_passes.cc", L + "mlir/tf_to_tfl_flatbuffer.cc", L + "mlir/python/common.cc"
FP = "  pass_manager->addNestedPass<mlir::func::FuncOp>(\n      "
seed(id="C30-default-range-not-absorbed", property="C30", convs=convs("convert", n=400),
     needs="A conversion with default int8 ranges whose binary layers get them.",
     breaks="The binary layers do not absorb the default quantization until later passes have run (too late for some).",
     edits=[(TP, """            quant_specs.IsSignedInferenceType()));
    pass_manager.addNestedPass<mlir::func::FuncOp>(
        mlir::TFL::CreateLCEQuantizePass());
""", """            quant_specs.IsSignedInferenceType()));
"""), (TP, """      mlir::TFL::CreatePostQuantizePass(emit_quant_adaptor_ops));
  pass_manager.addNestedPass<mlir::func::FuncOp>(
      mlir::TFL::CreateLCEQuantizePass());
""", """      mlir::TFL::CreatePostQuantizePass(emit_quant_adaptor_ops));
""")])
seed(id="C30-batch-size-late", property="C30", convs=convs("convert"),
     needs="A model with a dynamic batch size.",
     breaks="The batch size is only set after shapes have been propagated for the last time.",
     edits=[(TP, """  pass_manager->addNestedPass<mlir::func::FuncOp>(
      mlir::CreateSetBatchSizePass());

""", ""), (TP, """  pass_manager->addNestedPass<mlir::func::FuncOp>(
      mlir::TFL::CreateLegalizeTFPass(true));
""", """  pass_manager->addNestedPass<mlir::func::FuncOp>(
      mlir::CreateSetBatchSizePass());
  pass_manager->addNestedPass<mlir::func::FuncOp>(
      mlir::TFL::CreateLegalizeTFPass(true));
""")])
seed(id="C31-export-failure-lost", property="C31", convs=convs("request"),
     needs="TensorFlow's exporter fails without a diagnostic.",
     breaks="A failed export returns empty bytes instead of an error.",
     edits=[(TT, """    return statusHandler.Combine(
        absl::InternalError("Could not translate MLIR to FlatBuffer."));
""", """    return statusHandler.ConsumeStatus();
""")])
seed(id="C31-name-tail", property="C31", convs=convs("request"),
     needs="Operator names longer than 50 characters.",
     breaks="Long names keep their last characters instead of the first.",
     edits=[(TT, "return name.substr(0, 50);", "return name.substr(name.length() - 50);")])
seed(id="C31-next-iteration", property="C31", convs=convs("request", n=400),
     needs="A graph whose control flow operators are only NextIteration ones.",
     breaks="NextIteration.Sink is not recognised as version 1 control flow.",
     edits=[(TT, """                   mlir::tf_executor::EnterOp, mlir::tf_executor::ExitOp,
                   mlir::tf_executor::NextIterationSinkOp,
""", """                   mlir::tf_executor::EnterOp, mlir::tf_executor::ExitOp,
""")])
seed(id="C31-second-entry", property="C31", convs=convs("request", n=400),
     needs="A SavedModel import with two entry functions.",
     breaks="The second entry function silently replaces the first.",
     edits=[(CC, """      if (entry_function != nullptr) {
        return""", """      if (entry_function == func) {
        return""")])
seed(id="C31-graphdef-post-training", property="C31", convs=convs("request", n=400),
     needs="A GraphDef conversion with a default range.",
     breaks="GraphDef conversions with a default range are marked as post-training quantization.",
     edits=[(L + "mlir/python/graphdef_tfl_flatbuffer.cc", "      /*mark_as_post_training_quant=*/false);", "      /*mark_as_post_training_quant=*/true);")])
seed(id="C31-vector-shape", property="C31", convs=convs("request", n=400),
     needs="A GraphDef with a one-dimensional input.",
     breaks="The shapes of one-dimensional inputs are not handed to the importer.",
     edits=[(L + "mlir/python/graphdef_tfl_flatbuffer.cc", "    if (x.size() > 0) {", "    if (x.size() > 1) {")])
seed(id="C31-tags-lost", property="C31", convs=convs("request"),
     needs="A SavedModel (tags are kept in the exported metadata).",
     breaks="The exported model does not get the SavedModel's tags.",
     edits=[(TT, "  options.saved_model_tags = saved_model_tags;\n", "  if (saved_model_dir.empty()) options.saved_model_tags = saved_model_tags;\n")])


def apis(gen, n=120, seed=7):
    """Calls of the Python converter."""
    def make():
        import apigen
        r = random.Random("seed-%s-%d" % (gen, seed))
        return [getattr(apigen, "gen_" + gen)(r, False) for _ in range(n)]
    return make


CV = L + "mlir/python/converter.py"
seed(id="C32-functions-not-searched", property="C32", apis=apis("call", n=250),
     needs="A model whose only fake quantization is inside a function of its graph (a conditional), converted by way of the graph.",
     breaks="Functions are searched for quantization by their nodes' names, not their ops: the fallback conversion does not quantize.",
     edits=[(CV, """        for node_def in function.node_def:
            if node_def.op in training_quant_ops:""", """        for node_def in function.node_def:
            if node_def.name in training_quant_ops:""")])
seed(id="C32-fallback-types-swapped", property="C32", apis=apis("call", n=250),
     needs="The fallback conversion of a quantized model with an int8 input and a float output, or the other way round.",
     breaks="Input and output types are swapped in the fallback.",
     edits=[(CV, """    if should_quantize and (
        inference_input_type != tf.float32 or inference_output_type != tf.float32
    ):
        tflite_buffer = modify_integer_quantized_model_io_type(
            tflite_buffer,
            inference_input_type=inference_input_type,
            inference_output_type=inference_output_type,
        )""", """    if should_quantize and (
        inference_input_type != tf.float32 or inference_output_type != tf.float32
    ):
        tflite_buffer = modify_integer_quantized_model_io_type(
            tflite_buffer,
            inference_input_type=inference_output_type,
            inference_output_type=inference_input_type,
        )""")])
seed(id="C32-one-int8-side", property="C32", apis=apis("call", n=250),
     needs="A SavedModel (or Keras model) converted with only one of input and output int8.",
     breaks="The model's inputs and outputs are modified only if both types are int8.",
     edits=[(CV, """    if inference_input_type != tf.float32 or inference_output_type != tf.float32:
        tflite_buffer""", """    if inference_input_type != tf.float32 and inference_output_type != tf.float32:
        tflite_buffer""")])
seed(id="C32-last-dimension-open", property="C32", apis=apis("call", n=400),
     needs="The fallback conversion of a model whose input's last dimension alone is open.",
     breaks="The check for open dimensions misses the last one.",
     edits=[(CV, "        if None in shape_list[1:]:", "        if None in shape_list[1:-1]:")])
seed(id="C32-narrow-fallback", property="C32", apis=apis("call", n=250),
     needs="A Keras model whose SavedModel conversion ends in a ValueError (its result cannot have int8 inputs and outputs).",
     breaks="Only runtime errors of the first attempt lead to the fallback.",
     edits=[(CV, """    except Exception:
        warnings.warn(""", """    except RuntimeError:
        warnings.warn(""")])
seed(id="C32-half-precision-policy", property="C32", apis=apis("call", n=600),
     needs="A model of a reduced-precision policy other than mixed_float16.",
     breaks="Only mixed_float16 models are refused.",
     edits=[(CV, """model.dtype_policy.name != "float32":""", """model.dtype_policy.name == "mixed_float16":""")])
seed(id="C32-range-needs-quantization", property="C32", apis=apis("call", n=250),
     needs="The fallback conversion of a model without training-time quantization, with a default range.",
     breaks="The fallback quantizes only models that have both training-time quantization and a default range (or neither is looked at alone).",
     edits=[(CV, """        or experimental_default_int8_range is not None
    )""", """        and experimental_default_int8_range is not None
    )""")])
seed(id="C32-path-object", property="C32", apis=apis("call", n=400),
     needs="A SavedModel directory given as a path object.",
     breaks="The path object is handed to the native converter as it is.",
     edits=[(CV, """    saved_model_dir = str(saved_model_dir)
""", """""")])
seed(id="C32-scalar-inputs", property="C32", apis=apis("call", n=400),
     needs="The fallback conversion of a model with an input that has no dimension but the batch.",
     breaks="The batch size of such inputs is left open.",
     edits=[(CV, "        elif shape_list and shape_list[0] is None:", "        elif shape_list[1:] and shape_list[0] is None:")])
seed(id="C32-fallback-target", property="C32", apis=apis("call", n=250),
     needs="A model converted for xcore whose SavedModel conversion fails.",
     breaks="Options that the first attempt got are not the fallback's: it converts for the default target.",
     edits=[(CV, """    try:
        with tempfile.TemporaryDirectory() as saved_model_dir:""", """    options, target = dict(target=target), "arm"
    try:
        with tempfile.TemporaryDirectory() as saved_model_dir:"""), (CV, """                experimental_default_int8_range=experimental_default_int8_range,
                target=target,
            )
    except""", """                experimental_default_int8_range=experimental_default_int8_range,
                **options,
            )
    except""")])
seed(id="C32-frozen-model", property="C32", apis=apis("call", n=120),
     needs="A model that is used (trained) after it was converted by way of its graph.",
     breaks="The fallback conversion leaves the caller's model untrainable.",
     edits=[(CV, """    func = concrete_function_from_keras_model(model)
""", """    model.trainable = False
    func = concrete_function_from_keras_model(model)
""")])


# ---- the shipped programs
def progs(n=300, seed_=1, only=None):
    def f():
        import random, progchecks
        rng = random.Random(seed_)
        out = []
        while len(out) < n:
            c = progchecks.case(rng)
            if only is None or only(c):
                b = progchecks.serialize(c["model"])
                out.append(dict(prog=c["prog"], args=c["args"], there=c["there"], bytes=b.decode("latin1"), feed="\n".join(" ".join(s) for s in c["feed"]) + "\n"))
        return out
    return f


BM = "larq_compute_engine/tflite/benchmark/lce_benchmark_tflite_model."
seed(id="C34-sticky-indirect", property="C34", progs=progs(only=lambda c: c["prog"] == "benchmark"),
     needs="A benchmark run with both kernel flags given, the indirect one true and the reference one false.",
     breaks="Giving the reference flag, even as false, discards the indirect flag, so another kernel is benchmarked.",
     edits=[(BM + "cc", """  use_indirect_bgemm = params_.Get<bool>("use_indirect_bgemm");
""", """  use_indirect_bgemm = params_.Get<bool>("use_indirect_bgemm") &&
                       !params_.HasValueSet<bool>("use_reference_bconv");
""")])
seed(id="C34-flags-by-copy", property="C34", progs=progs(only=lambda c: c["prog"] == "benchmark"),
     needs="A benchmark run that asks for another kernel than the default, on a model this kernel treats differently.",
     breaks="The model class keeps its own copies of the flags, so the ops are registered before the flags have arrived.",
     edits=[(BM + "h", """  bool& use_reference_bconv;
  bool& use_indirect_bgemm;
""", """  bool use_reference_bconv;
  bool use_indirect_bgemm;
""")])
seed(id="C34-unparsed-goes-on", property="C34", progs=progs(only=lambda c: c["prog"] == "benchmark"),
     needs="A command line with a malformed value next to a model that can be run.",
     breaks="The benchmark runs with whatever flags it understood and exits as if all was well.",
     edits=[(BM + "cc", """  TF_LITE_ENSURE_STATUS(ParseFlags(argc, argv));
""", """  if (ParseFlags(argc, argv) != kTfLiteOk)
    TFLITE_LOG(WARN) << "Some flags were ignored.";
""")])
seed(id="C34-log-verbose", property="C34", progs=progs(only=lambda c: c["prog"] == "benchmark"),
     needs="A verbose benchmark run without the indirect flag.",
     breaks="The parameters reported do not say which kernel is used.",
     edits=[(BM + "cc", """  LOG_BENCHMARK_PARAM(bool, "use_indirect_bgemm", "Use indirect BGEMM",
                      verbose);""", """  LOG_BENCHMARK_PARAM(bool, "use_indirect_bgemm", "Use indirect BGEMM",
                      false);""")])
seed(id="C34-jni-indirect", property="C34", progs=progs(only=lambda c: c["prog"] == "jni"),
     needs="A model with a grouped or otherwise only-optimized convolution run through the Java binding.",
     breaks="The Java binding's resolver has the indirect kernel, which refuses some models.",
     edits=[("larq_compute_engine/tflite/java/lce_ops_jni.cc", "RegisterLCECustomOps(resolver);", "RegisterLCECustomOps(resolver, false, true);")])

# ---- the AArch64 code ------------------------------------------------------
IB, BG = L + "core/indirect_bgemm/", L + "core/bgemm/"
seed(id="C01-a64-zero-byte-wrap", property="C01", a64=True,
     needs="On AArch64: an int8 tensor with a positive zero point, rows or tensor of at least 128 values, and a value so negative that subtracting the zero point leaves the int8 range (only in the last block of 128).",
     breaks="The last block subtracts without saturation, so very negative values become positive ones.",
     edits=[(L + "core/bitpacking/bitpack_aarch64.h", """      // without any data reloading and then exit.

      "sqsub v8.16b, v1.16b, v31.16b\\n"
      "sqsub v9.16b, v0.16b, v31.16b\\n"
      "sqsub v10.16b, v3.16b, v31.16b\\n"
      "sqsub v11.16b, v2.16b, v31.16b\\n"
      "sqsub v12.16b, v5.16b, v31.16b\\n"
      "sqsub v13.16b, v4.16b, v31.16b\\n"
""", """      // without any data reloading and then exit.

      "sqsub v8.16b, v1.16b, v31.16b\\n"
      "sqsub v9.16b, v0.16b, v31.16b\\n"
      "sqsub v10.16b, v3.16b, v31.16b\\n"
      "sqsub v11.16b, v2.16b, v31.16b\\n"
      "sqsub v12.16b, v5.16b, v31.16b\\n"
      "sub v13.16b, v4.16b, v31.16b\\n"
""")],
     script=script(quant(0, "i8", (3, 128), I8(384), 20), quant(1, "i8", (2, 200), I8(400), -90), quant(2, "i8", (256,), I8(256), 100)))
seed(id="C03-a64-group-boundary", property="C03", a64=True,
     needs="On AArch64: a grouped convolution with 64 (or 64k, k odd) channels per group and a multiple of 8 output channels per group, on the indirect kernel.",
     breaks="The activations preloaded for the next group still come from the previous one.",
     edits=[(IB + "kernel_8x4x2_aarch64.h", "if (IsGrouped && c_out_index >= group_end_output_channel - 8) {", "if (IsGrouped && c_out_index > group_end_output_channel - 8) {")],
     script=script(conv(0, KIND, (1, 3, 3), (16, 3, 3, 2), 128), conv(1, KIND, (1, 3, 2), (12, 1, 1, 2), 128), conv(2, KIND, (1, 4, 3), (24, 2, 2, 6), 576)))
seed(id="C06-a64-narrow-wraps", property="C06", a64=True,
     needs="On AArch64: an int8 convolution on the indirect kernel whose depth is a multiple of four words, and a result outside the int8 range in the third pixel of a block of four.",
     breaks="One of the narrowing instructions wraps around where the result must saturate.",
     edits=[(IB + "kernel_8x4x4_aarch64.h", '''"sqxtn %[result_20].8b, %[result_20].8h\\n\\t"''', '''"xtn %[result_20].8b, %[result_20].8h\\n\\t"''')],
     script=script(conv(0, KIND, (1, 3, 3), (8, 1, 1), 128, ot="i8", mul=[0.25 * k for k in range(1, 9)], bias=[3.0 * k for k in range(8)], zp=3),
                   conv(1, KIND, (2, 3, 3), (9, 2, 2), 250, ot="i8", mul=[4.0] * 9, bias=[1.0] * 9, zp=-3)))
seed(id="C13-a64-two-pixels", property="C13", a64=True,
     needs="On AArch64: the indirect kernel (odd number of words deep) with a number of output pixels that is 2 more than a multiple of 4.",
     breaks="The third of four pixels is written although the output ends after the second.",
     edits=[(IB + "kernel_8x4x1_aarch64.h", """        if (remaining_pixels < 3) {
          output_ptr_2 = output_ptr_0;
          if (remaining_pixels < 2) {
            output_ptr_1 = output_ptr_0;
          }
        }
""", """        if (remaining_pixels < 2) {
          output_ptr_2 = output_ptr_0;
          output_ptr_1 = output_ptr_0;
        }
""")],
     script=script(conv(0, KIND, (1, 3, 3), (5, 1, 1), 20), conv(1, KIND, (1, 2, 5), (5, 1, 1), 90), conv(2, KIND, (1, 2, 1), (9, 1, 1), 90)))
seed(id="C13-a64-pack-past-columns", property="C13", a64="san",
     needs="On AArch64: the BGEMM kernel with one column (output pixel or channel) left over in a block of four, and filters of more than four words.",
     breaks="The columns that are not there are packed from whatever lies behind the buffer of zeros.",
     edits=[(BG + "ruy_pack.h", """        if (block_col >= src_matrix.layout.cols - 2) {
          src_ptr2 = zerobuf;
          src_inc2 = 0;
        }
""", """        if (block_col > src_matrix.layout.cols - 2) {
          src_ptr2 = zerobuf;
          src_inc2 = 0;
        }
""")],
     script=script(conv(0, KOPT, (1, 3, 3), (6, 3, 3), 70), conv(1, KOPT, (1, 3, 2), (6, 2, 2), 200, pad=0)))
seed(id="C07-a64-partial-mask", property="C07", a64=True,
     needs="On AArch64: a bitpacked output of the BGEMM kernel whose channels are not a multiple of 8, with the last pixel of an incomplete block.",
     breaks="The bits behind the last channel are not cleared in one of the four columns.",
     edits=[(BG + "kernels_aarch64.h", """      "and v21.8b, v21.8b, v30.8b\\n"
      "subs w14, w14, #1\\n"
""", """      "subs w14, w14, #1\\n"
""")],
     script=script(conv(0, KOPT, (1, 3, 3), (37, 3, 3), 70, ot="i32"), conv(1, KOPT, (1, 3, 2), (6, 2, 2), 200, ot="i32")))
seed(id="C04-a64-square-window", property="C04", a64=True,
     needs="On AArch64: the BGEMM kernel with a wide, low filter (3x5) whose window holds more than 65535 channels while three by three of them do not.",
     breaks="16-bit accumulators are chosen and wrap around; the other kernels are right.",
     edits=[(L + "tflite/kernels/bconv2d.cc", """    const int depth = op_data->params.filter_height *
                      op_data->params.filter_width *
                      op_data->params.channels_in;
""", """    const int depth = op_data->params.filter_height *
                      op_data->params.filter_height *
                      op_data->params.channels_in;
""")],
     script=script(*[conv(k, kern, (1, 3, 5), (2, 3, 5), 4400, pad=1, mul=[1.0, -1.0], run=False) +
                     ["data %d 0 %s" % (k, packed(random.Random(1), 15, 4400, 0.0)), "data %d 1 %s" % (k, packed(random.Random(1), 30, 4400, 1.0)), "eval %d 9" % k] for k, kern in ((0, KOPT), (1, KIND))]))
