#!/usr/bin/env python3
# Source of properties.jsonl (run by hand when a property changes).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
prop("P01", "A tensor is exactly what it was constructed to be",
 "aitisa_create gives a tensor with the requested data type, device, dims and ndim whose size is the product of the dims (1 for ndim 0), whose strides are row-major and whose storage holds size elements; when a data buffer is passed it succeeds exactly if floor(len / element size) equals that size (else STATUS_INVALID_ARGUMENT, and the caller keeps the buffer) and the tensor then holds that very buffer with its bytes unchanged. aitisa_resolve, the aitisa_tensor_* accessors and aitisa_tensor_set_item report and write exactly those attributes and bytes (resolve's len is size times element size) and never change any other element. aitisa_full sets every element to the given value converted to the data type. aitisa_destroy succeeds for any live tensor and for a NULL handle, and sets the handle to NULL. Holds for all ten data types, both devices, ndim >= 0 and extents >= 0 (tensors of fewer than 2^31 bytes).",
 ["inputs", "histories"], "every data type, device, shape, buffer length and every sequence of create / full / set_item / resolve / destroy calls",
 "The tests construct a few tensors; shapes, data types, buffer lengths and interleavings of calls are unbounded, and a wrong size or stride only shows for shapes nobody wrote down.",
 ["src/core/tensor.c", "src/core/tensor.h", "src/core/shape.c", "src/core/storage.c", "src/basic/factories.c", "src/core/types.c"],
 [("aitisa_create / aitisa_destroy / aitisa_resolve", "src/core/tensor.c"), ("aitisa_create_shape", "src/core/shape.c"), ("aitisa_create_storage", "src/core/storage.c"), ("aitisa_full", "src/basic/factories.c"), ("accessors and aitisa_tensor_set_item", "src/core/tensor.h")])
prop("P02", "Every block of memory is owned exactly once and given back exactly once",
 "Over any history of calls to the library, in any order and with any arguments whether accepted or rejected, the memory the library holds is exactly what belongs to the tensors that are alive: a call that creates a tensor leaves behind only that tensor's own blocks, every other call (failing ones included) leaves the number of live blocks as it found it, aitisa_destroy of a tensor releases all and only its blocks (including a data buffer adopted by aitisa_create), no block is released twice or used after its release, and after all tensors are destroyed nothing remains. Every block is obtained from and returned to the allocator installed with aitisa_set_default_cpu_raw_alloc / aitisa_set_default_cpu_raw_dealloc, so a user allocator sees every allocation and every release.",
 ["histories", "inputs"], "every sequence of library calls on any tensors, successful or failing, with the default or a user-installed allocator",
 "Tests run without a leak checker and never count blocks; leaks and double releases on rarely taken paths (error returns, empty axes, scalar cases) do not change any asserted value.",
 ["src/core/allocator.h", "src/core/tensor.c", "src/core/shape.c", "src/core/storage.c", "src/basic/slice.c", "src/basic/squeeze.c", "src/math/matmul.c", "src/math/dot.c", "src/nn/batch_norm.c", "src/nn/conv.c", "src/nn/pooling.c", "src/nn/softmax.c"],
 [("allocator hook", "src/core/allocator.h"), ("tensor destruction", "src/core/tensor.c: aitisa_destroy"), ("temporaries of every operator", "src/basic, src/math, src/nn")])
prop("P03", "A call that does not succeed changes nothing",
 "Whenever a library call that produces a tensor returns a status other than STATUS_SUCCESS (mismatched types, shapes or devices, an argument out of range, a mathematical error found half way through, ...), the output handle still has the value it had before the call, every tensor that was alive before is bit for bit unchanged (data, shape, type, device), no memory is gained or lost, and the library behaves afterwards as if the call had never been made.",
 ["inputs", "histories"], "every operation, every kind of invalid argument or failing element at any position, at any point of any history",
 "Tests hardly exercise failing calls and never look at the output handle, the inputs or the memory after one.",
 ["src/core/tensor.c", "src/basic/slice.c", "src/basic/cast.c", "src/math/matmul.c", "src/math/dot.c", "src/math/sqrt.c", "src/math/binary_op.c", "src/nn/batch_norm.c", "src/nn/softmax.c", "src/nn/conv.c", "src/nn/pooling.c", "src/nn/dropout.c"],
 [("output handle assigned only on success", "every operator: *output = new_tensor"), ("cleanup on error paths", "every operator")])
prop("P04", "Running out of memory is reported, never fatal and never leaks",
 "If any allocation made during a library call fails - any single one, or every one from some point on - the call still returns, without a crash, abort or access to invalid memory. It either reports STATUS_ALLOC_FAILED with the output handle and all live tensors unchanged and no memory kept, or, if it could do without that allocation, succeeds with the correct result. Once memory is available again the same call succeeds with the correct result.",
 ["fault_sequences", "inputs"], "every operation, every allocation index k at which the allocator returns NULL (once or from then on), every argument shape",
 "The allocator never fails under the tests; each of the dozens of allocation sites has its own failure path.",
 ["src/core/tensor.c", "src/core/shape.c", "src/core/storage.c", "src/basic/slice.c", "src/basic/squeeze.c", "src/basic/duplicate.c", "src/math/binary_op.c", "src/math/matmul.c", "src/math/dot.c", "src/nn/batch_norm.c", "src/nn/conv.c", "src/nn/pooling.c", "src/nn/softmax.c"],
 [("raw_alloc result checks", "every raw_alloc call site"), ("STATUS_ALLOC_FAILED", "src/core/status.h")])
prop("P05", "Operations never modify their inputs, and results share nothing with anything",
 "No operation other than aitisa_tensor_set_item and aitisa_destroy changes any byte, extent, type or device of any tensor that existed before the call, including its operands, also when the same tensor is passed for several operands or the output handle is the variable that held an operand. A tensor produced by an operation has data and shape memory of its own: writing to it, or destroying it, never affects its operands or any other tensor, and writing to or destroying the operands afterwards never affects it. Caller-supplied arrays (dims, begin/size/step, axis, stride, ...) are only read, and need not outlive the call.",
 ["histories", "inputs"], "every operation and every later sequence of writes and destructions, in any order, on operands and results",
 "Tests look at each result once, immediately, and do not re-read operands; aliasing shows only through a later write or destroy.",
 ["src/basic/reshape.c", "src/basic/squeeze.c", "src/basic/slice.c", "src/basic/duplicate.c", "src/basic/cast.c", "src/nn/dropout.c", "src/math/binary_op.c", "src/nn/relu.c", "src/nn/softmax.c"],
 [("fresh storage for every output", "aitisa_create(..., NULL, 0, ...) in every operator"), ("shape arrays copied", "src/core/shape.c")])
prop("P06", "Results depend on arguments only, not on history or other threads",
 "A library call given the same arguments gives the same status and the same output (aitisa_dropout's choice of elements apart), no matter which calls were made before it, how often it is repeated, or which calls other threads are making at the same time on tensors of their own or on shared tensors that nobody modifies: every operation is free of hidden state, so calls running in different threads behave as if each ran alone, wherever one is interrupted by the other.",
 ["schedules", "histories"], "every pair of operations in two threads, every point at which one may be interrupted by the other, and every preceding history",
 "The tests are single-threaded and run each operation once in a fresh process; hidden state only shows under interleaving or on a second call with other arguments.",
 ["src/basic/index_utils.c", "src/basic/slice.c", "src/math/binary_op.c", "src/math/dot.c", "src/math/matmul.c", "src/nn/pooling.c", "src/nn/conv.c", "src/nn/softmax.c", "src/nn/batch_norm.c"],
 [("scratch memory is per call", "every operator"), ("function tables are constant", "src/core/types.c, src/math/binary_op.c")])
prop("P07", "Index arithmetic is a bijection between coordinates and storage",
 "For every dense tensor: aitisa_get_stride / aitisa_get_all_strides give the row-major strides (product of the later extents); aitisa_coords_to_linidx and aitisa_coords_to_offset map each valid coordinate tuple to sum(coord*stride), a one-to-one correspondence onto 0..size-1; aitisa_linidx_to_coords and aitisa_offset_to_coords are their inverses; all of them write only the entries of the caller's array that belong to the tensor's dimensions; and size_of_dims / size_from_dim / size_to_dim / size_between_dim are the products their names say. Holds for every ndim and every extents (of tensors with at least one element) and every valid coordinate or index.",
 ["inputs"], "every shape, every coordinate tuple and every linear index",
 "The tests check none of these functions directly; the mapping must hold for all shapes and all indices.",
 ["src/basic/index_utils.c", "src/basic/index_utils.h", "src/core/shape.c", "src/core/utils.h"],
 [("coords <-> index", "src/basic/index_utils.c"), ("layout min2maj", "src/core/shape.c: aitisa_create_default_layout"), ("size helpers", "src/core/utils.h")])
prop("P08", "Broadcasting of dims follows the right-aligned rule",
 "aitisa_broadcast_array aligns two arrays of extents (all >= 1) at their last entries: where both have an entry they must be equal or one of them 1, and the result is the larger; where only one has an entry the result is that entry. It returns STATUS_SUCCESS and fills exactly the max(ndim1, ndim2) entries of dims_out in the compatible case, and STATUS_DIMENSIONS_MISMATCH otherwise; it never writes outside dims_out or to its inputs, is symmetric in its two arguments, and treats ndim 0 as a scalar.",
 ["inputs"], "every pair of extents arrays of any lengths",
 "The only test is one 4-D/6-D success case; rank differences, mismatches at each position and empty arrays are not covered.",
 ["src/basic/broadcast.c"], [("aitisa_broadcast_array", "src/basic/broadcast.c")])
prop("P09", "slice and duplicate pick exactly the requested elements",
 "aitisa_slice succeeds exactly when on every axis 0 <= begin < extent, size >= 0, begin + size <= extent and step >= 1, and returns STATUS_INVALID_ARGUMENT otherwise (for any int values, however large). The result has extent ceil(size/step) on each axis with size > 0, axes with size 0 are dropped (taking the element at begin), the data type and device are those of the input, and the element at output coordinate o is, bit for bit, the input element at begin + o*step. aitisa_duplicate gives a tensor of the same type, device and shape whose data are bit for bit those of the input. Holds for all ten data types and all bit patterns, and all shapes with extents >= 1, including ndim 0.",
 ["inputs"], "every input shape, data type and bit pattern, every begin/size/step, valid or not",
 "Two tests slice one shape each; axes dropped, uneven steps, boundary begins, high ranks, other data types and rejected arguments are not covered.",
 ["src/basic/slice.c", "src/basic/duplicate.c"],
 [("slice_check_parameters", "src/basic/slice.c"), ("slice_create_output", "src/basic/slice.c"), ("slice_kernel index recorder", "src/basic/slice.c"), ("aitisa_duplicate", "src/basic/duplicate.c")])
prop("P10", "reshape and squeeze change the shape only",
 "aitisa_reshape to dims with extents >= 0 succeeds exactly when their product equals the number of elements (else STATUS_DIMENSIONS_MISMATCH), and gives a tensor with exactly those dims. aitisa_squeeze with num_axis 0 removes exactly the axes of extent 1; with a list of axes it removes exactly the listed axes whose extent is 1 and keeps listed axes of other extents (an axis listed twice counts once); a negative num_axis or an axis outside 0..ndim-1 gives STATUS_INVALID_ARGUMENT. In both cases the data type, device and the row-major sequence of elements are bit for bit those of the input.",
 ["inputs"], "every shape, data type and bit pattern, every target dims and every list of axes, valid or not",
 "Three tests use one shape each; list order, repetition, non-unit axes, ndim 0 results and rejected arguments are not covered.",
 ["src/basic/reshape.c", "src/basic/squeeze.c"], [("aitisa_reshape", "src/basic/reshape.c"), ("aitisa_squeeze", "src/basic/squeeze.c")])
prop("P11", "Conversions between data types keep the value",
 "aitisa_cast to a different data type gives a tensor of the same shape and device whose every element is the C conversion of the input element: integer to integer modulo 2^bits of the target type (interpreted in its range), integer to floating point rounded to nearest even, floating point to integer truncated toward zero (values whose truncation fits the target), float to double exact, double to float rounded to nearest even; the sign of a floating-point zero is kept. Casting to the tensor's own type returns STATUS_SUCCESS and leaves the output handle untouched; an unknown type code gives STATUS_NOT_SUPPORTED. aitisa_full and the castto functions convert a double the same way, and the typed get/set functions (single and array) copy exactly one element of their type at the given index.",
 ["inputs"], "every pair of the ten data types and every representable value whose conversion C defines",
 "Two casts of a few small values are tested, of 90 type pairs over all values, including extremes, wrap-around and rounding.",
 ["src/basic/cast.c", "src/core/types.c", "src/core/dispatch.h", "src/basic/factories.c"],
 [("cast_template dispatch", "src/basic/cast.c"), ("typed value function tables", "src/core/types.c"), ("type dispatch macros", "src/core/dispatch.h")])
prop("P12", "Element-wise add, sub, mul, div are exact for every data type",
 "For two tensors of equal type, shape and CPU device, aitisa_add/sub/mul/div give a tensor of that type and shape on the first operand's device whose i-th element is the operation on the i-th elements: for int8, int16 and unsigned types modulo 2^bits, for int32/int64 exact whenever the result fits the type, integer division truncated toward zero, for float and double the IEEE-754 correctly rounded result (with infinities, NaN and signed zeros). Integer division by zero anywhere in the tensor (or the most negative int32/int64 by -1) gives STATUS_MATH_ERROR. Operands on a device other than CPU give STATUS_NOT_SUPPORTED, different types STATUS_TYPE_MISMATCH, different ndim or dims STATUS_INVALID_ARGUMENT, checked in that order. Empty and 0-dimensional tensors are covered.",
 ["inputs"], "every pair of tensors: all ten types, all values, all shapes, matching or not",
 "add, sub and mul are each tested on one type with a few values, div not at all; wrap-around, extremes, sign combinations and mismatches are not covered.",
 ["src/math/binary_op.c", "src/core/types.c"],
 [("calc_<type>_value", "src/math/binary_op.c"), ("aitisa_add/sub/mul/div", "src/math/binary_op.c"), ("division check", "src/math/binary_op.c: div_undefined")])
prop("P13", "matmul is the (batched, broadcast) matrix product",
 "aitisa_matmul of tensors (extents >= 1, same type, CPU) gives, on the first operand's device, the sum over the contracted index of products, with shape: 1-D by 1-D -> {1}; 2-D by 1-D -> {rows}; 1-D by 2-D -> {columns}; 2-D by 2-D -> {rows, columns}; 1-D by n-D (n>=3) -> dims without the second-to-last; n-D (n>=3) by 1-D -> dims without the last; otherwise the leading batch dims are broadcast (right-aligned) and each pair of matrices is multiplied. Integer results are exact modulo 2^bits (for signed 32/64-bit whenever nothing overflows), floating-point results agree up to rounding. Contracted extents that differ, or batch dims that do not broadcast, give STATUS_DIMENSIONS_MISMATCH; a 0-dimensional operand STATUS_INVALID_ARGUMENT; a non-CPU device or differing types STATUS_NOT_SUPPORTED.",
 ["inputs"], "every pair of shapes (any ranks, broadcast patterns), data types and values",
 "Six tests use one shape each, none with broadcast on both sides or extents of 1 between others, and none with other data types or mismatches.",
 ["src/math/matmul.c", "src/basic/broadcast.c"],
 [("MM_KERNEL / BATCH_MM_KERNEL", "src/math/matmul.c"), ("batch_strides", "src/math/matmul.c"), ("rank dispatch", "src/math/matmul.c: aitisa_matmul")])
prop("P14", "dot is the generalised inner product",
 "aitisa_dot of tensors (extents >= 1, same type, CPU) gives, on the first operand's device: 1-D by 1-D -> {1}, the inner product; 2-D by 2-D -> the matrix product; a 0-dimensional operand on either side -> the other operand scaled by it element by element (64-bit integers exact); n-D by 1-D -> contraction of the last axis (shape without the last axis); n-D by m-D with n, m > 2 -> contraction of the last axis of the first with the second-to-last axis of the second, result axes in order: those of the first without its last, then those of the second without the contracted one. Integer results are exact modulo 2^bits (signed 32/64-bit whenever nothing overflows), floating-point ones agree up to rounding. Contracted extents that differ give STATUS_DIMENSIONS_MISMATCH for 1-D by 1-D and 2-D by 2-D and STATUS_INVALID_ARGUMENT otherwise; other rank combinations STATUS_INVALID_ARGUMENT; a non-CPU device or differing types STATUS_NOT_SUPPORTED.",
 ["inputs"], "every pair of ranks and shapes, data types and values",
 "Five tests with one shape each; other ranks, types, axis orders and rejected combinations are not covered.",
 ["src/math/dot.c", "src/basic/slice.c", "src/math/matmul.c", "src/math/binary_op.c"],
 [("vector_vector_dot, tensor_vector_dot, multidim_dot, scalar_tensor_mul", "src/math/dot.c"), ("rank dispatch", "src/math/dot.c: aitisa_dot")])
prop("P15", "Convolution is the strided, padded, dilated, grouped cross-correlation",
 "For float tensors input [N, C, spatial...] and filter [O, C/groups, spatial...] with n >= 1 spatial axes (extents >= 1), aitisa_conv gives, on the input's device, [N, O, out...] with out = floor((in + 2*padding - dilation*(k-1) - 1)/stride) + 1 per axis and each element the sum over the group's input channels and filter positions of filter * input at o*stride - padding + dilation*f, where positions outside the input count as zero - per-axis stride, padding and dilation, and any groups dividing both channel counts. aitisa_conv2d / aitisa_conv3d do the same for 4-D / 5-D input and give STATUS_DIMENSIONS_MISMATCH otherwise. A non-float input gives STATUS_NOT_SUPPORTED, a filter of another type STATUS_TYPE_MISMATCH, a filter of another rank or channel count STATUS_DIMENSIONS_MISMATCH, and stride < 1, padding < 0, dilation < 1, groups < 1 or not dividing the channels, or a dilated filter larger than the padded input STATUS_INVALID_ARGUMENT.",
 ["inputs"], "every shape, stride, padding, dilation, groups and values, valid or not",
 "Three tests, all with stride 1 and dilation 1, equal parameters on every axis and groups 1.",
 ["src/nn/conv.c", "src/basic/index_utils.c"],
 [("conv_output_dims", "src/nn/conv.c"), ("conv_check_parameters", "src/nn/conv.c"), ("aitisa_conv_float", "src/nn/conv.c")])
prop("P16", "Pooling computes max or average over each window",
 "aitisa_pooling of a tensor [N, C, spatial...] with 1 to 3 spatial axes (extents >= 1) gives [N, C, out...] with out = floor((in + 2*padding - dilation*(ksize-1) - 1)/stride) + 1 per axis. In mode \"max\" each element is the largest of the window's elements, positions in the padding counting as 0, exact for all ten data types; in mode \"avg\" it is the sum of the window's elements (padding counting as 0) divided by the full window size, truncated toward zero for integer types. stride, padding, dilation and ksize apply per axis. Any other mode, ksize or stride or dilation < 1, padding < 0, or a dilated window larger than the padded input gives STATUS_INVALID_ARGUMENT; ndim outside 3..5 gives STATUS_DIMENSIONS_MISMATCH.",
 ["inputs"], "every shape, window parameters per axis, mode, data type and (non-NaN) values, with window sums that fit a double exactly for integers",
 "Four tests, with equal parameters on all axes, non-negative maxima and three data types.",
 ["src/nn/pooling.c", "src/basic/index_utils.c"],
 [("pooling_double", "src/nn/pooling.c"), ("pooling_kernel / pooling_output_element", "src/nn/pooling.c"), ("pooling_create_output", "src/nn/pooling.c")])
prop("P17", "Batch normalization applies each channel's own parameters",
 "aitisa_batch_norm of a CPU tensor with ndim 2..5 (extents >= 1) normalized along axis 1 or ndim-1 gives a tensor of the same shape, type and device with y = (x - mean[c]) / sqrt(variance[c] + epsilon) * scale[c] + bias[c], c the coordinate along axis: up to rounding for float and double, and for integer types the same formula carried out in the data type (epsilon converted to it, square root and quotient truncated). ndim outside 2..5 gives STATUS_DIMENSIONS_MISMATCH; another axis STATUS_INVALID_ARGUMENT; parameter tensors of another type STATUS_TYPE_MISMATCH, of another size or not 1-D STATUS_DIMENSIONS_MISMATCH; epsilon < 0 STATUS_INVALID_ARGUMENT; a negative variance + epsilon, or a zero integer denominator, STATUS_MATH_ERROR.",
 ["inputs"], "every shape of rank 2 to 5, both axes, all data types, parameter values and epsilon, valid or not",
 "Three tests; channel/spatial extents mostly equal, ranks 3, other types, error cases and non-uniform parameters are not covered.",
 ["src/nn/batch_norm.c", "src/basic/slice.c", "src/basic/squeeze.c", "src/math/binary_op.c", "src/math/sqrt.c"],
 [("batch_norm_check_parameters", "src/nn/batch_norm.c"), ("batch_norm_with_channel / batch_norm_without_channel", "src/nn/batch_norm.c"), ("batch_norm_transport", "src/nn/batch_norm.c"), ("get_intermediate_tensors", "src/nn/batch_norm.c")])
prop("P18", "relu, sqrt, sigmoid and tanh are their functions, element by element",
 "Each gives a tensor of the input's shape, type and device. relu: max(x, 0), exact for all ten types and all non-NaN values. sqrt: the correctly rounded square root for float and double (infinity included), the truncated square root for integer types (values below 2^52), STATUS_MATH_ERROR if any element is negative. sigmoid and tanh, for float and double: 1/(1+e^-x) and tanh x to the precision of the type for every finite or infinite x - never NaN, sigmoid within [0,1], tanh within [-1,1]; other types give STATUS_NOT_SUPPORTED.",
 ["inputs"], "every tensor: all types, shapes and values, from zero and denormals to the largest and infinities",
 "A few small values of one or two types are tested; large magnitudes, other types, empty and scalar shapes and negative elements late in the tensor are not.",
 ["src/nn/relu.c", "src/math/sqrt.c", "src/nn/sigmoid.c", "src/nn/tanh.c", "src/core/dispatch.h"],
 [("relu_kernel", "src/nn/relu.c"), ("sqrt_kernel", "src/math/sqrt.c"), ("sigmoid_kernel", "src/nn/sigmoid.c"), ("tanh_kernel", "src/nn/tanh.c")])
prop("P19", "Softmax normalizes along the given axis",
 "aitisa_softmax gives a tensor of the input's shape, type and device in which each element is e^x divided by the sum of e^x' over the elements x' that share all its coordinates except the one along axis (axis -1: over the whole tensor), to the precision of the type and truncated for integer types; so for float and double every element is in [0,1] and each group sums to 1, for every finite input however large or negative. An axis below -1 or above ndim-1 gives STATUS_NOT_SUPPORTED. Holds for every ndim and extents >= 1.",
 ["inputs"], "every shape, axis, data type and finite values",
 "Two tests, one axis of one shape; other axes, ranks, types and large values are not covered.",
 ["src/nn/softmax.c"],
 [("softmax_along_axis_kernel", "src/nn/softmax.c"), ("softmax_with_all_kernel", "src/nn/softmax.c"), ("aitisa_softmax", "src/nn/softmax.c")])
prop("P20", "Dropout keeps an element exactly or makes it zero",
 "aitisa_dropout with rate in [0,1] gives a tensor of the input's shape, type and device in which every element is either bit for bit the input's or zero, whatever random numbers are drawn; with rate 0 every element is kept, with rate 1 every element is zero, and the fraction zeroed follows the rate (within sampling error, every element having the same chance). A rate outside [0,1] gives STATUS_INVALID_ARGUMENT. Extents >= 1.",
 ["inputs", "schedules"], "every tensor of all ten types, every rate and every sequence of random numbers",
 "One test with one rate counts zeros; the kept values, other types and the ends of the range are not checked.",
 ["src/nn/dropout.c", "src/basic/duplicate.c"], [("dropout_kernel", "src/nn/dropout.c"), ("aitisa_dropout", "src/nn/dropout.c")])
prop("P21", "auto_test inputs, results and samples share and free their buffers correctly",
 "Unary_Input, Binary_Input, Result and Sample of auto_test share the buffers they own by reference counting: through any sequence of construction (from a dims pointer or a vector), copy construction, move construction, assignment (to itself, to an object already sharing, to or from a default-constructed or moved-from object), set_result and destruction, in any order, every object reports the ndim, dims, types, devices, data and lengths of what it was last given, each owned buffer stays valid while some object holds it and is freed exactly once, when the last holder goes, and a moved-from object owns nothing. Result::set_result takes copies of its arguments and does not affect other holders of the previous result.",
 ["histories"], "every sequence of construction, copy, move, assignment, set_result and destruction over any number of objects",
 "No test covers auto_test's ownership at all, and ownership errors depend on the order of copies, moves and destructions.",
 ["auto_test/sample.h", "auto_test/sample.cpp"],
 [("reference counts", "auto_test/sample.h"), ("copy, move, assignment", "auto_test/sample.cpp"), ("Result::set_result", "auto_test/sample.cpp")])
prop("P22", "auto_test's type tables and data generators match the data types",
 "aitisa_int_to_dtype / aitisa_int_to_device and aitisa_dtype_to_int / aitisa_device_to_int are mutually inverse over the ten data types and two devices, and elem_size(i) is the size of type i. natural_assign fills exactly the floor(len / element size) elements of a buffer with 1, 2, 3, ... (wrapping in the integer type) or 0.1, 0.2, 0.3, ... (rounded), and random_assign fills them with values that are the same on every call, integers in 0..10 and finite floating-point numbers; neither writes a byte outside the buffer, for any length including 0 and lengths that are not a multiple of the element size.",
 ["inputs", "histories"], "every data type, every buffer length and every repetition",
 "auto_test is compiled but never run by the tests.",
 ["auto_test/basic.h", "auto_test/basic.cpp"],
 [("dtype and device tables", "auto_test/basic.cpp"), ("natural_assign / random_assign", "auto_test/basic.cpp")])
prop("P23", "Shapes and storages on their own keep their arrays to themselves",
 "aitisa_create_shape with LAYOUT_DENSE gives a shape with the given ndim and a copy of the given extents (any int64 values), whose layout is dense and visits the last axis first (min2maj is ndim-1, ..., 1, 0); another layout type gives STATUS_NOT_SUPPORTED. aitisa_create_storage gives a storage that reports the given data type, device and size, and holds the given data buffer (its bytes unchanged), or, when data is NULL, memory of its own for size elements. When either does not succeed (STATUS_ALLOC_FAILED if memory runs out at any of its allocations) no memory is kept, a data buffer stays the caller's and a storage handle keeps its value. aitisa_destroy_shape gives back exactly the shape's arrays and sets their pointers (dims, layout.min2maj) to NULL, aitisa_destroy_storage gives back exactly the storage and its data (not the data if the user has set the data pointer to NULL) and sets the handle to NULL; so destroying either again, or a NULL shape pointer or NULL storage handle, succeeds and does nothing. No shape or storage shares memory with another or with the caller's arrays, and all memory goes through the installed allocator.",
 ["histories", "fault_sequences", "inputs"], "every sequence of creations and destructions of shapes and storages, with any ndim, extents, type, size, layout type and buffer, memory running out at any allocation",
 "No test calls these functions on their own; layouts, repeated destruction and failures half way through are never exercised.",
 ["src/core/shape.c", "src/core/shape.h", "src/core/storage.c", "src/core/storage.h", "src/core/allocator.h"],
 [("aitisa_create_shape / aitisa_destroy_shape", "src/core/shape.c"), ("aitisa_create_default_layout", "src/core/shape.c"), ("aitisa_create_storage / aitisa_destroy_storage", "src/core/storage.c")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
