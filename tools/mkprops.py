#!/usr/bin/env python3
"""Source of truth for /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Shapes, strides and tile grids partition every tensor exactly",
 "For every tensor shape and base tile shape, the column-major element numbering is a bijection between valid multi-indices and 0..count-1 (with consistent strides, counts and partial products), and the grid of tiles covers every element exactly once with every tile of base size except the last along each dimension. Out-of-range indices, non-positive extents and mismatched dimensionalities are rejected with an error rather than answered.",
 ["inputs"], "all dimensionalities (including 0), extents, base tiles (including larger than the tensor) and indices",
 "The traits tests use a few fixed shapes; the claim is over all shape/tile combinations and both conversion directions.",
 ["include/nntile/tile/traits.hh", "src/tile/traits.cc", "include/nntile/tensor/traits.hh", "src/tensor/traits.cc", "include/nntile/tensor/tensor.hh"],
 [("shape/stride/matrix_shape construction and index checks", "include/nntile/tile/traits.hh"), ("grid/leftover computation, tile shapes", "include/nntile/tensor/traits.hh")],
 ["nntile_core.tile.TileTraits / nntile_core.tensor.TensorTraits attributes and methods", "per-tile shapes of a constructed tensor"])

prop("P02", "Block-cyclic distribution assigns every tile periodically to valid ranks",
 "For every tile grid, process grid and rank window, the block-cyclic distribution lists one owner per tile in tile order, the owner depends only on the tile coordinates modulo the process grid and equals the column-major position in the process grid shifted by the start rank modulo the number of ranks. Every owner is a valid rank, every tensor accepts exactly the distributions that have one entry per tile.",
 ["inputs", "configurations"], "all tile grids (any dimensionality), process grids, start ranks and rank counts",
 "The tests exercise only the trivial one-rank distribution.",
 ["src/tensor/distributions.cc", "include/nntile/tensor/distributions.hh", "include/nntile/tensor/tensor.hh"],
 [("cyclic coordinate counter", "src/tensor/distributions.cc")],
 ["nntile_core.tensor.distributions.block_cyclic", "Tensor constructor"])

prop("P03", "Host arrays, scatter, gather and copy move data bit-exactly",
 "Writing a host array into a tensor and reading it back returns the same bits for every element type, shape, tiling and host memory layout, and scatter, gather and copy between tensors reproduce exactly the source bits in exactly the destination positions leaving the source unchanged. Arrays or tensors of another shape are rejected without altering the destination.",
 ["inputs", "configurations"], "all element types (single, double, half precision, integer, boolean), shapes, tilings, host array layouts (row-major, strided, byte-swapped views) and bit patterns including NaN payloads and infinities",
 "The tests round-trip a few random float arrays with two tilings.",
 ["wrappers/python/nntile/nntile_core.cc", "src/tensor/scatter.cc", "src/tensor/gather.cc", "src/tensor/copy.cc", "src/tile/copy.cc", "src/starpu/copy.cc", "src/starpu/subcopy.cc", "src/kernel/subcopy/cpu.cc", "wrappers/python/nntile/tensor.py"],
 [("temporary single-tile tensor + scatter/gather", "wrappers/python/nntile/nntile_core.cc"), ("N-dimensional strided copy", "src/kernel/subcopy/cpu.cc")],
 ["from_array/to_array, scatter/gather/copy and the high-level tensor functions"])

prop("P04", "Copying an intersection transfers exactly the overlapping region",
 "For every pair of tensors placed at integer offsets in a common index space, copying the intersection makes every destination element inside the overlap equal to the corresponding source element and leaves every other destination element and the whole source unchanged. This holds for empty, partial, touching and full overlaps whatever the two tilings are.",
 ["inputs", "configurations"], "all shapes, offsets (negative and positive, including disjoint placements), tilings on either side and element types",
 "The tests use few fixed offsets; the overlap logic has many geometric cases per dimension.",
 ["src/tensor/copy_intersection.cc", "src/tile/copy_intersection.cc", "src/starpu/subcopy.cc", "src/kernel/subcopy/cpu.cc"],
 [("tile-range and per-tile overlap computation with complete/partial write decision", "src/tensor/copy_intersection.cc")],
 ["destination and source contents after the call"])

prop("P05", "Element-wise arithmetic operations equal their formulas",
 "Every element-wise tensor operation (add, axpy, scale, add/multiply/maximum/hypot/power/square-root variants, quotient accumulation, fill, clear, masking) computes its documented formula on every element, in every supported precision, for every value of its scalar factors including zero, one and negative ones. Values that are infinite, signed zero or NaN are handled as the formula prescribes in IEEE arithmetic and every tile including partial ones is processed exactly once.",
 ["inputs", "configurations"], "all shapes, tilings, element values and scalar parameters",
 "Tests sample one or two scalar pairs on a couple of shapes.",
 ["src/tensor/add.cc", "src/tensor/axpy.cc", "src/tensor/scal.cc", "src/tensor/scal_inplace.cc", "src/tensor/add_scalar.cc", "src/tensor/prod.cc", "src/tensor/maximum.cc", "src/tensor/hypot.cc", "src/tensor/hypot_scalar_inverse.cc", "src/tensor/pow.cc", "src/tensor/sqrt.cc", "src/tensor/sqrt_inplace.cc", "src/tensor/addcdiv.cc", "src/tensor/fill.cc", "src/tensor/clear.cc", "src/tensor/mask_scalar.cc", "src/kernel", "src/starpu"],
 [("per-tile task loops", "src/tensor/*.cc"), ("scalar shortcuts (zero/one factors)", "src/tensor/add.cc, src/starpu/*.cc")],
 ["output tensors compared with an independent double-precision model"])

prop("P06", "Activations and their derivatives are accurate and finite everywhere",
 "ReLU, GeLU and tanh-approximated GeLU, in-place or out-of-place, return the mathematical value and their derivative/backward operations return (and backward ones accumulate) the mathematical derivative times the incoming gradient, for every finite input. No finite input of moderate output ever yields NaN or an infinity: large positive inputs behave as identity and large negative ones as zero.",
 ["inputs"], "all finite inputs from zero and denormals to very large magnitudes, any tiling, both precisions",
 "Tests use small random values only; cancellation and overflow appear at magnitudes they never sample.",
 ["src/kernel/relu", "src/kernel/relu_forward", "src/kernel/relu_backward", "src/kernel/drelu", "src/kernel/gelu", "src/kernel/gelu_backward", "src/kernel/dgelu", "src/kernel/gelutanh", "src/kernel/gelutanh_inplace", "src/kernel/gelutanh_backward", "src/kernel/dgelutanh", "src/tensor/relu.cc", "src/tensor/gelu.cc", "src/tensor/gelutanh.cc"],
 [("compensated exponent evaluation and overflow guards", "src/kernel/gelutanh*/cpu.cc")],
 ["output tensors compared with an independent high-accuracy model"])

prop("P07", "Slice and fiber broadcasts, products, sums and norms are correct",
 "For every axis, batch count, scalar factors and tiling, broadcasting a slice or fiber into a tensor and reducing a tensor to a slice, fiber or scalar (sums, sums of products, norms, sum-and-norm pairs, normalisation) give the documented formula, touching each element once. Accumulating forms add exactly one scaled copy of the prior destination no matter how many tiles contribute.",
 ["inputs", "configurations"], "all shapes, axes, batch dimension counts, scalar factors (including zero) and tilings with partial tiles",
 "Tests check few shapes with fixed factors and several Python entry points are untested or marked not implemented.",
 ["src/tensor/add_slice.cc", "src/tensor/add_slice3.cc", "src/tensor/add_fiber.cc", "src/tensor/prod_slice.cc", "src/tensor/prod_fiber.cc", "src/tensor/prod_fiber3.cc", "src/tensor/sum_slice.cc", "src/tensor/sum_fiber.cc", "src/tensor/norm_slice.cc", "src/tensor/sumprod_slice.cc", "src/tensor/sumprod_fiber.cc", "src/tensor/sumnorm.cc", "src/tensor/normalize.cc", "src/tensor/nrm2.cc", "src/kernel"],
 [("first-contribution uses beta, later ones accumulate", "src/tensor/sum_slice.cc and siblings"), ("compensated summation and scaled norms", "src/kernel/*/cpu.cc")],
 ["output tensors compared with an independent double-precision model"])

prop("P08", "Matrix contraction and transposition equal their definitions",
 "Multiplying tensors over any number of contracted and batch dimensions, with any transposition of either operand and any scalar factors, gives alpha*op(A)*op(B)+beta*C for every element, and transposition gives the scaled cyclic permutation of dimensions. With beta zero, earlier contents of the result (even NaN) have no influence, and beta is applied exactly once however many tiles are contracted.",
 ["inputs", "configurations"], "all operand shapes, contraction/batch dimension counts, transposition combinations, scalar factors and tilings",
 "Tests enumerate few shapes with equal tiles; the claim spans all combinations of transposition, dimension counts and partial tiles.",
 ["src/tensor/gemm.cc", "src/tile/gemm.cc", "src/starpu/gemm.cc.in", "src/tensor/gemm_ex.cc", "src/tensor/transpose.cc", "src/kernel/transpose/cpu.cc"],
 [("tile triple loop with beta on the first contraction step", "src/tensor/gemm.cc"), ("leading-dimension choice per transposition", "src/starpu/gemm.cc.in")],
 ["result tensor compared with an independent double-precision contraction"])

prop("P09", "Softmax and log-sum-exp are exact, stable and respect masks",
 "The running maximum/sum-of-exponents of a tensor along an axis, and the softmax, log-sum-exp and cross-entropy pieces computed from it, equal the mathematical values for every finite input without overflow or underflow to NaN, entries masked with minus infinity contribute exactly zero, and slices that are entirely masked leave the accumulator untouched. Accumulating further data, in any split into tiles, merges as if all data had been seen at once.",
 ["inputs", "configurations"], "all shapes, axes, tilings, finite magnitudes up to overflow limits, and mask patterns including fully masked slices and tiles",
 "Tests use small random values without masked or extreme entries.",
 ["src/kernel/maxsumexp/cpu.cc", "src/kernel/accumulate_maxsumexp/cpu.cc", "src/kernel/softmax/cpu.cc", "src/kernel/softmax_inplace/cpu.cc", "src/kernel/logsumexp/cpu.cc", "src/kernel/total_sum_accum/cpu.cc", "src/kernel/subtract_indexed_outputs/cpu.cc", "src/tensor/maxsumexp.cc", "src/tensor/softmax.cc", "src/tensor/softmax_inplace.cc", "src/tensor/logsumexp.cc", "src/tensor/total_sum_accum.cc", "src/tensor/subtract_indexed_outputs.cc"],
 [("max-shifted running sum, minus-infinity skip", "src/kernel/maxsumexp/cpu.cc")],
 ["output tensors compared with an independent high-accuracy model"])

prop("P10", "Fused attention equals plain masked attention, forward and backward",
 "The fused attention operations produce the same result as explicitly computing scaled query-key products, masking, softmax and value products, and the fused backward operation fills its outputs, whatever they held before, with the exact gradients of that expression with respect to queries, keys and values. The result does not depend on how the sequence, head and batch dimensions are tiled nor on the reduction strategy chosen.",
 ["inputs", "configurations"], "all head sizes, sequence lengths, batch and head counts, valid tilings, masks (causal, random, banded) and both precisions",
 "Existing tests run one configuration through the layer and no fused backward against a reference over tilings.",
 ["src/tensor/flash_maxsumexp.cc", "src/tensor/flash_softmax_gemm.cc", "src/tensor/flash_softmax_gemm_backward.cc", "src/starpu/flash_maxsumexp.cc.in", "src/starpu/flash_softmax_gemm.cc.in", "src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in", "src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in"],
 [("recomputation of scores per tile pair with stored max/sum", "src/starpu/flash_*.cc.in")],
 ["output and gradient tensors compared with an independent model"])

prop("P11", "Embedding lookup and its gradient address exactly the indexed rows",
 "Embedding copies, for every position, exactly the vocabulary column named by the index into the chosen axis of the output, and its backward adds every position's gradient to exactly that column, counting repeated indices with multiplicity and leaving other columns unchanged. This holds for any axis, any tiling of positions and of the embedding dimension and any index multiset.",
 ["inputs", "configurations"], "all vocabulary sizes, index tensors (repeated, extreme and single indices), axes and tilings",
 "Tests use one or two shapes; repeated indices across tiles and inner axes are not sampled.",
 ["src/tensor/embedding.cc", "src/tensor/embedding_backward.cc", "src/starpu/embedding.cc", "src/starpu/embedding_backward.cc", "src/kernel/embedding/cpu.cc", "src/kernel/embedding_backward/cpu.cc"],
 [("column offset computation and per-tile accumulation", "src/tensor/embedding_backward.cc")],
 ["output tensors compared with an independent indexing model"])

prop("P12", "Random initialisation is reproducible and independent of tiling",
 "Filling with normal random numbers gives, for a fixed seed, mean and deviation, one fixed value per position of the underlying array: any tiling, any sub-window at any offset, any repetition or schedule yields the same bits at the same underlying position. The values scale and shift exactly as mean plus deviation times the standard value, differ between seeds and positions, and follow the standard normal distribution.",
 ["inputs", "configurations", "schedules"], "all seeds, underlying shapes, windows, tilings, means and deviations",
 "Tests compare tile and kernel versions on one shape; windows at offsets over many dimensions are not covered.",
 ["src/kernel/randn/cpu.cc", "src/starpu/randn.cc", "src/tile/randn.cc", "src/tensor/randn.cc", "external/random.h"],
 [("counter-style generator with jump-ahead to each fibre", "src/kernel/randn/cpu.cc")],
 ["tensor contents compared across tilings, windows and runs"])

prop("P13", "Results do not depend on how tensors are tiled",
 "For every operation and every chain of operations, running on the same data with different legal tilings gives the same mathematical result: equal up to rounding for reductions and bitwise equal for data movement, element-wise and indexed operations.",
 ["inputs", "configurations", "programs"], "all operations, chains of operations and pairs of legal tilings, including one tile, one element per tile and uneven last tiles",
 "Each test fixes one or two tilings and compares one operation in isolation.",
 ["src/tensor", "src/starpu", "src/kernel"],
 [("per-tile task decomposition", "src/tensor/*.cc")],
 ["results of the same program executed under different tilings"])

prop("P14", "Asynchronous programs behave as if executed in submission order",
 "For every program of asynchronous operations, with any number of workers, any scheduling policy and any task timing, every tensor ends with the contents it would have if operations were executed one after another in program order, and every conflicting pair of accesses executes in submission order. Waiting for completion, reading data back, and every blocking operation return only after all earlier work they depend on is finished, and the program always completes.",
 ["schedules", "programs"], "all programs over all operations, worker counts, scheduling policies and injected delays",
 "Tests run one operation at a time under the default schedule and wait right after.",
 ["include/nntile/starpu/config.hh", "src/starpu", "src/tensor", "src/tile", "wrappers/python/nntile/nntile_core.cc"],
 [("declared access mode of every task argument", "src/starpu/*.cc submit()"), ("wait for all tasks in blocking forms", "src/tensor/*.cc"), ("task completion polling", "wrappers/python/nntile/nntile_core.cc wait_for_all")],
 ["final tensor contents vs. a sequential model", "task event log: start/end times per accessed buffer"],
 state=[("access mode", "read/write/read-write/reduction/scratch per task argument", "src/starpu/*.cc")])

prop("P15", "Operations change only their outputs and never depend on stale contents",
 "No operation alters any of its input tensors, and buffers an operation announces as overwritten, temporary or scaled by zero may hold anything beforehand, including NaN, without influencing any result. Every piece of work only modifies data it has declared as modified.",
 ["inputs", "schedules", "configurations"], "all operations, scalar factors, tilings and prior buffer contents",
 "Tests allocate fresh buffers that happen to be benign and do not compare inputs after the call.",
 ["src/starpu", "src/kernel", "src/tensor"],
 [("access mode selection depending on scalar factors", "src/starpu/*.cc submit()")],
 ["monitor around every executed task: input hashes before/after, poisoned outputs and scratch", "operand tensors after each call"])

prop("P16", "Parallel reduction mode gives the same results as sequential accumulation",
 "Wherever an operation, layer or loss offers a parallel reduction option, switching it on or off, with any number of workers, changes results only by rounding: nothing is lost, double counted or left over from earlier contents, including when results are accumulated onto existing data or the program is repeated.",
 ["configurations", "schedules", "inputs"], "all operations with the option, operand shapes, tilings, worker counts, scalar factors and prior contents",
 "Tests hardly ever enable the option and never vary workers.",
 ["src/tensor/sum_slice.cc", "src/tensor/sum_fiber.cc", "src/tensor/norm_slice.cc", "src/tensor/sumprod_slice.cc", "src/tensor/sumprod_fiber.cc", "src/tensor/maxsumexp.cc", "src/tensor/gemm.cc", "src/tensor/embedding_backward.cc", "src/tensor/flash_maxsumexp.cc", "src/tensor/flash_softmax_gemm.cc", "src/tensor/flash_softmax_gemm_backward.cc", "src/starpu/accumulate.cc", "src/starpu/accumulate_hypot.cc", "src/starpu/accumulate_maxsumexp.cc", "src/starpu/clear.cc", "include/nntile/tensor/tensor.hh"],
 [("reduction and initialisation codelets attached to handles", "include/nntile/tensor/tensor.hh"), ("REDUX access mode", "src/starpu/*.cc")],
 ["output tensors with the option on and off"])

prop("P17", "Invalid arguments are rejected before anything is changed",
 "Every tensor operation called with incompatible shapes, tilings, axes, dimension counts or batch counts raises an error, and in that case no operand has been modified and no work has been started. Every call with compatible arguments is accepted.",
 ["inputs"], "all operations and all single-argument deviations from a valid call",
 "Tests try a handful of wrong calls per operation and never look at operands afterwards.",
 ["src/tensor", "src/tile", "include/nntile/tensor/traits.hh"],
 [("argument checks before the task loops", "src/tensor/*.cc")],
 ["raised exceptions, operand contents and number of submitted tasks around invalid calls"])

prop("P18", "No accepted call corrupts memory or executes undefined behaviour",
 "No sequence of accepted operations, of any shape, tiling, element type and parameters, accesses memory outside the buffers it was given, uses freed memory, or executes undefined behaviour in native code, including the buffers handed to the linear-algebra library. A process running such a sequence never crashes.",
 ["inputs", "programs", "configurations"], "all operations, shapes, tilings, element types and parameter values, and object lifetimes around asynchronous execution",
 "Tests are not run with sanitizers and out-of-bounds accesses in partial tiles usually go unnoticed.",
 ["src", "include/nntile", "wrappers/python/nntile/nntile_core.cc"],
 [("argument validation and size bookkeeping", "src/tensor, src/tile, src/starpu")],
 ["address/undefined-behaviour sanitizer reports while running the operation workload", "extents passed to BLAS"])

prop("P19", "Objects may be dropped, invalidated and re-created at any time",
 "Releasing, dropping or marking tensors as no longer needed while operations on them are still queued never changes the result of those operations, blocks forever, or loses user-provided memory contents; every registered buffer is released exactly once. The runtime can be initialised, paused, resumed, shut down and initialised again any number of times with identical behaviour.",
 ["histories", "schedules"], "all interleavings of submission, release, invalidation, pause/resume and re-initialisation",
 "Tests release everything after waiting and never restart the runtime.",
 ["include/nntile/starpu/config.hh", "include/nntile/tensor/tensor.hh", "include/nntile/tile/tile.hh", "include/nntile/starpu.hh", "wrappers/python/nntile/nntile_core.cc"],
 [("handle ownership with mode-dependent deleters", "include/nntile/starpu/config.hh")],
 ["registered/unregistered buffer counts, results after early release, repeated runtime cycles"])

prop("P20", "Concurrently running tasks never race on shared memory",
 "Any number of tasks that have no declared dependency on each other can run at the same time on different workers without any unsynchronised access to shared memory, so that results are the same as with a single worker.",
 ["schedules", "programs"], "all pairs of operations running concurrently, with any timing, parameters and element types",
 "Tests are not run with a race detector and rarely have two tasks in flight.",
 ["src/kernel", "src/starpu", "include/nntile/starpu/config.hh"],
 [("task bodies only touch their declared buffers and packed arguments", "src/starpu/*.cc")],
 ["race detector reports on an instrumented build; results of concurrent runs"])

prop("P21", "Layers compute the same forward function as their reference definitions",
 "For every supported shape, tiling, option and parameter values, the forward pass of every layer (activation, linear with either side, bias and transposition options, elementwise addition, slice addition, layer normalisation, embedding, average pooling, token mixing, attention and fused attention) equals the reference formula used by mainstream frameworks.",
 ["inputs", "configurations"], "all layer types and options, shapes, tilings, parameter and input values",
 "Layer tests use one configuration each and several are disabled.",
 ["wrappers/python/nntile/layer"],
 [("operation sequences of each forward_async", "wrappers/python/nntile/layer/*.py")],
 ["layer output tensors vs. an independent double-precision reference"])

prop("P22", "Backward passes yield exact gradients and accumulate into requested ones",
 "For every layer, the backward pass adds to every requested gradient (inputs and parameters) exactly the derivative of the forward function applied to the output gradient, overwriting only where documented as first use, and neither computes nor touches gradients that were not requested.",
 ["inputs", "configurations", "histories"], "all layers, options, shapes, tilings, values, prior gradient contents and choices of requested gradients",
 "Layer tests compare gradients from a cleared state in one configuration.",
 ["wrappers/python/nntile/layer"],
 [("operation sequences of each backward_async", "wrappers/python/nntile/layer/*.py"), ("grad_required flags", "wrappers/python/nntile/tensor.py")],
 ["gradient tensors vs. automatic differentiation of the reference"])

prop("P23", "Models stay correct over any number of training iterations",
 "Repeating forward, loss, backward, update and gradient clearing on the same model gives at every iteration exactly what a freshly built model with the same parameters and inputs would give: no state leaks from earlier iterations, no temporary is released too early or reused while in use.",
 ["histories", "schedules"], "all models and layers, iteration counts, changing inputs and schedules",
 "Tests perform a single forward and backward pass.",
 ["wrappers/python/nntile/layer", "wrappers/python/nntile/model", "wrappers/python/nntile/tensor.py"],
 [("wont_use/invalidate_submit of temporaries, clear_gradients", "wrappers/python/nntile/layer/*.py, model/base_model.py")],
 ["outputs and gradients at every iteration vs. a stateless reference"])

prop("P24", "Losses and their gradients are exact for every batch and tiling",
 "The cross-entropy loss accumulates the scaled sum over all positions of log-sum-exp minus the target logit and yields softmax minus one-hot times the scale as gradient, and the quadratic loss yields half the squared distance with the difference as gradient, for every label assignment, shape, tiling and magnitude of the logits.",
 ["inputs", "configurations", "histories"], "all logits including extreme ones, labels, class counts, tilings of positions and classes, and repeated evaluation",
 "Loss tests use one shape and tiling.",
 ["wrappers/python/nntile/loss/crossentropy.py", "wrappers/python/nntile/loss/frob.py"],
 [("maxsumexp, logsumexp, total_sum_accum, softmax, subtract_indexed_outputs chain", "wrappers/python/nntile/loss/crossentropy.py")],
 ["loss value and gradient vs. independent reference"])

prop("P25", "Optimizers follow their published update rules over whole histories",
 "For every sequence of gradients, every hyper-parameter setting and any number of steps, SGD with its momentum, Nesterov, damping and decay options, and Adam, fused Adam and AdamW with weight decay, keep every parameter on exactly the published recurrence, independently of tiling and of the other parameters.",
 ["histories", "inputs", "configurations"], "all gradient histories, hyper-parameters, step counts, parameter sets and tilings",
 "Optimizer tests are disabled or run a few steps with default settings.",
 ["wrappers/python/nntile/optimizer", "src/kernel/adam_step/cpu.cc", "src/kernel/adamw_step/cpu.cc", "src/tensor/adam_step.cc", "src/tensor/adamw_step.cc"],
 [("step recurrences and first-iteration special cases", "wrappers/python/nntile/optimizer/*.py, src/kernel/adam*_step/cpu.cc")],
 ["parameter tensors after every step vs. independent recurrence in double precision"])

prop("P26", "Saved optimizer and model state restores an identical continuation",
 "Saving the state of an optimizer or a model at any point and loading it into a new instance continues training exactly as if nothing had been interrupted, for every optimizer, option and parameter set.",
 ["histories", "crash_points"], "all optimizers, options, save points (before, during and after training) and parameter sets",
 "No test saves and restores state.",
 ["wrappers/python/nntile/optimizer", "wrappers/python/nntile/model/base_model.py"],
 [("save_state/load_state", "wrappers/python/nntile/optimizer/*.py"), ("save/load of parameters", "wrappers/python/nntile/model/base_model.py")],
 ["parameter trajectories of interrupted and uninterrupted runs"])

prop("P27", "Imported models reproduce the reference framework's outputs and gradients",
 "A model imported from the reference framework (deep ReLU networks, MLP mixers, GPT-2 blocks and full models) produces the same outputs and parameter gradients as the original for every architecture size and input, and exporting its parameters or gradients back returns the same numbers in the original layout.",
 ["inputs", "configurations"], "all architecture hyper-parameters, weights, inputs and tilings",
 "Only one mixer configuration is checked by a stable test; other model tests are disabled.",
 ["wrappers/python/nntile/model", "wrappers/python/nntile/layer"],
 [("weight layout conversion", "wrappers/python/nntile/model/*.py from_torch/to_torch")],
 ["model outputs/gradients vs. the reference framework"])

prop("P28", "The training pipeline equals plain batched gradient descent",
 "Running the training pipeline over epochs, batches and micro-batches updates parameters exactly as a reference loop that sums micro-batch gradients, updates once per batch and clears gradients in between, and reports the loss of the processed data.",
 ["histories", "inputs", "configurations"], "all numbers of epochs, batches and micro-batches, losses, optimizers and data",
 "No test drives the pipeline.",
 ["wrappers/python/nntile/pipeline.py"],
 [("batch/micro-batch loop with copy-in, loss, backward, step", "wrappers/python/nntile/pipeline.py")],
 ["parameter values and losses vs. an independent reference loop"])

prop("P29", "Single-tile operations honour the same contracts as tensor operations",
 "Every operation offered on individual tiles computes the same formula as the corresponding tensor operation on the same data, rejects incompatible shapes and axes without modifying operands, and returns only when the work is done in its blocking form.",
 ["inputs", "configurations"], "all tile operations, shapes, axes, scalar parameters and values",
 "Tile tests sample few shapes and compare with the lower layer of the same library rather than an independent model.",
 ["src/tile", "include/nntile/tile"],
 [("argument checks and task submission", "src/tile/*.cc")],
 ["tile contents compared with an independent double-precision model"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
