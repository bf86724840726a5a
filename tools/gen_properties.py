"""Writes /verif/properties.jsonl (kept here in a readable form)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
S = "src/aihwkit/"
C = "src/rpucuda/"

prop("C01", "Weights written to an analog tile read back unchanged",
 "For every weight matrix, bias and mapping configuration (scaling omega, column-wise, learned or no output scales, digital or analog bias), writing weights into a tile and reading them back returns the same logical weights and bias. The digital output scales and the stored tile weights always multiply to the logical weights, and with a positive scaling omega every stored weight has magnitude at most omega.",
 ["inputs", "configurations"], "all real weight/bias values (all-zero rows included), all mapping configurations, all sequences of a write followed by a rescale and a read",
 "Tests read back a few random matrices with a tolerance, never all-zero rows, repeated writes or every combination of mapping options.",
 [S+"simulator/tiles/periphery.py", S+"simulator/tiles/base.py", S+"simulator/parameters/mapping.py"],
 [("set_weights/get_weights/apply_weight_scaling/get_scales", S+"simulator/tiles/periphery.py"), ("combine/separate weights and bias", S+"simulator/tiles/base.py")],
 ["tile.set_weights", "tile.get_weights", "tile.get_scales", "stored tile weights"])
prop("C02", "Splitting a layer over several tiles conserves the layer",
 "A linear layer that is split over an array of tiles uses only tiles no larger than the configured maximum sizes, the tile sizes add up exactly to the layer size, and differ by at most one. Weights written to the array read back unchanged, and its output equals the full matrix-vector product plus the bias, for every input.",
 ["inputs", "configurations"], "all layer sizes, all maximum tile sizes, all weights and inputs, with and without bias",
 "Tests use a handful of sizes; off-by-one splits only show for particular remainders of size by maximum size.",
 [S+"simulator/tiles/array.py", S+"nn/modules/linear_mapped.py", S+"nn/modules/conv_mapped.py"],
 [("split size computation, concatenation and summation of tile results", S+"simulator/tiles/array.py"), ("channel-wise split sizes", S+"nn/modules/conv_mapped.py")],
 ["in_sizes/out_sizes", "array forward", "get_weights of the array"])
prop("C03", "Analog convolutions compute the convolution of their weights",
 "For every input image, kernel, stride, padding, dilation and bias that the layer accepts, an analog convolution layer on ideal tiles returns exactly the digital convolution with its logical weights. This holds for the unfolded and the indexed execution, for one- to three-dimensional layers, and for layers mapped over several tiles.",
 ["inputs", "configurations"], "all pixel and weight values; geometries up to the stated bound",
 "Tests compare a few fixed geometries numerically; non-square images with asymmetric stride, padding or changing input size between calls are not sampled.",
 [S+"nn/modules/conv.py", S+"nn/modules/conv_mapped.py"],
 [("index tables for the folded input", S+"nn/modules/conv.py"), ("unfold path and output reshape", S+"nn/modules/conv.py"), ("channel split", S+"nn/modules/conv_mapped.py")],
 ["layer output", "fold index table", "image sizes"])
prop("C04", "Noise-free tiles compute exact products and exact gradients",
 "When the analog non-idealities are switched off, the forward pass of a tile equals the matrix product of its logical weights with the input plus bias, and the backward pass equals the product with the transposed logical weights, for every weight, input, digital output scale and batch shape. The weight gradient handed to the optimizer equals the outer-product gradient of that same map.",
 ["inputs", "configurations"], "all weights, scales, inputs, output gradients; transposed and batched layouts",
 "Numerical tests compare few random shapes and mostly with unit scales, where forgetting a scale in one of the passes is invisible.",
 [S+"simulator/tiles/periphery.py", S+"simulator/tiles/torch_tile.py", S+"simulator/tiles/analog_mvm.py", S+"simulator/tiles/custom.py", S+"simulator/tiles/floating_point.py", S+"simulator/tiles/functions.py"],
 [("scaling of inputs and gradients around the tile", S+"simulator/tiles/periphery.py"), ("autograd function", S+"simulator/tiles/functions.py")],
 ["tile.forward", "tile.backward", "tile.update"])
prop("C05", "Python analog product respects converter range and resolution",
 "For every input, weight, noise draw and setting of the converters, the python simulation of an analog matrix product feeds the array only with inputs inside the input bound and on the input grid, and returns only values inside the output bound and on the output grid (times the digital rescaling). Noise management by the input maximum makes the result scale with the input exactly, and zero input gives zero output when there is no output noise or offset.",
 ["inputs", "configurations"], "all inputs, weights, noise outcomes, bounds, resolutions, management modes supported by the python simulation",
 "Saturation and rounding edges and the iterative rescaling loop are hit only by particular inputs and noise draws.",
 [S+"simulator/tiles/analog_mvm.py", S+"simulator/tiles/utils.py", S+"simulator/parameters/io.py"],
 [("prepare input / finalize output / noise and bound management", S+"simulator/tiles/analog_mvm.py"), ("uniform quantization", S+"simulator/tiles/utils.py")],
 ["AnalogMVM result", "values passed to the raw matrix product"])
prop("C06", "Compiled analog product respects converter range and resolution",
 "For every input, weight, noise draw and converter setting, the compiled simulation of an analog matrix product feeds the array only with inputs inside the input bound and on the input grid, and returns only values inside the output bound and on the output grid (times the digital rescaling). With all non-idealities disabled it equals the exact product in both directions, and the rescaling applied at the output is the inverse of the one applied at the input.",
 ["inputs", "configurations"], "all inputs, noise draws, bounds, resolutions, noise- and bound-management modes, any vector length",
 "The compiled code is tested through whole-layer numerics only; saturated, asymmetric or retried products are sampled rarely or not at all.",
 [C+"rpu_forward_backward_pass.cpp", C+"rpu_forward_backward_pass.h", C+"utility_functions.h"],
 [("prepareInput, finalizeOutput, computeNoiseManagement", C+"rpu_forward_backward_pass.cpp")],
 ["outputs of forwardVector/backwardVector"])
prop("C07", "Input ranges clip and scale consistently",
 "With input ranges enabled, the value entering the analog product always has magnitude at most one, and the digital output is multiplied by exactly the range that divided the input, so inputs inside the range pass unchanged in the noise-free case. The learned or initialised range stays positive and finite for every stream of inputs, and gradients of clipped inputs are handled as configured.",
 ["inputs", "histories", "configurations"], "all input batches and sequences of training-mode batches, all input-range settings",
 "Whether the range stays valid depends on the whole history of batches, including all-zero ones; tests look at one or two batches.",
 [S+"simulator/tiles/periphery.py", S+"simulator/parameters/pre_post.py"],
 [("apply_input_range, input range initialisation and update", S+"simulator/tiles/periphery.py")],
 ["pre_forward/post_forward", "input_range parameter"])
prop("C08", "Conductance conversion is range-safe and invertible",
 "For every weight matrix, each converter maps weights to conductances inside its physical range [g_min, g_max], and converting these conductances back with the returned parameters reproduces the weights exactly whenever the mapping is lossless by design (magnitudes within the maximum weight). Signs are preserved and no conversion modifies its input.",
 ["inputs", "configurations"], "all weight values, all valid g_min < g_max, all converter classes",
 "Round trips are tested on random normal matrices; ties, all-zero or constant matrices and g_min > 0 combinations are not.",
 [S+"inference/converter/conductance.py", S+"inference/converter/base.py"],
 [("convert_to_conductances / convert_back_to_weights", S+"inference/converter/conductance.py")],
 ["conductance list", "reconstructed weights"])
prop("C09", "Inference noise models are physical and vanish at zero strength",
 "For every weight, noise draw and inference time, the programming, drift and read noise models yield non-negative conductances from non-negative targets (up to the documented read-noise step), never modify the tensors they are given, and return exactly the target when their noise scales are zero. Drift follows the power law of its coefficient, equals the programmed value at or before the reference time, and never increases a conductance for non-negative drift coefficients.",
 ["inputs", "configurations"], "all targets, times, noise scales, random draws, for each of the noise model classes",
 "Random noise can only be sampled; tails of the draws (clipped coefficients, negative conductances) and the time edges are practically never hit.",
 [S+"inference/noise/base.py", S+"inference/noise/pcm.py", S+"inference/noise/reram.py", S+"inference/noise/hermes.py", S+"inference/noise/custom.py"],
 [("apply_programming_noise_to_conductance / generate_drift_coefficients / apply_drift_noise_to_conductance", S+"inference/noise/")],
 ["apply_noise", "apply_programming_noise", "apply_drift_noise"])
prop("C10", "Drift compensation restores the read-out at programming time",
 "The drift-compensation factor equals the baseline read-out divided by the current read-out and multiplies the tile output, so if all weights shrink by a common factor the compensated forward pass is the same as before drift. A compensation factor is always positive and finite, and a zero read-out never yields an invalid factor.",
 ["inputs", "histories"], "all weights and common drift factors, all orders of programming, drifting and forward calls",
 "The factor depends on the history of programming and drift calls and on degenerate (zero) read-outs; tests use one random history.",
 [S+"inference/compensation/drift.py", S+"inference/compensation/base.py", S+"simulator/tiles/inference.py"],
 [("GlobalDriftCompensation, baseline bookkeeping", S+"inference/compensation"), ("drift_weights/post_forward scaling", S+"simulator/tiles/inference.py")],
 ["alpha", "forward output after drift"])
prop("C11", "Programming and drifting start from the right reference weights",
 "Drifting an inference tile to any time starts from the programmed state (never from an already drifted one), so the result depends only on the last programming event and the given time, and programming again starts from the original target weights unless told otherwise. Neither changes digital scales or the stored target, and simulating with zero noise leaves the logical weights as they were.",
 ["histories", "inputs"], "all sequences of program/drift/read operations on a tile, all weights and noise draws",
 "It is a history property: mistakes appear only when drift or programming is invoked repeatedly, in an order the tests do not use.",
 [S+"simulator/tiles/inference.py", S+"simulator/tiles/inference_torch.py", S+"inference/noise/base.py", S+"simulator/tiles/periphery.py"],
 [("programmed_weights / reference weights / drift state", S+"simulator/tiles/inference.py")],
 ["tile weights after drift_weights/program_weights"])
prop("C12", "Weight clipping bounds every weight and touches nothing else",
 "After clipping, every weight lies inside the clipping bound, and weights already inside the bound are unchanged, for every weight array and every clipping mode. The bound for the statistics-based mode is the configured multiple of the standard deviation.",
 ["inputs", "configurations"], "all weight arrays of any size, all bounds, all clipping modes",
 "Tests look at random arrays; values on the bound, sign errors for a tail or a last element left out need specific arrays.",
 [C+"weight_clipper.cpp", C+"weight_clipper.h"],
 [("WeightClipper::apply", C+"weight_clipper.cpp")],
 ["weights after clipping"])
prop("C13", "Weight modifiers produce valid noisy copies",
 "For every weight array, modifier mode and random draw, the modified weights equal the original ones when the modifier strength is zero, discretised weights lie on the configured grid, and dropped-out weights become exactly zero. The persistent weights and bias rows marked as excluded are never altered by modification.",
 ["inputs", "configurations"], "all arrays, all modifier types, all random draws",
 "The modified weights are random; tests check moments of samples of some modes, not the relation for every draw.",
 [C+"weight_modifier.cpp", C+"weight_modifier.h", S+"simulator/tiles/analog_mvm.py", S+"simulator/tiles/torch_tile.py"],
 [("WeightModifier::apply", C+"weight_modifier.cpp")],
 ["new weights", "source weights"])
prop("C14", "Weight remapping keeps logical weights",
 "For every weight array, remapping rescales stored weights and digital output scales such that their product is unchanged. After remapping without a limiting maximum scale the largest magnitude per scale group equals the configured maximum, and the other mapping limits (maximum scale, row-only shrinking) are respected.",
 ["inputs", "configurations"], "all weight arrays and previous scales, all remap modes",
 "Zero rows, scale limits and already-scaled groups interact; tests exercise only the default mode with random data.",
 [C+"weight_remapper.cpp", C+"weight_remapper.h", S+"simulator/tiles/periphery.py"],
 [("WeightRemapper::apply", C+"weight_remapper.cpp"), ("remap_weights", S+"simulator/tiles/periphery.py")],
 ["weights", "scales"])
prop("C15", "Device weights never leave the bounds of their device",
 "For every resistive device type, every pulse train, random draw, decay, diffusion, reset, drift or direct write, every stored weight lies inside the minimum and maximum bound of its own crosspoint afterwards. Hidden device states obey their own bounds in the same way.",
 ["inputs", "histories", "configurations"], "all device types, all sequences of operations, all per-crosspoint parameters and random outcomes",
 "The bounds vary by crosspoint and updates are stochastic: a missing clip shows only for weights next to a bound with an unlucky draw.",
 [C+"rpu_pulsed_device.cpp", C+"rpu_constantstep_device.cpp", C+"rpu_linearstep_device.cpp", C+"rpu_softbounds_reference_device.cpp", C+"rpu_expstep_device.cpp", C+"rpu_powstep_device.cpp", C+"rpu_powstep_reference_device.cpp", C+"rpu_piecewisestep_device.cpp", C+"rpu_hidden_device.cpp"],
 [("pulse update loops with clipping", C+"rpu_*_device.cpp"), ("decay/diffuse/reset/drift", C+"rpu_pulsed_device.cpp")],
 ["weights after each operation"])
prop("C16", "Pulses move weights by the documented device law",
 "In absence of cycle-to-cycle noise, an up pulse never decreases and a down pulse never increases a weight that is inside its bounds, for every device type with admissible parameters, and the step is the documented function of the present weight and the parameters of that crosspoint. Crosspoints that receive no pulse keep their weight.",
 ["inputs", "configurations"], "all device types, weights, crosspoint parameters and coincidence patterns",
 "The tests compare average responses; wrong neighbour parameters or a sign error in one branch alter averages only slightly.",
 [C+"rpu_constantstep_device.cpp", C+"rpu_linearstep_device.cpp", C+"rpu_softbounds_reference_device.cpp", C+"rpu_expstep_device.cpp", C+"rpu_powstep_device.cpp", C+"rpu_powstep_reference_device.cpp", C+"rpu_piecewisestep_device.cpp"],
 [("doSparseUpdate / doDenseUpdate", C+"rpu_*_device.cpp")],
 ["weights before and after a pulse"])
prop("C17", "Pulse trains encode the rank-one update",
 "For every input and error vector the pulse probabilities of rows and columns and the pulse-train length multiply to learning rate times input times error over the device granularity as long as no probability saturates, and the sign of the pulses is the sign of the desired change. Zero entries never generate pulses, and no train contains more pulses than its length.",
 ["inputs", "configurations"], "all vectors, learning rates, train lengths, management options and random draws",
 "Stochastic coincidences only average to the update; tests check that training reduces a loss.",
 [C+"rpu_pulsed_meta_parameter.cpp", C+"sparse_bit_line_maker.cpp", C+"dense_bit_line_maker.cpp", C+"rpu_weight_updater.cpp"],
 [("calculateBlAB / update management", C+"rpu_pulsed_meta_parameter.cpp"), ("makeCounts", C+"sparse_bit_line_maker.cpp"), ("generateCounts", C+"dense_bit_line_maker.cpp")],
 ["pulse counts", "A, B, BL"])
prop("C18", "Compound cells expose the combination of their member devices",
 "The effective weight of a crosspoint built from several devices always equals the documented combination of the member weights (weighted sum, or scaled difference of the two one-sided devices), after updates, decay, direct writes and restores. Members that are not selected by the update policy keep their weights.",
 ["inputs", "histories", "configurations"], "all member weights, combination factors, policies and operation sequences",
 "Consistency must hold after every operation order; tests look at the effective weight after standard training.",
 [C+"rpu_vector_device.cpp", C+"rpu_onesided_device.cpp", C+"rpu_transfer_device.cpp"],
 [("reduceToWeights, onSetWeights", C+"rpu_vector_device.cpp"), ("one-sided cell", C+"rpu_onesided_device.cpp")],
 ["effective weights", "hidden weights"])
prop("C19", "Mixed-precision updates conserve the accumulated gradient",
 "In mixed-precision training, each update adds exactly the rank-one gradient to the digital accumulator, and each transfer removes from it exactly the whole multiples of the granularity that are written as pulses, so nothing is lost or counted twice. After a transfer of an entry its remainder is smaller than one granularity step.",
 ["inputs", "histories"], "all gradients, accumulator states and schedules of transfers",
 "Accumulator errors are far below the noise of end-to-end tests and depend on the history of transfers.",
 [C+"rpu_mixedprec_device.cpp", C+"rpu_mixedprec_device_base.cpp"],
 [("doDirectUpdate / forwardUpdate / transfer", C+"rpu_mixedprec_device.cpp")],
 ["chi matrix", "pulses written"])
prop("C20", "Optimizer applies every recorded gradient exactly once",
 "An optimizer step updates each analog tile with all input/error pairs recorded since the last step, in order, with the current learning rate, exactly once, and then forgets them, runs the post-update step once, and leaves digital parameters to the base optimizer. A zero learning rate discards the records without touching tile weights, and regrouping never drops or duplicates a parameter.",
 ["histories", "inputs"], "all numbers of tiles, recorded batches, learning rates and parameter groupings",
 "Lost or doubled updates depend on the history of forward/backward calls between steps; tests use one call per step.",
 [S+"optim/analog_optimizer.py", S+"optim/context.py", S+"simulator/tiles/functions.py"],
 [("AnalogOptimizerMixin.step / regroup_param_groups", S+"optim/analog_optimizer.py"), ("AnalogContext records", S+"optim/context.py")],
 ["calls of tile.update", "context records", "param groups"])
prop("C21", "Recurrent cells implement their defining equations",
 "For every input sequence, state and weights, the vanilla, LSTM, combined-weight LSTM and GRU cells compute their standard equations, and a layer applies its cell in time order (reverse order for the backward direction) returning the aligned outputs and the final state of every layer. Stacked and bidirectional networks feed layer outputs forward unchanged.",
 ["inputs", "histories"], "all values of inputs, states and gate pre-activations; sequence lengths up to the stated bound",
 "Tests compare against the digital module for zero initial states and single shapes; swapped gates with symmetric data are invisible.",
 [S+"nn/modules/rnn/cells.py", S+"nn/modules/rnn/layers.py", S+"nn/modules/rnn/rnn.py"],
 [("cell forward", S+"nn/modules/rnn/cells.py"), ("sequence layers", S+"nn/modules/rnn/layers.py")],
 ["cell outputs and states"])
prop("C22", "Converting models between digital and analog keeps weights",
 "Converting a digital model to analog and back yields layers of the original types, geometry and bias setting holding the original weights for every weight value, converts exactly the layers selected (not the excluded ones, nested modules included), and leaves the original model untouched unless conversion in place is requested.",
 ["inputs", "programs", "configurations"], "all weights; module trees up to the stated bound; all exclude lists",
 "Tests convert two or three fixed networks; nested containers with excluded names and layers without bias are sampled only incidentally.",
 [S+"nn/conversion.py", S+"nn/modules/linear.py", S+"nn/modules/conv.py", S+"nn/modules/container.py"],
 [("convert_to_analog / convert_to_digital", S+"nn/conversion.py"), ("from_digital/to_digital", S+"nn/modules/")],
 ["converted module tree", "weights"])
prop("C23", "Digital quantizers stay in range and on grid",
 "For every tensor and valid range, a uniform quantizer returns values on its grid and inside its representable range with an error of at most half a step for values inside the range, is idempotent and monotone, represents zero exactly when it should, and per-channel quantization treats each channel independently. Range estimators always return a range that covers what they promise to cover.",
 ["inputs", "histories", "configurations"], "all tensors, ranges, bit widths, symmetric and asymmetric modes; all batch sequences for estimators",
 "Ties, out-of-range and degenerate (constant) inputs are not sampled; estimators depend on the batch history.",
 [S+"simulator/digital_low_precision/quantizers.py", S+"simulator/digital_low_precision/range_estimators.py", S+"simulator/tiles/utils.py"],
 [("quantizers", S+"simulator/digital_low_precision/quantizers.py"), ("range estimators", S+"simulator/digital_low_precision/range_estimators.py")],
 ["quantized tensor", "estimated ranges"])
prop("C24", "Configured hardware parameters reach the simulator unchanged",
 "Every user-visible field of a device, converter, update or weight-processing configuration that the simulator knows is handed over with exactly the configured value, for every value, nested and compound configurations included, and building the simulator configuration never modifies the user's configuration object.",
 ["configurations"], "all field values of all configuration classes shipped with the toolkit",
 "There are hundreds of fields; tests read back a few of them for a few classes.",
 [S+"simulator/parameters/helpers.py", S+"simulator/configs/helpers.py", S+"simulator/configs/devices.py", S+"simulator/configs/compounds.py"],
 [("parameters_to_bindings", S+"simulator/parameters/helpers.py"), ("as_bindings", S+"simulator/configs/")],
 ["binding objects"])
prop("C25", "Saved analog state restores the same tile",
 "Saving the state of an analog tile and loading it into a compatible tile restores its weights, hidden parameters, scales, bias, learning rate and extra device state exactly, whichever order of keys or load option is used, and an incompatible state is rejected. The compiled tile's own save/restore dictionary round-trips every counter and buffer it contains.",
 ["inputs", "histories", "configurations"], "all stored values; all tile and device classes of the stated list",
 "Tests compare forward outputs after a reload; a counter or buffer that is not restored changes only later training.",
 [S+"simulator/tiles/base.py", S+"simulator/tiles/module.py", C+"rpu_pulsed_device.cpp", C+"rpu_transfer_device.cpp", C+"rpu_mixedprec_device.cpp"],
 [("__getstate__/__setstate__", S+"simulator/tiles/base.py"), ("dumpExtra/loadExtra", C)],
 ["state dictionary", "restored tile"])
prop("C26", "Floating-point tile performs exact gradient descent",
 "The floating-point reference tile computes exact products, and an update changes each weight by exactly minus the learning rate times the batch sum of error times input (a weight decay and diffusion only as configured), for every weight, input and learning rate. Transposed and batched layouts give the same result as the sample-by-sample one.",
 ["inputs", "configurations"], "all weights, inputs, errors, learning rates, decay factors",
 "Tests sample few shapes; accumulation with bias column, layouts and shared gradient buffers are combinations they do not cross.",
 [C+"rpu.cpp", C+"rpu_simple_device.cpp", C+"math_util.cpp"],
 [("forwardVector/backwardVector/updateVector/decayWeights", C+"rpu.cpp")],
 ["weights after update", "forward/backward results"])
prop("C27", "Transfer schedules move each column in turn and only when due",
 "In transfer-type compound devices, a transfer happens exactly when the configured number of updates has elapsed, reads the next column (or row) in cyclic order, writes only that column of the next device, and adds the read value times the transfer learning rate. Updates between transfers change the fast device only.",
 ["histories", "configurations"], "all counters, periods, column counts and read-out values",
 "Schedules are counter arithmetic over long histories; tests only run short trainings.",
 [C+"rpu_transfer_device.cpp", C+"rpu_buffered_transfer_device.cpp", C+"rpu_chopped_transfer_device.cpp", S+"simulator/tiles/transfer.py"],
 [("finishUpdateCycle/transfer/getTransferEvery", C+"rpu_transfer_device.cpp"), ("python transfer tile", S+"simulator/tiles/transfer.py")],
 ["which columns change", "hidden weights"])
prop("C28", "The compiled tile interface handles every layout of its arguments",
 "The functions of the compiled tiles give the same result for every layout of their tensor arguments: contiguous or strided, any number of batch dimensions, features first or last independently for input and output, with or without the bias column, arguments by position or by keyword. Nothing is written outside the result, inputs stay as they are, every element of a result is defined (also a gradient at learning rate zero). Weights, hidden parameters and state that are set are the ones got (as copies, shared weights excepted), and arguments of a wrong shape, scalar type or device are refused without changing the tile.",
 ["inputs", "configurations"], "all weights, inputs and learning rates; all layout flag combinations up to four dimensions",
 "Tests call the compiled functions through the python tile with one layout and pattern; mixed layouts, writes beyond a buffer and uninitialized results do not show up in comparisons of a few random vectors.",
 [S+"simulator/rpu_base_src/rpu_base_tiles.cpp", C+"rpu.cpp", C+"rpu_pulsed.cpp"],
 [("bound functions forward/backward/update/*_indexed/set_weights/hidden parameters", S+"simulator/rpu_base_src/rpu_base_tiles.cpp")],
 ["returned tensors", "argument tensors", "memory around them", "weights after the call"])
prop("C29", "Analog parameters show the weights without giving write access",
 "The parameter of an analog tile exposes, in data view mode, exactly the weights of the layer (stored weights without the analog bias column, times the scales), after any write, update or change of scales; in buffer mode an independent zero-initialized tensor of the same shape, written without touching the tile; in the default placeholder mode shape, type and device only, and every operation that depends on values raises RuntimeError. In no mode can a tensor operation on the parameter, its data or anything they return change the weights of the tile: in-place operations on it, output arguments and assignments are refused. The mode changes neither training, nor saving, loading and copying.",
 ["inputs", "histories", "configurations"], "all weights, scales and updates; all methods of torch tensors",
 "Tests try a handful of operations; an operation that hands out an alias of the weights, or shows memory that is not the weights, is any of several hundred others.",
 [S+"optim/context.py", S+"optim/weight_view.py", S+"simulator/tiles/base.py", S+"simulator/tiles/rpucuda.py"],
 [("AnalogContext data view modes", S+"optim/context.py"), ("ReadOnlyWeightView, PlaceholderDataView", S+"optim/weight_view.py"), ("_sync_analog_ctx_weights", S+"simulator/tiles/base.py")],
 ["values read", "errors raised", "weights of the tile"])
prop("C30", "Model-wide operations reach every tile; replacing a configuration keeps the weights",
 "Every analog layer and tile of a model (nested, wrapped, split, shared, recurrent) is found exactly once under its name in the model, and operations on the model (applying functions, remapping, replacing the configuration, load options, weight dictionaries) reach every one of them. Replacing the configuration of a tile keeps stored weights, hidden parameters, scales, bias, learning rate and the parameter objects; the tile uses a copy of the given configuration from then on, and a configuration that does not fit is refused and changes nothing. After loading a state or replacing the configuration, an optimizer built before trains the tile as before, and a frozen parameter stays frozen. Loading never modifies the dictionary given, and the present configuration is kept if requested.",
 ["inputs", "histories", "configurations"], "all weights and scales; nested models; sequences of load, replace and step",
 "Tests use one or two flat models and compare shapes; a tile that is skipped, trained no more after a load, or left half replaced goes unnoticed.",
 [S+"nn/modules/base.py", S+"nn/modules/container.py", S+"simulator/tiles/module.py", S+"simulator/tiles/base.py"],
 [("AnalogLayerBase", S+"nn/modules/base.py"), ("AnalogContainerBase", S+"nn/modules/container.py"), ("TileModule.replace_with/to/load hooks", S+"simulator/tiles/module.py"), ("SimulatorTileWrapper.__setstate__", S+"simulator/tiles/base.py")],
 ["tiles and names found", "weights, scales and configuration after a replacement", "updates of the simulator tile", "errors raised"])
prop("C31", "Every crosspoint gets device parameters from the configured distribution",
 "When a tile is created, the parameters of every crosspoint (lower and upper bound, step up and down, diffusion rate, decay, reset value, slope or exponent, reference, drift exponent) are drawn from the configured distribution: the mean and the device-to-device variation of its own field, with a random draw of its own per crosspoint and parameter, independent of other crosspoints; log-normal steps, up-down bias, enforced consistency, corrupt devices (with their probability, within their range, without steps), perfect bias column and subtracted symmetry point as documented. Without variation every crosspoint is exactly as configured. Every device of a unit cell is drawn independently.",
 ["inputs", "configurations", "random draws"], "all parameters, variations and random draws; every crosspoint of tiles up to 3x3",
 "Tests construct devices and look at shapes or a mean; a draw shared between crosspoints, a variation applied to the wrong parameter or a sign lost in the correction of inconsistent devices needs the law per draw.",
 [C+"rpu_pulsed_device.cpp", C+"rpu_linearstep_device.cpp", C+"rpu_powstep_device.cpp", C+"rpu_softbounds_reference_device.cpp", C+"weight_drifter.cpp", S+"simulator/configs/devices.py"],
 [("PulsedRPUDevice::populate", C+"rpu_pulsed_device.cpp"), ("populate of the derived devices", C+"rpu_linearstep_device.cpp"), ("WeightDrifter::populate", C+"weight_drifter.cpp"), ("SoftBoundsPmaxDevice.as_bindings", S+"simulator/configs/devices.py")],
 ["hidden parameters of the created tile", "weights after drift"])
prop("C32", "Decay, diffusion, drift, reset and clipping of the weights follow their documented laws",
 "Operations on the weights outside of the update follow their documented laws for every device, tile and argument: decay shrinks each weight towards its reset bias by the crosspoint's own rate (with the given factor, within the bounds), diffusion adds the crosspoint's own rate times an independent Gaussian draw, drift scales the conductance by the power law of the elapsed time with the crosspoint's exponent (offsets, ratios, reset of drift after writing), reset sets exactly the given columns to reset bias plus noise with the given probability, and clipping limits the weights. Members of unit cells each follow their own law, nothing else changes. In training decay and diffusion happen exactly once per mini-batch, after the update, if and only if the device has them.",
 ["inputs", "configurations", "random draws", "histories"], "all weights, parameters, arguments and random draws; every device and compound of the library; sequences of several calls; tiles up to 3x3",
 "Tests compare single calls of one device against a mean; an offset with the wrong sign, a rate of another crosspoint, a forgotten bound, a member left out or an operation applied twice per batch needs the law per crosspoint and history.",
 [C+"rpu_pulsed_device.cpp", C+"rpu_simple_device.cpp", C+"rpu_vector_device.cpp", C+"rpu_transfer_device.cpp", C+"weight_drifter.cpp", C+"weight_clipper.cpp", S+"simulator/tiles/base.py", S+"simulator/tiles/rpucuda.py"],
 [("decayWeights, diffuseWeights, driftWeights, clipWeights, resetCols of the devices", C+"rpu_pulsed_device.cpp"), ("of the unit cells", C+"rpu_vector_device.cpp"), ("WeightDrifter::apply", C+"weight_drifter.cpp"), ("RPUCudaSimulatorTileWrapper / BaseTile.post_update_step", S+"simulator/tiles/rpucuda.py")],
 ["get_weights", "hidden parameters", "calls of the tile"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
