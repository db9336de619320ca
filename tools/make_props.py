"""Writes properties.jsonl (kept as code so that the lines stay valid JSON)."""
import json
import os

P = []


def add(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": state or [],
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe,
                "hook_needed": None,
            },
        }
    )


add(
    "C01",
    "Unrolling a stateful function equals applying it step by step",
    "Unrolling any stateful streaming function over a sequence yields exactly the outputs and the final state obtained by initialising it on the first element and then applying it to each element in order, feeding every state to the next step. This is the same for the compiled and the interpreted loop, for nested inputs and outputs, for positional and keyword inputs, with caller-supplied parameters or starting state, and with a random key, which is renewed at every step. When the first element is to be skipped, it is used for initialisation only and everything after it is processed.",
    ["inputs", "programs", "configurations"],
    "all streaming functions (composed of library modules and custom stateful code), all sequence lengths and input structures, all unroll options (compiled/interpreted, skip first, given params/state/key)",
    "Tests unroll a couple of fixed functions on one array shape and compare one loop with the other; the two loops share code, and key splitting, skip-first, nested structures and supplied states are sampled at most once.",
    ["src/wax/unroll.py", "src/wax/transform.py", "src/wax/stateful.py"],
    [
        ("unroll_transform_with_state / unroll", "src/wax/unroll.py"),
        ("static_scan / iter_first_axis", "src/wax/unroll.py"),
        ("transform_batch_with_state(_static)", "src/wax/transform.py"),
        ("gym_static_unroll, data_unroll, dynamic_unroll_fori_loop", "src/wax/unroll.py"),
    ],
    ["outputs and final state returned by unroll, unroll_transform_with_state, static_scan, dynamic_unroll, static_unroll, dynamic_unroll_fori_loop, gym_static_unroll, data_unroll, transform_batch_with_state"],
)

add(
    "C02",
    "Streaming state is sufficient: processing in chunks equals one pass",
    "For every streaming module or pipeline, cutting a history into consecutive chunks at arbitrary points and carrying only the returned state from one chunk to the next gives the same outputs and the same final state as processing the whole history at once. Nothing the future outputs depend on lives outside that state.",
    ["histories", "programs"],
    "all library modules in both backends with all their options, all histories including missing values, all cut points",
    "Tests run each module over one uninterrupted sequence; warm restart at arbitrary cut points is exercised only for one moving average.",
    ["src/wax/modules", "src/wax/flax/modules", "src/wax/unroll.py", "src/wax/flax/core/unroll.py"],
    [("hk.get_state/hk.set_state in each module", "src/wax/modules"), ("'state' variable collections", "src/wax/flax/modules")],
    ["unroll(..., state=...), flax_unroll, apply"],
)

add(
    "C03",
    "Causality: an output never depends on later observations",
    "The output a streaming computation emits at a step is a function of the observations up to and including that step only. Altering, removing or appending later observations leaves all earlier outputs unchanged, for every module in both backends, for both multi-frequency streams and tabular data.",
    ["inputs", "histories"],
    "all modules/pipelines and options, all histories, all positions from which the future is rewritten",
    "Look-ahead is invisible in tests that compare with a batch reference computed on the same full data, and no test perturbs the future.",
    ["src/wax/modules", "src/wax/flax/modules", "src/wax/stream.py", "src/wax/unroll.py"],
    [("step-wise scan over the first axis", "src/wax/unroll.py"), ("strictly earlier secondary timestamps", "src/wax/stream.py")],
    ["outputs of unroll, flax_unroll, stream().apply"],
)

add(
    "C04",
    "Batch lanes are independent under mapping and lifting",
    "Mapping a stateful function over a batch axis behaves, lane by lane, exactly like separate unmapped copies of the function each with its own parameters and state, over any sequence of calls. Lifting an unroll inside another transformed function behaves like the plain unroll followed by carrying its final state to the next call, and averaging over the batch returns the mean of the lanes.",
    ["inputs", "histories", "programs"],
    "all stateful functions, batch sizes, call sequences and key-splitting options",
    "Tests call one toy counter twice with three lanes; lane mixing, state write-back and key distribution for other modules, sizes and call histories are not reached.",
    ["src/wax/stateful.py", "src/wax/modules/vmap.py", "src/wax/flax/modules/vmap.py"],
    [("vmap_lift_with_state", "src/wax/stateful.py"), ("unroll_lift_with_state", "src/wax/stateful.py"), ("VMap / add_batch", "src/wax/modules/vmap.py, src/wax/flax/modules/vmap.py")],
    ["outputs and state of the lifted functions"],
)

add(
    "C05",
    "Stream synchronisation delivers exactly the past of each secondary stream",
    "At every local timestamp a synchronised stream exposes the current row of the local variables and, for each secondary time axis, the most recent rows whose timestamps are strictly before the local one (rounded down to the declared period if there is one), in chronological order and each at most once. Where a secondary axis has no such row its missing marker is shown, and when forward filling is switched off a row is shown only once and the missing marker otherwise. Buffered variables expose the last rows up to the declared buffer length, oldest first.",
    ["inputs", "configurations", "histories"],
    "all datasets with one local and several secondary time axes (any interleaving, gaps, ties, axes that start late or end early), all frequency, forward-fill and buffer options",
    "Tests use two or three hand-made calendars; the number of interleavings of several irregular axes with ties and different lengths is unbounded.",
    ["src/wax/stream.py", "src/wax/encode.py"],
    [("Stream.trace_dataset / merge / start_dataset_stream", "src/wax/stream.py"), ("access_data and index tracing", "src/wax/stream.py")],
    ["Stream.start, Stream.trace_dataset, Stream.apply, dataset accessors"],
)

add(
    "C06",
    "Labelled containers: applying equals raw arrays plus the right labels",
    "Applying a streaming function to a data frame, series, data array or dataset gives the values obtained by unrolling the function on the raw arrays, one output row per time stamp, and the input time index, the coordinates of the other dimensions, the dimension order and the column names on the output. The same data held in different container types gives the same values, and the container passed in is left as it was.",
    ["inputs", "configurations"],
    "all container types, shapes, dtypes, index types (dates, integers, strings), column labels, format options and given params/state",
    "Accessor tests use one temperature dataset; label/value alignment for other shapes, dim orders, dtypes and nested outputs is not covered.",
    ["src/wax/accessors.py", "src/wax/format.py", "src/wax/stream.py"],
    [("WaxAccessor and Stream* classes", "src/wax/accessors.py"), ("format_dataframe/format_dataset/auto_format_with_shape", "src/wax/format.py")],
    ["wax accessor .stream().apply, tree/auto format functions"],
)

add(
    "C07",
    "Encoding of times, integers and strings is lossless and order preserving",
    "Encoding 64-bit integers, timestamps, date-times and strings to device-friendly values and decoding them returns the original values, for every value in range and every array shape. The encoded order test agrees with the original order, and rounding an encoded date down to a day agrees with calendar rounding, before and after the epoch.",
    ["inputs"],
    "all int64 values and nanosecond timestamps in range (negative, boundary and carry patterns), all array shapes, all string sets",
    "Tests encode a few dates in the 2000s; carries, sign boundaries and dates before 1970 are not sampled.",
    ["src/wax/encode.py"],
    [("hi/lo uint32 split", "src/wax/encode.py"), ("LabelEncoder-based string encoder", "src/wax/encode.py")],
    ["encode_*/decode_* functions, Encoder, encode_dataset/decode_dataset, floor_datetime, less"],
)

add(
    "C08",
    "Exponential moving average follows its recurrence (pandas compatible)",
    "The exponential moving average equals the weighted mean defined by its decay (given as centre of mass or as smoothing factor) and by the options for bias adjustment, treatment of missing values, initial value and minimum number of observations; with the options pandas has, it equals the pandas exponentially weighted mean on every input. The linear adjustment mode equals the plain mean until the window of the decay is filled and the non-adjusted filter afterwards. All implementations of it (both backends and the compiled tabular one) agree.",
    ["inputs", "configurations"],
    "all histories with any pattern of missing values, all option combinations, several columns",
    "Tests compare a few option combinations on one random series with fixed gaps; weights interact over arbitrary gap patterns.",
    ["src/wax/modules/ewma.py", "src/wax/flax/modules/ewma.py", "src/wax/numba/ewma_numba.py"],
    [("weight recurrence old_wt/new_wt", "src/wax/modules/ewma.py")],
    ["EWMA outputs, info dict"],
)

add(
    "C09",
    "Exponential (co)variance matches its weighted definition",
    "The exponentially weighted variance equals the exponentially weighted mean of squares minus the square of the exponentially weighted mean under the same weights, is never negative, and is unchanged by adding a constant to the data and scales with the square of a factor. The covariance equals the weighted mean of outer products, minus the outer product of the weighted means unless centring is assumed away; for a series with itself it is symmetric and its diagonal is the variance.",
    ["inputs", "configurations"],
    "all histories including missing values, all adjustment, minimum-period and centring options",
    "Tests check one random sample per option against one pandas call; sign, shift and gap behaviour is not explored.",
    ["src/wax/modules/ewmvar.py", "src/wax/modules/ewmcov.py", "src/wax/flax/modules/ewmvar.py", "src/wax/flax/modules/ewmcov.py"],
    [("Finch incremental update", "src/wax/modules/ewmvar.py"), ("E[xy]-E[x]E[y]", "src/wax/modules/ewmcov.py")],
    ["EWMVar, EWMCov outputs"],
)

add(
    "C10",
    "Exponential-window accessors are drop-in and warm-startable",
    "The exponential-window accessors on pandas and xarray objects give the values of the pandas method of the same name for the options both have, with the index and columns of the input. In the compiled tabular implementation, splitting a table at any row and passing the returned state on gives the same result as one pass, columns may come in another order in the second part, columns unknown to the state start afresh, and a state handed in is not modified.",
    ["inputs", "histories", "configurations"],
    "all tables with missing values, all option combinations, all cut points and column orders",
    "Tests use one table and one cut; aliasing of the state and column realignment are not covered.",
    ["src/wax/accessors.py", "src/wax/numba/ewma_numba.py"],
    [("ExponentialMovingWindow accessors", "src/wax/accessors.py"), ("ewma with state", "src/wax/numba/ewma_numba.py")],
    ["df.wax.ewm().mean(), da.wax.ewm().mean(), df.wax_numba.ewm().mean()"],
)

add(
    "C11",
    "Window operators equal their definition on the last observations",
    "A buffer always holds exactly the last observations in chronological order, padded in front with its fill value until it is full, and reports how many it holds. Lag, difference, rolling mean and relative change equal their textbook (pandas) definition on every history: the value a given number of steps ago, the change from the previous value, the mean of the non-missing values of the window once enough of them are present, and the change relative to the previous (forward-filled) value.",
    ["inputs", "configurations", "histories"],
    "all window lengths, fill values, minimum counts, array shapes and histories with missing values, in both backends",
    "Tests use one window length and a short series; wrap-around, partial fill and missing values in the window combine without bound.",
    ["src/wax/modules/buffer.py", "src/wax/modules/lag.py", "src/wax/modules/diff.py", "src/wax/modules/rolling_mean.py", "src/wax/modules/pct_change.py", "src/wax/flax/modules/buffer.py", "src/wax/flax/modules/lag.py", "src/wax/flax/modules/diff.py", "src/wax/flax/modules/rolling_mean.py", "src/wax/flax/modules/pct_change.py"],
    [("roll buffer", "src/wax/modules/buffer.py"), ("write-pointer buffer", "src/wax/flax/modules/buffer.py")],
    ["outputs of Buffer, Lag, Diff, RollingMean, PctChange"],
)

add(
    "C12",
    "Fill, change-detection and counting modules track the history exactly",
    "Forward fill returns the last non-missing value seen in each position and missing before the first one; filling replaces exactly the missing and infinite entries by the fill value and leaves all others unchanged, in nested data too. Change detection reports a change exactly when any component differs from the previous observation, and the counter returns the number of calls so far.",
    ["inputs", "histories"],
    "all histories (missing values, repeats, infinities, integer/bool/float data), shapes and nested structures, in both backends",
    "Tests use one short fixed sequence per module.",
    ["src/wax/modules/ffill.py", "src/wax/modules/fill_nan_inf.py", "src/wax/modules/has_changed.py", "src/wax/modules/counter.py", "src/wax/flax/modules/ffill.py", "src/wax/flax/modules/fill_nan_inf.py", "src/wax/flax/modules/has_changed.py", "src/wax/flax/modules/counter.py"],
    [("per-position state", "src/wax/modules")],
    ["module outputs"],
)

add(
    "C13",
    "Masked statistics use exactly the selected entries",
    "Applying a mask keeps the selected entries and replaces all others by the mask value, along the requested axis. Masked mean and standard deviation equal the statistics of the selected entries along the requested axis (all of them, rows or columns), with missing selected entries counted as zero, and do not depend on the unselected entries; masked normalisation divides every entry by that standard deviation and returns zero where the result is not finite.",
    ["inputs", "configurations"],
    "all masks (including empty rows/columns), data with missing values, axes, centring options and nested inputs, in both backends",
    "Tests use a 2x3 array along one axis with no missing values.",
    ["src/wax/modules/apply_mask.py", "src/wax/modules/mask_mean.py", "src/wax/modules/mask_std.py", "src/wax/modules/mask_normalize.py", "src/wax/flax/modules/apply_mask.py", "src/wax/flax/modules/mask_mean.py", "src/wax/flax/modules/mask_std.py", "src/wax/flax/modules/mask_normalize.py"],
    [("jnp.where on the mask, sums along axis", "src/wax/modules")],
    ["module outputs"],
)

add(
    "C14",
    "Open-high-low-close bars summarise exactly the current bin",
    "At every step the open, high, low and close values are the first, largest, smallest and last non-missing observations since the last reset (the resetting observation included), per component, and missing as long as there is none. They do not depend on observations before the reset.",
    ["inputs", "histories"],
    "all price histories with missing values and all reset patterns (consecutive resets, reset on a missing value, none), scalar and vector data, in both backends",
    "Tests use four or five fixed prices; missing values around resets are not covered.",
    ["src/wax/modules/ohlc.py", "src/wax/flax/modules/ohlc.py"],
    [("bin state", "src/wax/modules/ohlc.py")],
    ["OHLC outputs"],
)

add(
    "C15",
    "ARMA filter and adaptive forecaster follow their recurrences",
    "The ARMA filter's output is the current noise plus the weighted past outputs plus the weighted past noise terms (weights listed from the oldest to the latest term), starting from zero history, with zero where the result is not finite; it is linear in the noise. The adaptive forecaster presents to its regressor exactly the exogenous variables, the forecast errors of its last calls and the latest targets passed to it, oldest first, with zeros before the history starts and for missing values; its forecast depends on nothing else. The second backend's variant presents its latest inputs, the latest differences of target and input, and the current input.",
    ["inputs", "histories", "configurations"],
    "all coefficient vectors, orders, noise/target histories with missing values, exogenous inputs",
    "Tests check finiteness or one simulated path; lag alignment for other orders is not pinned down.",
    ["src/wax/modules/arma.py", "src/wax/modules/snarimax.py", "src/wax/flax/modules/arma.py", "src/wax/flax/modules/snarimax.py"],
    [("eps/y buffers", "src/wax/modules/arma.py"), ("y/err buffers", "src/wax/modules/snarimax.py")],
    ["outputs of ARMA, SNARIMAX"],
)

add(
    "C16",
    "Event-gated modules are frozen between events",
    "A module updated on events behaves, at the steps where the event is raised, exactly like the bare module fed only with the inputs of those steps, whatever its sub-modules are named and wherever they were built; at all other steps the last event output is repeated and the initial value is shown before the first event. The event-gated computation of the second backend likewise repeats its last event output between events.",
    ["inputs", "histories", "programs"],
    "all event patterns (none, all, bursts), all wrapped modules with nested and multiple states, all input histories",
    "Tests gate one or two modules with one fixed pattern; state roll-back of nested submodules over arbitrary patterns is not reached.",
    ["src/wax/modules/update_on_event.py", "src/wax/flax/core/streaming_transforms.py"],
    [("UpdateOnEvent state save/restore", "src/wax/modules/update_on_event.py"), ("ConditionalComputation", "src/wax/flax/core/streaming_transforms.py")],
    ["outputs and states"],
)

add(
    "C17",
    "Online learners perform exactly one optimiser step per observation",
    "At each step an online learner reports the prediction, loss and gradients evaluated at the parameters from before the step, and its next parameters are the optimiser's update of them from these gradients, with the projection applied and with the parameters declared non-trainable left untouched. Over any data sequence the trajectory of losses and parameters equals the plain gradient loop with the same optimiser, missing gradients counted as zero where that option is on. The streaming optimiser of the second backend learns the scale of its model's output in the same way.",
    ["inputs", "histories", "configurations"],
    "all data sequences, optimisers, learning rates, projections, trainable-parameter selections, output options",
    "Tests look at a decreasing loss or at one step; off-by-one in parameters/optimizer state and leakage into frozen parameters only show on trajectories.",
    ["src/wax/modules/online_optimizer.py", "src/wax/modules/func_optimizer.py", "src/wax/modules/online_supervised_learner.py", "src/wax/modules/optax_optimizer.py", "src/wax/predicate.py", "src/wax/flax/modules/online_optimizer.py", "src/wax/flax/modules/func_optimizer.py", "src/wax/flax/modules/online_supervised_learner.py", "src/wax/flax/modules/optax_optimizer.py"],
    [("value_and_grad + optimiser state", "src/wax/modules/online_optimizer.py")],
    ["learner outputs, states"],
)

add(
    "C18",
    "Online Newton step uses the inverse of the accumulated curvature",
    "After any sequence of gradients, the online Newton optimiser's update for a gradient is minus the learning rate times the inverse of (regularisation times identity plus the sum of outer products of all gradients so far, the current one included) applied to that gradient, separately for each parameter block.",
    ["inputs", "histories"],
    "all gradient sequences, dimensions, regularisations and learning rates",
    "The test checks convergence on one example, which a wrong inverse also passes.",
    ["src/wax/optim/newton.py"],
    [("Sherman-Morrison recursion", "src/wax/optim/newton.py")],
    ["scale_by_newton / newton update output"],
)

add(
    "C19",
    "Feedback loops: functional and object loops produce the same episode",
    "Running an agent against an environment in the functional feedback loop gives exactly the observations, actions and rewards of the explicit alternation (the environment receives the agent's last action, the agent the resulting observation), starting from the initial action. The object-style loop with agents and environments built from the same functions records the same episode when it starts from the same action and agent state, stops after the last data row, and a reset of agent and environment forgets everything of the previous episode.",
    ["inputs", "histories", "programs"],
    "all stateful agents and environments, data lengths, output options and repeated episodes",
    "Tests run one trivial agent/environment pair; delay of action by one step, state carry-over and end of data are not varied.",
    ["src/wax/modules/gym_feedback.py", "src/wax/gym", "src/wax/flax/modules/gym_feedback.py"],
    [("GymFeedback", "src/wax/modules/gym_feedback.py"), ("gym_unroll, HaikuAgent, HaikuEnv", "src/wax/gym")],
    ["returned trajectories, Record callback"],
)

add(
    "C20",
    "Callbacks see every event of a run exactly once and in order",
    "During a run every registered callback receives one start event, then for every step one act event followed by one step event, then one end event; callbacks passed to the run are called in the order given; a callback that stops the run ends it after the current step. Callbacks registered for a scope are active inside it only, local ones replace the outer ones and the outer ones come back afterwards, also when the scope ends with an exception. Recorded histories contain one stacked entry per data step in order.",
    ["schedules", "histories", "fault_sequences"],
    "all sequences of registering, unregistering, nesting and stopping callbacks, with exceptions at any point, all run lengths",
    "Tests use a single callback in a single scope.",
    ["src/wax/gym/callbacks", "src/wax/gym/gym_unroll.py"],
    [("Callback.active registry", "src/wax/gym/callbacks/callbacks.py"), ("local_callbacks/add_callbacks", "src/wax/gym/callbacks/callbacks.py")],
    ["event log of a recording callback, Record.record"],
)

add(
    "C21",
    "Second backend: pure step functions, identical in a loop and in a scan",
    "Streaming functions of the second backend are pure: the same parameters, state and input always give the same output and next state and no argument is modified. Applying one step by step, scanning it in compiled form, and unrolling it with the library's unroll (compiled or interpreted, with or without a given starting state) give the same outputs and final state, for nested outputs and compositions of modules. Given a random key, every step of a scan or unroll draws its own random numbers, determined by the key.",
    ["inputs", "programs", "histories"],
    "all streaming functions composed of library modules, all histories, all unroll options",
    "Tests compare loop and scan for a few fixed pipelines on one series.",
    ["src/wax/flax/core/transform.py", "src/wax/flax/core/unroll.py", "src/wax/flax/core/state_utils.py", "src/wax/flax/core/streaming_transforms.py", "src/wax/flax/examples/transform_compositions.py"],
    [("flax_transform_with_state", "src/wax/flax/core/transform.py"), ("flax_unroll(_transform)", "src/wax/flax/core/unroll.py"), ("StreamingTransform", "src/wax/flax/core/streaming_transforms.py")],
    ["outputs and states of init/apply, scan, unroll"],
)

add(
    "C22",
    "Resets, state machines and hierarchical states follow their transition rules",
    "A scan that resets on a condition carries its state from step to step and starts the step after a triggering one from the initial state; given a random key, every step draws its own random numbers. State-machine and conditional-update patterns change state exactly when their condition holds and otherwise keep it, dependent states are executed after the states they depend on for every acyclic dependency graph, pipelines feed each stage with the previous output, and a bounded history keeps exactly the latest entries.",
    ["histories", "programs", "configurations"],
    "all input histories and reset conditions, all acyclic dependency graphs and registration orders, all composition modes",
    "Tests use one chain of two or three states and one reset pattern.",
    ["src/wax/flax/core/streaming_transforms.py", "src/wax/flax/core/advanced_state_patterns.py"],
    [("StreamingScan reset_on", "src/wax/flax/core/streaming_transforms.py"), ("HierarchicalStateMachine.get_execution_order", "src/wax/flax/core/advanced_state_patterns.py"), ("CompositeStateManager, AttentionBasedStateSelector", "src/wax/flax/core/advanced_state_patterns.py")],
    ["outputs and states"],
)

add(
    "C23",
    "Both backends compute the same streams",
    "Every module that exists in both backends produces the same output stream for the same options and the same input history, including missing values and partially filled windows, when both start from their empty state.",
    ["inputs", "configurations"],
    "all modules present in both backends, their common options, all histories including missing values",
    "Parity tests compare one short clean series per module.",
    ["src/wax/modules", "src/wax/flax/modules"],
    [("ported update rules", "src/wax/flax/modules")],
    ["outputs of both backends on the same input"],
)

add(
    "C24",
    "Compressed memories stay within their bounds and keep what they promise",
    "A compressed or hierarchical memory never holds more entries than its bound whatever the length of the history. Uncompressed levels hold exactly the latest observations in order, the exponential summary equals the exponential average of the history it was fed, down-sampling keeps every k-th observation, and quantile estimates lie between the smallest and largest retained observation and do not decrease with the quantile; lower-resolution levels are updated at their fixed period only.",
    ["inputs", "histories", "configurations"],
    "all histories much longer than the bound, all strategies and their parameters",
    "Tests feed a few dozen values and check shapes and finiteness.",
    ["src/wax/flax/modules/compressed_buffer.py"],
    [("CompressedBuffer strategies", "src/wax/flax/modules/compressed_buffer.py"), ("HierarchicalBuffer counters", "src/wax/flax/modules/compressed_buffer.py")],
    ["outputs and state of the memories"],
)

add(
    "C25",
    "Instrumentation is transparent and its accounting is exact",
    "Wrapping a streaming function with the debugger, the profiler or the memory tracker changes neither its outputs nor its states. The debugger counts every step, fires a hook exactly on the steps where its condition holds, and keeps the latest entries up to the configured limit, with the values they had at that step; the profiler and tracker summaries equal the counts, sums, extremes and means of what was recorded (one record per call of a wrapped function), steps above the bottleneck threshold and memory growth above the leak threshold are reported, nothing is recorded while disabled, and a reset forgets everything.",
    ["histories", "configurations"],
    "all sequences of steps, enabling, disabling, hook changes and resets, all limits smaller or larger than the run",
    "Tests call each feature once or twice; bounded histories and operation sequences are not explored.",
    ["src/wax/flax/debug/debugger.py", "src/wax/flax/debug/profiler.py", "src/wax/flax/debug/memory_tracker.py"],
    [("StreamingDebugger.step, DebugHook", "src/wax/flax/debug/debugger.py"), ("StreamingProfiler.record_metrics", "src/wax/flax/debug/profiler.py"), ("MemoryTracker.take_snapshot", "src/wax/flax/debug/memory_tracker.py")],
    ["summaries, event lists, wrapped outputs"],
)

add(
    "C26",
    "Visualisation models describe exactly the recorded computation",
    "The graph and data-flow models contain exactly the modules, nodes, edges, events and metrics of what was analysed or recorded, filtered and bounded as configured. Exports (DOT, HTML, text, JSON, plots) are well formed and describe the same content as the model, whatever the names are. The nested hierarchy places every node once, below its parent; dashboards alert exactly when a threshold is exceeded; parameter controls report the current values to every callback.",
    ["histories", "inputs", "configurations"],
    "all sequences of building operations, graph shapes, limits and export formats",
    "Tests build one or two small graphs and check that output is not empty.",
    ["src/wax/flax/visualization/computation_graph.py", "src/wax/flax/visualization/data_flow_visualizer.py", "src/wax/flax/visualization/nested_graph_viz.py", "src/wax/flax/visualization/interactive_dashboard.py", "src/wax/flax/visualization/jupyter_viz.py"],
    [("ComputationGraphRenderer", "src/wax/flax/visualization/computation_graph.py"), ("DataFlowTracker/DataFlowVisualizer", "src/wax/flax/visualization/data_flow_visualizer.py"), ("HierarchicalGraphAnalyzer", "src/wax/flax/visualization/nested_graph_viz.py")],
    ["exported structures"],
)

add(
    "C27",
    "Externally supplied parameters are used, and only those",
    "A module evaluated with externally supplied parameters gives exactly the result of the plain module at these parameters, and keeps its own state from step to step. Parameters that are not supplied keep the module's own values, and splitting parameters by a predicate and merging them again returns all of them unchanged.",
    ["inputs", "programs"],
    "all parameter trees and partitions, all input histories, in both backends",
    "Tests replace all parameters of one flat module once.",
    ["src/wax/modules/update_params.py", "src/wax/flax/modules/update_params.py", "src/wax/predicate.py"],
    [("UpdateParams/get_init_params", "src/wax/modules/update_params.py"), ("merge_params/partition", "src/wax/flax/modules/update_params.py")],
    ["outputs, merged parameter trees"],
)

add(
    "C28",
    "Missing observations never poison gradients or other columns",
    "For the differentiable filters, the gradient of a loss over valid outputs with respect to the filter's parameters and the observed values is finite for every pattern of missing observations and equals the numerical derivative. A missing or infinite value in one column never changes the outputs of another column.",
    ["inputs", "configurations"],
    "all missing patterns (leading, interior, whole columns), all adjustment and missing-value options, all columns",
    "Tests take the gradient on one series with one gap.",
    ["src/wax/modules/ewma.py", "src/wax/modules/mask_std.py", "src/wax/flax/modules/ewma.py"],
    [("NaN filled with zero before arithmetic", "src/wax/modules/ewma.py")],
    ["jax.grad of unrolled filters; outputs per column"],
)

add(
    "C29",
    "Convenience options, factories and reuse change no result",
    "Progress bars and verbose printing never change the outputs or states of an unroll or of a synchronised stream. A module built by a factory function behaves exactly like the module built directly with the same options. A configured stream can be applied again, to other functions and to other or modified data, and gives each time what a freshly configured one gives. The tree comparison helper accepts two trees exactly when their structure, types, dtypes and values agree.",
    ["inputs", "configurations", "histories"],
    "all display options, all factories and their options, all sequences of uses of one stream, all pairs of trees",
    "Tests never run with a display on, call a few factories with default options, and build a new stream for every use.",
    ["src/wax/stream.py", "src/wax/unroll.py", "src/wax/flax/core/unroll.py", "src/wax/flax/modules", "src/wax/accessors.py", "src/wax/testing.py"],
    [("Stream.trace_dataset, _is_verbose, _add_pbar", "src/wax/stream.py"), ("static_scan/iter_first_axis", "src/wax/unroll.py"), ("create_* factories", "src/wax/flax/modules/buffer.py"), ("assert_tree_all_close", "src/wax/testing.py")],
    ["outputs and states with and without the convenience"],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
