#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               **({'observe_at': observe} if observe else {}),
                               hook_needed=hook)))
T = 'The 13 stable tests each call one node class once on one input'

prop('P01', 'A saved model reloads as the same model, whatever happened before the save',
     'When saving a model with its weights returns normally, loading the written file gives a model with the same nodes (operator, wiring, attribute values), the same graph inputs and outputs, weights that are equal bit for bit in value, type and shape, and the same computed outputs as the in-memory model had when it was saved. '
     'This holds after any history of shape inferences, profiles, edits, failed or interrupted saves, retries and save/reload cycles, on storage that accepts writes in arbitrarily small pieces. '
     'A weightless save differs from the full save only in lacking the weight data; a save without shape information differs only in lacking intermediate shapes.',
     ['histories', 'fault_sequences', 'inputs'],
     'every model, every sequence of API calls before the save, every way the storage splits, refuses or interrupts earlier writes',
     T + '; none of them saves or loads a file.',
     ['onnx_tool/graph.py', 'onnx_tool/model.py', 'onnx_tool/tensor.py', 'onnx_tool/node.py'],
     [('Graph.save_model/make_graph_onnx', 'onnx_tool/graph.py'), ('Node.make_nodeproto', 'onnx_tool/node.py'),
      ('Tensor.make_tensor_proto, tensorproto2ndarray', 'onnx_tool/tensor.py')],
     [('initials/tensormap', 'weights held in memory', 'onnx_tool/graph.py')], ['the bytes on the (simulated) disk', 'Model() of the saved file'])

prop('P02', 'An artefact writer that returns normally has stored the complete artefact',
     'Every call that writes an artefact (model file, compute graph, shape engine, memory plan, profile table as text or csv, exported tensor) either raises or leaves, when it returns, a closed file holding exactly the bytes that the same call writes on fault-free storage. '
     'A storage error at any open, write, flush or close is reported to the caller as an exception and is never swallowed. '
     'The same holds when the artefact overwrites a longer or shorter earlier file.',
     ['fault_sequences', 'inputs', 'histories'],
     'every artefact kind, every storage operation at which an error, a full disk or a short write can strike, every earlier content of the target',
     T + '; no test writes a file, and none injects a storage error.',
     ['onnx_tool/graph.py', 'onnx_tool/serialization.py', 'onnx_tool/utils.py', 'onnx_tool/__init__.py', 'onnx_tool/llm.py'],
     [('onnx.save_model call', 'onnx_tool/graph.py'), ('serialize_* open/write/close', 'onnx_tool/serialization.py'),
      ('print_table', 'onnx_tool/utils.py'), ('model_export_tensors_numpy', 'onnx_tool/__init__.py')],
     None, ['bytes on the simulated disk', 'exception seen by the caller', 'open handles after return'])

prop('P03', 'A save that fails does no damage and can simply be retried',
     'A failed artefact write (storage error, interruption, allocation failure, or content the format cannot hold) leaves the in-memory model exactly as it was and touches no file other than its own target. '
     'If the failure happens before the target has been opened for writing, or the content cannot be represented, the earlier content of the target is still there unchanged. '
     'Repeating the call once the fault is gone writes exactly the bytes that a never-failing call would have written.',
     ['fault_sequences', 'crash_points', 'histories'],
     'every point of every artefact-writing call at which it can be interrupted or refused, including failures while the content is being encoded',
     T + '; no test interrupts a save or makes one fail.',
     ['onnx_tool/graph.py', 'onnx_tool/serialization.py', 'onnx_tool/utils.py', 'onnx_tool/__init__.py'],
     [('content is encoded before the target is opened', 'onnx_tool/serialization.py, onnx_tool/utils.py'), ('make_graph_onnx only reads the graph', 'onnx_tool/graph.py')],
     None, ['bytes on the simulated disk before/after', 'canonical digest of the in-memory graph'])

prop('P04', 'Deployment artefacts decode to the state they were made from',
     'A compute-graph, shape-engine or memory-plan file whose writer returned normally decodes, by the documented little-endian layout, to exactly the nodes (names, operators, wiring, attribute values) and weights, the variables, shape descriptions and expressions, or the pool size, blocks and maximum shapes that were in memory when it was written. '
     'The decoded shape engine computes the same shapes as the in-memory engine for every value of its variables. '
     'Content that the format cannot represent is refused with an exception instead of being written wrongly.',
     ['histories', 'fault_sequences', 'inputs'],
     'every model, every history of inference, edits and engine updates before the write, every storage behaviour during it',
     T + '; the serialisers are never executed.',
     ['onnx_tool/serialization.py', 'onnx_tool/graph.py'],
     [('serialize_graph, serialize_shape_engine, serialize_memory_compression', 'onnx_tool/serialization.py')],
     [('ShapeEngine.variables/tensor_desc/tensor_epxr', 'shape engine state', 'onnx_tool/graph.py')], ['bytes on the simulated disk, read by an independent decoder'])

prop('P05', 'Tensor export writes every requested weight once and never overwrites another',
     'When exporting tensors returns normally, every requested weight is in its own file in the target folder and reads back with the value, shape and type it has in the model (half precision where that was asked for), and no two weights end up in one file. '
     'An export that fails part-way raises, leaves only correct complete files plus at most one incomplete one, and a repeated export completes it. '
     'Names that are not weights of the model are reported and skipped.',
     ['fault_sequences', 'inputs', 'crash_points'],
     'every set of weight names (including ones that differ only in path separators) and every storage fault during the export',
     T + '; export is never executed.',
     ['onnx_tool/__init__.py'],
     [('model_export_tensors_numpy', 'onnx_tool/__init__.py')], None, ['files on the simulated disk'])

prop('P06', 'Models processed by concurrent callers do not influence each other',
     'When several threads of one process each load, shape-infer, value-infer, profile, edit, regress, plan, serialise and save models of their own, every result, every exception and every byte written is the same as if that thread had run alone, at every interleaving. '
     'Jumps and stalls of the system clock change no result either.',
     ['schedules', 'programs', 'fault_sequences'],
     'every interleaving, down to single source lines, of every combination of API programs on disjoint models; every behaviour of the clock',
     T + ' in a single thread.',
     ['onnx_tool/graph.py', 'onnx_tool/node.py', 'onnx_tool/utils.py', 'onnx_tool/__init__.py', 'onnx_tool/llm.py', 'onnx_tool/fusion.py', 'onnx_tool/tensor.py'],
     [('per-Graph/per-Node state, no mutable module globals on the processing paths', 'onnx_tool/*.py')],
     [('NODE_REGISTRY, NoMacsOps, ArchMap, GLOBAL_VARS, default arguments', 'process-wide state shared by all callers', 'onnx_tool/utils.py, onnx_tool/__init__.py, onnx_tool/llm.py')],
     ['return values, exceptions, stdout of each simulated caller', 'simulated disk'])

prop('P07', 'Earlier calls leave no trace in later ones',
     'Any API call gives the same result in a process that has already executed an arbitrary history of other API calls on other models, successful, failed or interrupted, as it gives in a fresh process. '
     'In particular exclusion lists, option dictionaries, fusion patterns, operator registrations for other operators and model configurations given to earlier calls do not affect later calls that did not ask for them.',
     ['histories', 'configurations', 'fault_sequences'],
     'every history of earlier calls and failures, every later call',
     T + ' and each starts from the state the previous ones left, so they cannot compare against a fresh process.',
     ['onnx_tool/__init__.py', 'onnx_tool/utils.py', 'onnx_tool/llm.py', 'onnx_tool/model.py', 'onnx_tool/fusion.py', 'onnx_tool/node.py'],
     [('defaults are not modified', 'onnx_tool/__init__.py'), ('ModelConfig reads, never writes, the given dict', 'onnx_tool/utils.py'), ('Builder keeps its own architecture table', 'onnx_tool/llm.py')],
     [('NoMacsOps, ArchMap, WeightMap, default mcfg', 'process-wide defaults', 'onnx_tool/__init__.py, onnx_tool/llm.py')], ['result of a probe call after a history, compared with a fresh interpreter state'])

prop('P08', "Calls do not modify the caller's model object or arguments",
     'No API call, whether it returns, raises or is interrupted part-way, changes the model object, arrays, dictionaries, lists or sets that the caller passed in; only the model wrapper the method was called on may change. '
     'A caller that reuses its objects therefore gets the same results again.',
     ['histories', 'fault_sequences', 'inputs'],
     'every API entry that accepts caller-owned objects, every history of calls on them, every failure point',
     T + ' and discards its arguments afterwards.',
     ['onnx_tool/__init__.py', 'onnx_tool/graph.py', 'onnx_tool/model.py', 'onnx_tool/tensor.py', 'onnx_tool/fusion.py', 'onnx_tool/quantization.py'],
     [('copies on entry', 'onnx_tool/__init__.py, onnx_tool/graph.py')], None, ['serialised bytes / deep copies of the arguments before and after'])

prop('P09', 'Inferred shapes depend only on the model and the inputs, not on the history',
     'After a successful shape inference, every tensor\'s shape and type are the ones a freshly loaded copy of the model infers for the same inputs, and the shapes are the ones a real execution of the model produces. '
     'This holds after any history of earlier inferences at other sizes, profiles, value inferences, saves, and failed or interrupted inferences. '
     'Repeating an inference changes nothing.',
     ['histories', 'fault_sequences', 'inputs'],
     'every model, every sequence of inferences with different input shapes and values, with faults in between',
     T + '; no test infers the same graph twice.',
     ['onnx_tool/graph.py', 'onnx_tool/node.py', 'onnx_tool/tensor.py'],
     [('Graph.shape_infer', 'onnx_tool/graph.py'), ('Node.shape_infer/value_infer write outputs from inputs only', 'onnx_tool/node.py')],
     [('Tensor.shape/dtype/numpy, per-node attributes', 'state carried from one inference to the next', 'onnx_tool/tensor.py, onnx_tool/node.py')],
     ['shape and dtype of every tensor'])

prop('P10', 'A failed inference is never reported as a result',
     'When shape inference fails or is interrupted (unknown or negative input sizes, incompatible shapes, an operator that raises, an allocation failure, a keyboard interrupt), the caller gets an exception that names the offending input or node where one exists, and the model is not considered shape-inferred. '
     'Until an inference succeeds again, profiling produces no totals and no table is printed or written. '
     'Afterwards a corrected call succeeds as on a fresh model.',
     ['fault_sequences', 'histories', 'crash_points'],
     'every point at which an inference can fail, every history before it, every call after it',
     T + '; none makes a graph inference fail and goes on.',
     ['onnx_tool/graph.py'],
     [('valid_shape / valid_profile flags', 'onnx_tool/graph.py'), ('check_inputs', 'onnx_tool/graph.py')],
     [('valid_shape, valid_profile', 'whether shapes and totals may be used', 'onnx_tool/graph.py')],
     ['exceptions, totals, printed tables and files after a failed inference'])

prop('P11', 'Profiles are consistent and independent of history, clock and hash seed',
     'The totals of a profile are exactly the sums of the rows it covers, percentages and the table (console, text, csv) show those same numbers once per covered node in graph order, and excluded operators are left out of rows and totals. '
     'Profiling again, after other inferences, other exclusion lists, interrupted profiles or clock jumps, gives the same totals, rows and bytes as profiling a fresh copy once. '
     'The table bytes are the same in every interpreter run.',
     ['histories', 'fault_sequences', 'schedules', 'configurations'],
     'every model, every history of inferences/profiles/exclusions/interruptions before the profile, every hash seed and clock behaviour',
     T + '; hash-seed dependence and history dependence need several runs to show.',
     ['onnx_tool/graph.py', 'onnx_tool/__init__.py', 'onnx_tool/utils.py', 'onnx_tool/node.py'],
     [('Graph.profile, Graph.print_node_map', 'onnx_tool/graph.py'), ('print_table', 'onnx_tool/utils.py')],
     [('macs/params/memory totals and per-node values', 'the profile', 'onnx_tool/graph.py')], ['totals, rows, table bytes'])

prop('P12', 'Value inference returns the outputs for the inputs it was given, every time',
     'Evaluating a model on given inputs returns the values that a reference execution of the model gives, up to floating-point rounding. '
     'The answer does not depend on earlier evaluations with other inputs, shapes or types, on shape inferences, or on evaluations that failed or were interrupted, and values returned to a caller earlier are not changed by later calls.',
     ['histories', 'fault_sequences', 'inputs'],
     'every model made of operators that support evaluation, every history of evaluations and failures',
     T + '; one evaluation, one node.',
     ['onnx_tool/graph.py', 'onnx_tool/node.py', 'onnx_tool/tensor.py'],
     [('Graph.value_infer', 'onnx_tool/graph.py'), ('Node.value_infer', 'onnx_tool/node.py')],
     [('Tensor.numpy', 'value of the last evaluation', 'onnx_tool/tensor.py')], ['returned output arrays'])

prop('P13', 'Graph edits keep the graph referentially intact; refused edits change nothing',
     'After any sequence of completed edits (node removal, recursive and subtree removal, dangling-node removal, skipping, fusing by node names, by cut tensors or as post-operators, adding weights and dump outputs, reordering, quantising), every tensor a node consumes has exactly one producer or is an input or a weight, the producer and consumer indexes agree with the nodes, and every node and output named by the graph exists. '
     'An edit that is refused with an exception leaves the graph unchanged. '
     'The result can be reordered, inferred, profiled and saved.',
     ['histories', 'programs', 'inputs'],
     'every model and every sequence of edit operations and refused edits',
     T + '; no edit operation is executed.',
     ['onnx_tool/graph.py', 'onnx_tool/fusion.py', 'onnx_tool/quantization.py'],
     [('remove_node, remove_subtree, remove_dangling_nodes, skip_node, fuse_*', 'onnx_tool/graph.py'), ('removeShapeOps, FusionPattern, ConvBNFusion', 'onnx_tool/fusion.py')],
     [('nodemap, tensormap, producedby, consumedby, initials, dynamics, input, output, prevnodes/nextnodes', 'redundant views of one graph', 'onnx_tool/graph.py')],
     ['an independent recomputation of the indexes after every edit'])

prop('P14', 'Rewrites that are meant to preserve the computed function do preserve it',
     'Constant folding, topological reordering, dangling-node removal, node renaming, skipping identity-like nodes, folding batch normalisation into convolutions, and saving and reloading, applied in any order and any number of times and on node lists that arrive in any order, leave the outputs the model computes unchanged up to floating-point rounding. '
     'Reordering yields an order in which every node follows its producers, keeps every node exactly once, and is stable under repetition.',
     ['histories', 'schedules', 'programs', 'inputs'],
     'every model, every arrival order of its nodes, every sequence of rewrites with save/crash/reload points in between',
     T + '; no rewrite is executed.',
     ['onnx_tool/graph.py', 'onnx_tool/fusion.py', 'onnx_tool/__init__.py', 'onnx_tool/node.py'],
     [('__constant_search__, topsort_nodes, remove_dangling_nodes, skip_node', 'onnx_tool/graph.py'), ('ConvBNFusion', 'onnx_tool/fusion.py')],
     None, ['outputs computed by the reference evaluator before and after'])

prop('P15', 'Extracting a compute graph or subgraph does not disturb the model it came from',
     'Extracting the compute graph, or splitting a model at given tensors or node names, leaves the source model exactly as usable as before: later inferences, profiles, saves and further extractions give what they give on a fresh copy, and edits of the extracted graph do not show in the source. '
     'Extraction repeated after any history gives the same graph. '
     'The extracted parts, run one after the other, compute the outputs of the source model.',
     ['histories', 'programs', 'inputs'],
     'every model and every history of extractions interleaved with inference, profile, edits of the extracted part, and saves',
     T + '; extraction is never executed.',
     ['onnx_tool/graph.py', 'onnx_tool/__init__.py'],
     [('get_compute_graph, get_subgraph, get_onnxgraph_by_nodenames', 'onnx_tool/graph.py'), ('model_subgraph, model_shape_regress', 'onnx_tool/__init__.py')],
     [('nodemap and index dictionaries', 'must not be shared with the extracted graph', 'onnx_tool/graph.py')], ['digest and later results of the source; reference outputs of the parts'])

prop('P16', 'The memory plan never lets two live tensors share memory',
     'If a graph is executed node by node with every activation stored at the block the memory plan gives it, every value read is the value last written to that tensor, every input and graph output included, until its last use or, for graph outputs, to the end. '
     'Every block lies inside the stated pool size, is aligned to the requested padding, and is at least as large as its tensor, also when the plan made at the largest size serves a later sequence of smaller sizes. '
     'Planning again after any history gives the same plan.',
     ['histories', 'inputs', 'schedules'],
     'every model, every execution history over one reused pool at sizes up to the planned maximum, every padding',
     T + '; the planner is never executed, and its own overlap test only warns.',
     ['onnx_tool/graph.py'],
     [('compress_memory life times and best-fit allocation', 'onnx_tool/graph.py')],
     [('compress_mem / compress_size', 'the plan', 'onnx_tool/graph.py')], ['values read from a simulated, poisoned memory pool'])

prop('P17', 'The shape engine agrees with direct inference after any update history',
     'For every assignment of the variables within the regressed ranges, the shapes a shape engine returns for all tensors equal those of a direct shape inference at that size, for models in which every size is a whole multiple or a whole fraction of one variable plus a constant (fractions: at multiples of the divisor). '
     'The answer depends only on the last values set and the last recomputation, not on the order, repetition or interruption of earlier updates, nor on what happens to the graph afterwards.',
     ['histories', 'inputs', 'fault_sequences'],
     'every model in the class, every sequence of variable updates, recomputations and queries',
     T + '; shape regression is never executed.',
     ['onnx_tool/graph.py', 'onnx_tool/__init__.py'],
     [('Graph.shape_regress, ShapeEngine, ValueExpr', 'onnx_tool/graph.py')],
     [('variables', 'current values of base and derived variables', 'onnx_tool/graph.py')], ['ShapeEngine.get_tensorshape for every tensor'])

prop('P18', 'The inference runtime answers rightly after any history of requests and failures',
     'A request to the graph runtime returns the outputs of the model for exactly the inputs of that request, whatever sizes earlier requests had and whether earlier requests failed part-way in an operator kernel, in an allocation, or because their inputs were unsuitable. '
     'A failed request raises; the request after it behaves as on a newly created runtime. '
     'Weights held by the runtime never change, and runtimes of several models or used by several threads do not influence each other.',
     ['histories', 'fault_sequences', 'inputs'],
     'every sequence of requests with sizes inside the declared range, every kernel or allocation fault at any node',
     T + '; the runtime is never executed (its backend is not even installed).',
     ['inference/infer.py', 'inference/memory_pool.py', 'onnx_tool/graph.py'],
     [('GraphInfer.forward caches, _update_shape_from_input', 'inference/infer.py'), ('MemoryPool views', 'inference/memory_pool.py')],
     [('_last_node_tensors, _last_var_values, _tensor_shape_cache, _dynamic_inputs', 'state carried between requests', 'inference/infer.py')], ['returned outputs of every request'])

prop('P19', 'Quantising weights is order-independent and touches only its target',
     'Quantising any selection of weights in any order, with refused, failed or (while the new tensors are being computed) interrupted attempts in between, gives the same graph as quantising them once in one order: each quantised weight is replaced for all of its consumers by its integer, scale and (asymmetric only) zero-point tensors, and nothing else changes. '
     'Dequantising the stored tensors reproduces every weight within half a quantisation step. '
     'An attempt that is refused, or fails or is interrupted while the new tensors are computed, leaves the graph as it was.',
     ['histories', 'fault_sequences', 'inputs'],
     'every model with two-dimensional weights (shared or not), every order of quantisation calls, every parameter set, every failure point between calls',
     T + '; quantisation is never executed.',
     ['onnx_tool/quantization.py', 'onnx_tool/graph.py'],
     [('graph_quantize, quantize, pack_4bits', 'onnx_tool/quantization.py')],
     [('initials, tensormap, consumedby, node.input', 'rewritten by quantisation', 'onnx_tool/graph.py')], ['graph digest, dequantised values, saved file'])

prop('P20', 'LLM graphs built in one process are independent of each other and of their order',
     'Building, profiling and saving a language-model graph from a configuration gives the same graph, totals, table bytes and file whatever other configurations were built before or concurrently in the process. '
     'Profiling twice, or at a sequence of growing cache lengths, gives for each length what a fresh build at that length gives, and totals are the sums of the rows. '
     'The caller\'s configuration dictionary is not modified.',
     ['histories', 'schedules', 'configurations'],
     'every sequence and interleaving of builder programs over the supported architectures, with small sizes',
     T + '; the LLM builder is never executed.',
     ['onnx_tool/llm.py', 'onnx_tool/model_configs.py', 'onnx_tool/node.py'],
     [('Builder.__init__, build_graph, add_kv_cache, set_past_kv_length, profile, print_profile, save_graph', 'onnx_tool/llm.py')],
     [('ArchMap, WeightMap', 'shared architecture tables', 'onnx_tool/llm.py')], ['graph digest, totals, table bytes, saved file'])

prop('P21', 'The command line never reports success for work it did not complete',
     'A command-line run whose exit status is zero has written every output it was asked for, complete and identical to that of the corresponding library call. '
     'A run that meets an unreadable or damaged model, a storage error, a full disk or an interruption ends with a non-zero status or exception. '
     'No run modifies its input model file or any file other than its stated outputs.',
     ['fault_sequences', 'configurations', 'crash_points'],
     'every mode and option combination, every storage fault on its reads and writes',
     T + '; the command line is never executed.',
     ['onnx_tool/__main__.py', 'onnx_tool/__init__.py'],
     [('mode dispatch', 'onnx_tool/__main__.py')], None, ['exit status, simulated disk'])

prop('P22', 'Step-by-step language-model decoding equals running the whole sequence',
     'A language model exported by the builder and answered by the cached runtime, token by token or in chunks, returns the logits that the published architecture gives for the whole sequence so far, whatever requests, generations, failures or refused requests came before and from whichever earlier position decoding resumes. '
     'Text generation yields the prompt followed by the most likely tokens (with a temperature: tokens drawn from the softmax of the logits restricted to the top-k) and ends at the end token or the maximum length. '
     'A request that lacks an input, has conflicting shapes or does not fit into the cache raises and leaves the cached tokens usable, and a weight matrix missing from the weight file is reported, never replaced by other memory.',
     ['histories', 'fault_sequences', 'configurations', 'inputs'],
     'every architecture option, every division of a sequence into requests, every position at which decoding resumes, every failure point in every request',
     T + '; the language-model runtime is never executed (its backend is not even installed).',
     ['inference/llm_infer.py', 'inference/infer.py', 'inference/kernels.py', 'onnx_tool/llm.py'],
     [('LLMInfer.generate', 'inference/llm_infer.py'), ('SDPA, Rope, LayerNormalization kernels', 'inference/kernels.py'), ('_preload_constants, _check_inputs', 'inference/infer.py'),
      ('Builder.add_layers, add_kv_cache', 'onnx_tool/llm.py')],
     [('kv_cache, n_past', 'attention state carried between requests', 'inference/infer.py')], ['logits of every request, generated tokens, drawn probabilities'])

prop('P23', 'The super-resolution window pairs every picture with its own result',
     'Whatever actions a user of the super-resolution window starts, in any order and while earlier ones still run in the background, every picture that is shown as result, saved, put into a comparison or written by a batch is the answer of the model for exactly the picture it is paired with, and once the background work has ended the window shows the result of the picture opened last. '
     'An action that fails (unreadable picture, storage error, failing inference) is reported and leaves the other actions unaffected, and no action is reported as done without its complete files. '
     'The window never freezes: handlers return while work goes on in the background, and all background work ends.',
     ['schedules', 'histories', 'fault_sequences', 'configurations', 'inputs'],
     'every interleaving of background tasks, user actions and the event loop, with storage, allocation and inference failures at every point',
     T + '; neither the window nor its background tasks are ever executed (its libraries are not even installed).',
     ['inference/sr_gui.py', 'inference/infer.py', 'inference/kernels.py', 'inference/memory_pool.py'],
     [('SRApp._process_in_thread, _on_batch, _on_save, _on_profile', 'inference/sr_gui.py'), ('SREngine.process', 'inference/sr_gui.py'), ('GraphInfer', 'inference/infer.py')],
     [('SRApp image state', 'picture and result on display, changed by background tasks', 'inference/sr_gui.py'), ('GraphInfer memory pool', 'shared by all tasks', 'inference/infer.py')],
     ['shown pictures', 'files written', 'messages and status line', 'progress of the event loop'])

prop('P24', 'Chains of file-level tools give exactly the composed change',
     'A chain of file-level calls (constant folding, reordering, input and output sizes, profiling with a saved model, fusing named nodes, splitting), each reading a file that an earlier one wrote and possibly overwriting it, writes in every step exactly the files that the same call writes in a process that did nothing before, whatever failed, was interrupted or crashed and was repeated in between. '
     'Changing input and output sizes sets exactly the requested sizes of the named inputs and outputs and changes no other, and folding, reordering, size changes and profiling change neither what the model computes nor the names, order and types of its inputs and outputs; the parts of a split, run one after the other, compute the outputs of the model. '
     'No step changes its source (unless told to overwrite it), the caller\'s objects or any file it was not asked to write.',
     ['histories', 'fault_sequences', 'configurations', 'crash_points', 'inputs'],
     'every chain of file-level calls over every model, every failure point in every step',
     T + '; the file-level tools are executed once each or never.',
     ['onnx_tool/__init__.py', 'onnx_tool/graph.py', 'onnx_tool/tensor.py', 'onnx_tool/model.py'],
     [('model_io_modify, model_constant_folding, model_reorder_nodes, model_subgraph, model_opfusion, model_profile', 'onnx_tool/__init__.py'), ('Graph.save_model, make_graph_onnx', 'onnx_tool/graph.py'),
      ('Tensor.make_value_proto', 'onnx_tool/tensor.py')], None, ['bytes of every file', 'sizes, types and names in the written models', 'outputs computed from the written models'])

prop('P25', 'A detection evaluation counts every picture once and nothing else',
     'A completed detection evaluation has evaluated every picture that could be found exactly once, and its metrics, detections, exported curves and annotated pictures are those that these pictures and their own annotations give, whatever evaluations, failures, interruptions or changes of the data came before in the process. '
     'Pictures that are missing are named and not counted, and a picture that cannot be read or a result that cannot be stored makes the call fail instead of being left out. '
     'The data set itself is never changed, and results returned earlier stay what they were.',
     ['histories', 'fault_sequences', 'inputs', 'configurations', 'crash_points'],
     'every data set, option and history of evaluations, every failure point in each of them',
     'No test imports the program, and it needs OpenCV, torch and a data set.',
     ['inference/yolo_eval.py', 'inference/infer.py', 'inference/kernels.py'],
     [('YOLOEvaluator.evaluate_coco, evaluate_image_dir, infer_single', 'inference/yolo_eval.py'), ('compute_map, compute_ap_per_class, non_max_suppression, postprocess_yolo26, letterbox', 'inference/yolo_eval.py'),
      ('export_pr_curve, draw_detections, main', 'inference/yolo_eval.py')], None, ['returned metrics and detections', 'bytes of annotated pictures', 'exported JSON', 'printed summary', 'exit status'])

prop('P26', 'Written models are valid ONNX and state only what is true',
     'Every model file that a save, folding, reordering, size change, profile or split has completed is a valid ONNX model whenever its source is one: nodes in order, every name used by a node or by the body of a control-flow node defined, declared operator sets and no contradictory types or sizes under strict inference. '
     'The types and sizes it states for inputs, outputs and intermediate tensors are those a computation with such inputs has, and what nobody declared or inferred stays unstated; after an inference that failed or was cut short, only the types have to be right. '
     'This holds after any history of inferences, profiles, plans, function-preserving edits, weight changes, reloads and failed saves, and for weightless and shapeless saves too.',
     ['histories', 'fault_sequences', 'configurations', 'inputs'],
     'every valid model, every history of calls before the file is written, every failure point in them',
     T + '; none writes a model, and none consults the ONNX checker.',
     ['onnx_tool/graph.py', 'onnx_tool/tensor.py', 'onnx_tool/node.py', 'onnx_tool/model.py', 'onnx_tool/__init__.py'],
     [('Graph.make_graph_onnx, save_model, get_initials_from_nodenames, __update_nodes_tensors__', 'onnx_tool/graph.py'), ('Tensor.make_value_proto, make_tensor_proto', 'onnx_tool/tensor.py'),
      ('Node.make_nodeproto, uses', 'onnx_tool/node.py'), ('model_io_modify, model_subgraph', 'onnx_tool/__init__.py')], None, ['verdict of onnx.checker', 'types and sizes in the written file against an execution'])

prop('P27', 'A pattern search finds exactly the places that fit the pattern',
     'Every set of nodes that a pattern search reports fits the whole pattern: operator types, attribute conditions, every link between the ports, and with the in-place rule no other reader of a linked tensor; and at every node where a place that fits begins, one is reported. '
     'This holds for described patterns, serial chains, patterns taken from nodes of the graph and the patterns that come with the package, in whatever order the nodes are stored, and after any history of edits, inferences, earlier searches with the same pattern object and searches that were interrupted. '
     'A search changes neither the graph nor the pattern, and describing nodes of a graph yields a pattern those nodes fit.',
     ['histories', 'fault_sequences', 'inputs'],
     'every graph and pattern, every order of nodes, every history of edits and searches before, every interruption of a search',
     T + '; no test searches a pattern.',
     ['onnx_tool/fusion.py', 'onnx_tool/graph.py'],
     [('FusionPattern.search_pattern, search_node', 'onnx_tool/fusion.py'), ('NodeCondition.is_node, AttrExpr', 'onnx_tool/fusion.py'),
      ('create_descs_from_nodenames, createSerialPattern, ConvBN, Fused_Element, Conv_Res, MHAint8_Pattern, layernorm_pattern', 'onnx_tool/fusion.py')],
     None, ['reported sets against a reference matcher', 'graph and pattern before and after a search'])

# ---- pure functions of their input: listed, not claimed -------------------------------------------
NAW = 'Only single hand-picked inputs are tested; the property ranges over every input.'
prop('P30', "Operator cost formulas match the operators' arithmetic",
     'The multiply-accumulate count, parameter count and memory figure of every operator equal the documented cost model for its shapes and attributes.',
     ['inputs'], 'every operator, shape and attribute combination', NAW, ['onnx_tool/node.py'], [('_profile_core of each node', 'onnx_tool/node.py')])
prop('P31', 'Each operator infers shapes and types as the ONNX operator specification says',
     'For every operator, opset and attribute combination the tool supports, a single shape inference yields the shape and element type the ONNX specification prescribes.',
     ['inputs'], 'every operator, opset, attribute and input shape', NAW, ['onnx_tool/node.py'], [('shape_infer of each node', 'onnx_tool/node.py')])
prop('P32', 'Sparsity analysis reports the true zero ratio and block pattern of a weight',
     'For every weight the reported sparsity ratio is its fraction of zero elements and the reported block size is one at which that ratio is reached.',
     ['inputs'], 'every weight array', NAW, ['onnx_tool/tensor.py'], [('narray_calc_sparsity, search_sparse_blocksize', 'onnx_tool/tensor.py')])
prop('P34', 'LLM parameter counts and latency estimates match published models and devices',
     'For every shipped configuration and device entry, the parameter count equals the published model\'s and the latency is the roofline value for the device.',
     ['configurations'], 'every shipped configuration and device', NAW, ['onnx_tool/llm.py', 'onnx_tool/model_configs.py', 'onnx_tool/device.py'], [('Builder, Devices', 'onnx_tool/llm.py, onnx_tool/device.py')])
prop('P35', 'Command-line shape strings are parsed into the arrays they describe',
     'Every well-formed dynamic-shape argument yields an array of the stated type, shape and values, and every ill-formed one is rejected.',
     ['inputs'], 'every argument string', NAW, ['onnx_tool/__main__.py'], [('__args2dynamicshapes__', 'onnx_tool/__main__.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        assert len([s for s in p['statement'].replace('e.g.', 'eg').split('. ') if s.strip()]) <= 3, p['id']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
