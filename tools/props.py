"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py after editing)."""


def P(id, title, statement, over, quant, why, files, mech, observe=None, state=None, technique="", note=""):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                mech=mech, observe=observe or [], state=state or [], technique=technique, note=note)


PROPS = [
    P("P01", "Merge graph runs each task once, after its inputs, for all targets",
      "Executing a merge graph runs every task some requested target needs exactly once, only after all of its inputs, hands each task exactly the values its declared inputs produced, and delivers the value of every requested target once. Tasks nothing needs are not run, and a graph with a cycle is refused instead of executed.",
      ["programs", "configurations"], "every task graph (any shape, sharing, duplicates, value equality), target subset and executor setting",
      "tests/test_graph.py runs a handful of fixed small graphs; ordering, duplication and delivery have to hold for every graph and target list",
      ["mergekit/graph.py"], [("build schedule", "graph.py: build_schedule"), ("execution loop", "graph.py: Executor._run"), ("task universe", "graph.py: TaskUniverse")],
      ["Task.execute calls", "values yielded by run()"],
      technique="trace monitor over recording tasks in random graphs", note="Held on every generated graph; graph sizes bounded (up to a few hundred tasks)."),
    P("P02", "Intermediate results live until their last use, then go, on the right device",
      "While a merge graph executes, an intermediate result stays available and unchanged until the last task that needs it has run and is then released, so peak memory follows the live set and not the graph size. Tensors are handed to tasks on the device the execution was asked to use, results are stored on the storage device, and tasks that do not ask for acceleration get their inputs where they were stored.",
      ["programs", "configurations"], "every task graph, target subset, device and storage-device combination and result shape (tensors nested in tuples, lists, dicts)",
      "no test observes object lifetimes or device placement of intermediates",
      ["mergekit/graph.py"], [("last-use table", "graph.py: Executor._compute_last_use / _run"), ("device moves", "graph.py: _move_tensors")],
      ["weak references to produced values", "device of tensors passed to tasks"],
      technique="lifetime and placement monitor (weakrefs, simulated devices)", note="Devices are simulated with the meta device and wrappers; a real GPU is not available."),
    P("P03", "Parallel multi-device execution equals serial execution",
      "Executing a merge graph across several devices runs every needed task exactly once, after its inputs, and delivers exactly the targets and values a serial execution delivers, whatever the interleaving of its threads. When a task fails the failure is reported to the caller and execution ends instead of hanging or dropping results.",
      ["schedules", "programs", "fault_sequences"], "every graph, device count, thread interleaving and failing task",
      "the tests never run the multi-device executor (no GPU); races show only under particular interleavings",
      ["mergekit/multigpu_executor.py"], [("phase split", "multigpu_executor.py: MultiGPUExecutor.__init__"), ("worker queues", "multigpu_executor.py: MultiGPUExecutor.run")],
      ["task events across threads", "yielded results"],
      technique="schedule fuzzing with injected delays; trace monitor compares with serial run", note="Interleavings are sampled with seeded delays and preemption, not enumerated; devices are simulated."),
    P("P04", "A finished checkpoint contains exactly what was saved",
      "When a checkpoint has been finished, its files contain every tensor that was saved, under its name, with its exact bits, shape and dtype, and nothing else; the index names exactly the existing shards and the shard that holds each tensor, and sizes add up. This holds for any shard limit, format, number of writer threads, save order, and whatever the output directory held before.",
      ["inputs", "schedules", "configurations"], "every sequence of saved tensors (views, strides, zero size, all dtypes, repeated storage), shard limit, format, thread count and earlier content of the directory",
      "tests/test_io.py saves a few small contiguous tensors single-threaded",
      ["mergekit/io/tensor_writer.py", "mergekit/io/lazy_tensor_loader.py"], [("sharding and index", "tensor_writer.py: TensorWriter.save_tensor/finalize"), ("writer thread pool", "tensor_writer.py: _flush_current_shard")],
      ["files in the output directory after finalize"],
      technique="offline checker over files written under schedule fuzzing", note="Independent safetensors/pickle readers decide; sizes bounded to a few hundred KB."),
    P("P05", "A failed or interrupted save never passes for a finished one",
      "If any write, rename or index step of saving a checkpoint fails, the failure reaches the caller, and if the process dies at any point, what is left cannot be opened as a complete checkpoint holding wrong or missing tensors. This holds whatever the directory held before: an older checkpoint there is never left openable with a mixture of files. A later retry into the same directory yields a correct checkpoint.",
      ["crash_points", "fault_sequences", "schedules"], "every failing file-system operation, crash point, writer-thread count and order of saves",
      "no test injects a fault or kills a save",
      ["mergekit/io/tensor_writer.py", "mergekit/io/tasks.py"], [("finalize", "tensor_writer.py: TensorWriter.finalize"), ("context manager", "tensor_writer.py: __exit__"), ("future collection", "tensor_writer.py")],
      ["exceptions seen by the caller", "directory content after a kill"],
      technique="fault and crash injection at every file-system operation", note="All file-system operations of each generated save are enumerated and failed/killed in turn; power-loss reordering is not modelled."),
    P("P06", "Reading a tensor returns exactly what the checkpoint stores",
      "Looking up a tensor by name in a checkpoint, in any supported format and with or without lazy unpickling, returns exactly the stored name set, bits, shape and dtype, for single-file and sharded checkpoints, in any order, repeatedly and from several threads; aliases resolve to the stored name and a missing name is an error that says which. Requested device and dtype conversions apply to the result only.",
      ["inputs", "schedules", "histories"], "every checkpoint layout, tensor kind (views, offsets, strides, scalars, empty, bool, shared storage), access order and thread interleaving",
      "tests read a few contiguous tensors in sequence",
      ["mergekit/io/lazy_tensor_loader.py", "mergekit/io/loader.py", "mergekit/io/lazy_unpickle.py", "mergekit/io/tasks.py"],
      [("lazy unpickling", "lazy_unpickle.py"), ("shard index", "lazy_tensor_loader.py: ShardedTensorIndex"), ("loader cache", "tasks.py: LoaderCache")],
      ["tensors returned by loaders"],
      technique="differential monitor against torch.load and independent readers, threads stressed", note="Sampled checkpoint layouts; torch.load and safetensors are trusted as reference."),
    P("P07", "Opening a pickled checkpoint runs no foreign code",
      "Opening a pickled checkpoint lazily, however malicious or malformed, executes nothing it names beyond what rebuilding tensors needs and fails with an error instead, and loading with the default settings is no more permissive than a weights-only load. Whether reading succeeds or fails, and with several threads at once, process-wide unpickling afterwards behaves as before.",
      ["inputs", "schedules", "fault_sequences"], "every pickle stream (opcode mutations, forbidden globals, nested reduces), failure point and thread interleaving",
      "tests check one forbidden global, single threaded",
      ["mergekit/io/lazy_unpickle.py", "mergekit/io/loader.py"], [("allow-list unpickler", "lazy_unpickle.py: LazyTorchUnpickler/find_class"), ("patch scope", "lazy_unpickle.py: torch_lazy_load")],
      ["canary side effects (files, globals, audit hook)", "pickle/torch module state afterwards"],
      technique="canary payloads and audit-hook monitor over mutated pickles", note="Canaries cover files, imports and calls; sampled mutations."),
    P("P08", "Every weight is merged with the parameters and tensors its config asks for",
      "For each output weight the merge method receives the tensors of exactly the configured models, in configured order with the base model where the method expects it, and each parameter has the value the most specific applicable setting gives: per-model before slice before global, the first matching filter of a list, gradients interpolated by layer position, defaults last. A required parameter that no setting provides is an error naming it.",
      ["configurations", "inputs"], "every combination of settings levels, filters, gradients, layer counts, base model and methods with per-model and scalar parameters",
      "tests check a few parameter lookups on fixed configurations",
      ["mergekit/config.py", "mergekit/plan.py", "mergekit/merge_methods/easy_define.py"], [("parameter lookup", "config.py: evaluate_setting / ConfigReader"), ("method invocation", "plan.py: MergePlanner.plan_tensor"), ("argument passing", "easy_define.py")],
      ["arguments a registered merge method receives"],
      technique="recording merge method observes real merges; reference parameter resolver as oracle", note="Sampled configurations on coded checkpoints; reference resolver written from README."),
    P("P09", "Slices, modules and layer stacks come out exactly as configured",
      "The layers of the merged model are, in order, the configured layer ranges of the configured sources, each merged only from the layers the configuration names, with non-layer weights taken from the first and last slice's sources; the written configuration states the resulting layer count for each module and the model loads. Several modules are merged independently of each other, and layer ranges that cannot be satisfied are refused before anything is written.",
      ["configurations", "inputs"], "every slice layout (overlapping, repeated, reordered, single-layer), architecture, module set, source set and per-layer configuration entry",
      "tests stack one tiny llama in one or two fixed ways and never compare which source layer ended where",
      ["mergekit/plan.py", "mergekit/merge.py", "mergekit/architecture/*"],
      [("slice planning", "plan.py: MergePlanner.plan_slice/plan_layer"), ("output config", "merge.py: _model_out_config / _update_config_vocab"), ("final weights", "plan.py: plan_module")],
      ["output tensors coded with their origin", "written config.json"],
      technique="origin-coded checkpoints through real merges; provenance of every output element checked", note="Sampled slice layouts over tiny models of a dozen architectures; three known findings listed."),
    P("P10", "Averaging and interpolation methods compute their documented formula",
      "Every output weight of linear, passthrough, slerp, nuslerp, multislerp, karcher, nearswap, model stock and fusion merges equals the documented formula applied to that weight's inputs, up to rounding in the configured dtype: endpoints reproduce the models, weights are normalized as configured, identical inputs give that input, and degenerate directions fall back as documented without producing invalid numbers. Embeddings of different sizes are merged over their common part, and repeating the same source layers gives the same result each time.",
      ["inputs", "configurations"], "every set of inputs (independent, nearly equal, identical, colinear, zero, sparse, outliers), parameters, dtype, tensor shape and slice repetition",
      "tests check that a merge completes, and a few values of two or three methods at fixed points",
      ["mergekit/merge_methods/*"], [("methods", "merge_methods/linear.py, slerp.py, nuslerp.py, multislerp.py, karcher.py, nearswap.py, model_stock.py, arcee_fusion.py, passthrough.py"), ("embedding sizes", "merge_methods/rectify_embed.py")],
      ["every tensor of the merged checkpoint"],
      technique="differential monitor: real merges against float64 evaluation of the documented formula", note="Sampled inputs; ill-conditioned points (antipodal, vanishing sums) only judged for finiteness, dtype and shape."),
    P("P11", "Task-vector methods combine the models' changes as documented",
      "Every output weight of a task-vector merge equals the base weight plus the models' differences from it, pruned, sign-elected, weighted, normalized and scaled as the method and its parameters document, so that what no model changes stays the base model's. Methods that prune at random keep each change or drop it, restore the norm when asked to, and keep changes with the configured probability, independently between models and depending on magnitude only where documented.",
      ["inputs", "configurations"], "every set of changes, per-model weights, densities, gammas, epsilons, normalize/rescale/lambda settings, dtype and slice repetition",
      "tests only check that such merges complete, plus one or two sparsification facts",
      ["mergekit/merge_methods/generalized_task_arithmetic.py", "mergekit/merge_methods/sce.py", "mergekit/merge_methods/ram.py", "mergekit/sparsify.py"],
      [("task vectors and consensus", "generalized_task_arithmetic.py: GTATask"), ("SCE", "sce.py"), ("RAM", "ram.py"), ("defaults per method", "registry.py")],
      ["every tensor of the merged checkpoint"],
      technique="differential monitor against float64 reference; subset and statistical oracle for random pruning", note="Sampled; ties at a cut may go either way; probabilities judged within 6.5 sigma."),
    P("P12", "Sparsification keeps the right share of a tensor and alters nothing else",
      "Sparsifying a tensor keeps the configured share of its elements and zeroes the rest: exactly the largest ones, exactly those left after cutting the stated share of outliers, a uniformly random choice, or a random choice favouring larger elements of each row by the stated margin. Kept elements are unchanged, or multiplied by the one factor that restores the requested norm; shape and dtype stay, the input is not modified and no invalid numbers appear.",
      ["inputs", "configurations"], "every tensor (any rank, single elements, ties, zeros, overflow-prone half precision), density, gamma, epsilon and norm",
      "tests/test_sparsify.py checks a few properties on one fixed tensor in float32",
      ["mergekit/sparsify.py"], [("methods", "sparsify.py: magnitude, magnitude_outliers, bernoulli, della_magprune"), ("norm restoring", "sparsify.py: rescaled_masked_tensor")],
      ["tensors returned by sparsify"],
      technique="invariant and statistical monitors on real calls", note="Sampled tensors up to 30k elements; statistical tests at 6.5 sigma."),
    P("P16", "Merged models of supported architectures are complete and load",
      "For every supported architecture the merged output holds exactly the weights its written configuration calls for, under the names and in the dtype the model library expects, so it loads with none missing or unexpected and merging a model with itself reproduces it. A source lacking a required weight is refused by name, and nothing a source has is dropped silently; integer tensors such as position ids stay as they are whatever the dtype and method.",
      ["configurations", "inputs"], "every architecture with a definition or inferable, dtype setting, tied or untied embeddings, bias and norm options, and shard layout",
      "tests merge one tiny llama and check definitions of a few architectures by name count",
      ["mergekit/architecture/*", "mergekit/_data/architectures/*.json", "mergekit/plan.py", "mergekit/merge.py"],
      [("architecture definitions", "_data/architectures/*.json"), ("inference", "architecture/auto.py"), ("optional and tied weights", "plan.py, io/tasks.py")],
      ["output checkpoint loaded with transformers"],
      technique="end-to-end monitor: real merges of tiny models reloaded and compared", note="61 tiny architectures and 35 configuration variants; transformers' loader is the reference."),
    P("P13", "A configured tokenizer gives the documented vocabulary and embedding rows",
      "With a tokenizer configured, the output vocabulary is exactly the requested one (union, base or a given model's, plus any listed tokens), tokens the chosen base already has keep their ids, and the embedding matrices and written vocabulary size match it, padded as requested. Each model's embeddings reach the merge method with every token's own row where the model has the token, and otherwise, or where forced, the row the configuration or the documented fallback (base model, only owner, average) names.",
      ["inputs", "configurations"], "every set of vocabularies (shuffled, padded, gaps, tokens beyond the matrix, added tokens, missing tokenizers), source, per-token override, force flag and padding",
      "tests/test_tokenizer.py merges two or three fixed vocabularies with fixed overrides",
      ["mergekit/tokenizer/build.py", "mergekit/tokenizer/embed.py", "mergekit/merge.py"],
      [("vocabulary", "tokenizer/build.py: build_tokenizer/build_union_tokenizer"), ("embedding rows", "tokenizer/embed.py: PermutedEmbeddings"), ("written vocabulary size", "merge.py: _update_config_vocab")],
      ["per-model embedding matrices seen by a merge method", "saved tokenizer, config and tensors"],
      technique="recording merge method and saved files compared with the documented rules, row by row", note="Tiny BPE and word-level vocabularies; tokenizer libraries are trusted for encoding."),
    P("P14", "How a merge is executed does not change what it produces",
      "The same recipe produces the same weights, configuration and tokenizer whatever the execution options: shard size, asynchronous or multi-threaded writing, lazy unpickling, pickled or safetensors output, low-memory storage, cloning, number of devices, merging in memory instead of to disk, and the file format and sharding of the inputs. A process that has merged other models before, or the same directories with other contents, gives the same result as a fresh one.",
      ["configurations", "histories", "schedules"], "every deterministic recipe, option combination, input file layout and sequence of merges in one process",
      "tests run each option at most once, alone, and check only that output exists",
      ["mergekit/merge.py", "mergekit/options.py", "mergekit/plan.py", "mergekit/io/tasks.py", "mergekit/io/tensor_writer.py", "mergekit/multigpu_executor.py"],
      [("option plumbing", "merge.py: run_merge, plan.py: plan_to_disk"), ("loader cache", "io/tasks.py: LoaderCache"), ("in-memory plan", "plan.py: plan_in_memory")],
      ["tensors and files of pairs of real merges"],
      technique="metamorphic monitor: pairs of real merges that must agree", note="Sampled option sets; accelerators are simulated CPU devices; agreement up to 8 ulp."),
    P("P15", "The same recipe and seed reproduce the same output in any process",
      "Running a recipe with a random seed again, in the same or another process, gives bit-identical weights and the same tokenizer, configuration and card, independently of the interpreter's hash seed, of earlier use of random numbers and of what else was merged before. This covers the randomised merge methods.",
      ["histories", "configurations"], "every recipe, seed, hash seed, process and preceding activity",
      "all tests run once in one process under one hash seed",
      ["mergekit/merge.py", "mergekit/config.py", "mergekit/graph.py", "mergekit/sparsify.py", "mergekit/tokenizer/build.py"],
      [("seeding", "merge.py: run_merge"), ("task order", "graph.py: build_schedule, config.py: referenced_models"), ("union order", "tokenizer/build.py: build_union_tokenizer")],
      ["digests of weights and files across processes"],
      technique="digest comparison of real merges across processes with different hash seeds", note="Same machine and thread count; single-device execution."),
    P("P17", "The output carries the right tokenizer, chat template and recipe",
      "Unless told otherwise, the output directory has the base model's (else first model's) tokenizer, which encodes, decodes and lists special tokens as the donor's does, and its companion files (further chat templates included) unchanged. A configured chat template (built-in name, literal Jinja of any length, or the most common among the inputs) is the one the saved tokenizer renders. The saved recipe and model card state the configuration, and running the saved recipe again gives the same model.",
      ["configurations", "inputs"], "every chat_template setting, assignment of tokenizers and templates to models, tokenizer setting, copy and card options",
      "tests check one built-in template and one auto choice on a single model",
      ["mergekit/merge.py", "mergekit/card.py"], [("template choice", "merge.py: _set_chat_template"), ("tokenizer copy", "merge.py: _copy_tokenizer"), ("card and recipe", "merge.py: run_merge, card.py: generate_card")],
      ["files of the output directory, loaded back and rendered"],
      technique="end-to-end monitor: saved tokenizer, template and recipe are loaded, rendered and re-run", note="Templates compared by what they render on fixed conversations."),
    P("P18", "mergekit-moe builds the mixture its configuration describes",
      "The mixture of experts written by mergekit-moe has the requested architecture, as many experts, in order, as the configuration lists, and as many per token; each expert holds its source model's MLP weights (its adapter applied, scaled and noised as configured), shared experts likewise, and everything else is the base model's. Router rows come from the prompts by the chosen gate mode and are normalised. A mixture of identical experts computes what the dense model does; configurations that cannot work are refused.",
      ["inputs", "configurations"], "every output architecture, assignment of source models to experts, gate mode, prompts, scale, noise, dtype and output option",
      "the stable tests build no mixture from real weights and evaluate none",
      ["mergekit/scripts/moe.py", "mergekit/moe/mixtral.py", "mergekit/moe/deepseek.py", "mergekit/moe/qwen.py", "mergekit/moe/qwen3.py", "mergekit/moe/router.py", "mergekit/moe/common.py"],
      [("tensor assembly", "moe/*.py: write_model"), ("router rows", "moe/router.py: get_gate_params"), ("validation", "moe/config.py: is_bad_config")],
      ["tensors, config and tokenizer of the output, loaded and run with transformers"],
      technique="end-to-end monitor: every output tensor compared with its source, router rows with an independent computation, loaded model with the dense one", note="Tiny models; DeepSeek outputs judged by tensor names and values because their modelling code is remote."),
    P("P19", "A model reference with an adapter stands for base plus adapter, everywhere",
      "Wherever a model may be named, base+adapter means the base's weights with the LoRA adapter applied, in the adapter merge dtype if one is set: merging such references gives what merging the models they stand for gives. Merged copies kept in the cache are right for exactly their base, adapter and dtype; a copy whose writing was interrupted, or is still going on in another process, is never taken for a finished one; base and adapter files stay as they were.",
      ["inputs", "configurations", "fault_sequences", "histories"], "every base, adapter (rank, scaling, target modules, saved modules, file format), merge dtype, sequence of uses, failure and concurrent process",
      "no stable test merges an adapter",
      ["mergekit/common.py", "mergekit/io/tasks.py", "mergekit/architecture/auto.py", "mergekit/merge.py", "mergekit/scripts/moe.py"],
      [("merged copies", "common.py: ModelReference.merged"), ("loading", "io/tasks.py: LoaderCache.get")],
      ["tensors of merged copies and of merges", "files of the cache after injected failures and kills"],
      technique="metamorphic end-to-end monitor against independently computed weights, with injected write failures, killed and racing processes", note="Local directories only; peft is trusted to read the adapter format."),
    P("P20", "Extracted LoRA adapters reproduce the fine-tuned model on their base",
      "The adapter written by mergekit-extract-lora loads with PEFT (and as a model reference) on the base model and gives, module by module: the best approximation of the weight change at the permitted rank and threshold, so the fine-tuned weight itself when the rank suffices; the fine-tuned weight and bias exactly for modules saved whole; and the base's own weight for modules the regexes exclude. Biases, tied embeddings, convolutions and larger vocabularies are covered; stored ranks match the configuration file.",
      ["inputs", "configurations"], "every pair of models, rank, threshold, include/exclude pattern, saved module, embedding mode and output option",
      "no stable test extracts an adapter that is then applied",
      ["mergekit/scripts/extract_lora.py"],
      [("decomposition", "scripts/extract_lora.py: TaskVectorDecompositionTask"), ("module classification", "scripts/extract_lora.py: plan_extraction"), ("adapter configuration", "scripts/extract_lora.py: make_config_dict")],
      ["adapter files, and state dicts after PEFT applied them"],
      technique="round-trip monitor: extracted adapters are applied with peft and compared with the fine-tuned weights and the Eckart-Young optimum", note="Tiny models of 30 families; parameters that belong to no linear, embedding or normalisation module are recorded findings."),
    P("P21", "Transplanted tokenizers bring each token its own embedding, and nothing else",
      "mergekit-tokensurgeon writes a model with the donor's vocabulary, tokenizer and special token ids whose embedding (and output embedding, and output bias) rows are the base model's rows for every token both models have, the byte or prefix match the options allow for that matrix, and otherwise what the chosen approximation method documents - scaled and perturbed as asked, always finite; every other parameter is the base model's bit for bit, so texts of shared tokens give the same logits. With --magikarp, tokens under-trained in both models become zero and those under-trained in one are approximated. Orthogonal matching pursuit picks distinct points, greedily, with least-squares coefficients, on any candidates.",
      ["inputs", "configurations"], "every pair of models and tokenizers, method, sparsity, weighting, matching mode, batch size and output option",
      "no stable test runs the tool",
      ["mergekit/scripts/tokensurgeon.py", "mergekit/tokensurgeon/", "mergekit/tokenizer/normalization.py"],
      [("row assignment", "scripts/tokensurgeon.py: build_embedding_matrix"), ("approximation", "scripts/tokensurgeon.py: compute_new_embeddings; tokensurgeon/omp.py, common_interpolation.py, subword.py, pca.py, token_basis.py"), ("under-trained tokens", "tokensurgeon/magikarp.py"), ("vocabulary", "tokenizer/normalization.py: normalized_vocabulary")],
      ["output checkpoint, config and tokenizer", "logits of base and output", "indices and coefficients of batch_omp"],
      technique="runtime monitor of the tool's output against an independent double-precision model of each method", note="Tiny models of 28 base and 9 donor families; random methods by coarse statistics, mp_rope where it must be exact."),
    P("P22", "mergekit-multi runs every merge once, in order, and survives interruption",
      "mergekit-multi runs every merge of its file exactly once and after the merges it uses; each result is what running that merge by hand gives, with a merge's name standing for its result wherever a model can be named (models, slices, bases, tokenizer and token sources) and nothing else rewritten. The unnamed merge lands in the given directory. Files that cannot be run - cycles, duplicate names, two unnamed merges, an unnamed merge without a directory, invalid merges - are refused before anything is written. Finished results are reused, and only those: after a kill, a torn write, an error or an interrupt at any file operation, running the file again gives the results of an undisturbed run.",
      ["configurations", "crash_points", "histories"], "every set of interdependent merges, order of documents, state of the working directory and point of interruption",
      "no stable test runs mergekit-multi",
      ["mergekit/scripts/multimerge.py", "mergekit/merge.py", "mergekit/common.py"],
      [("order and naming", "scripts/multimerge.py: main, load_config, patched_config"), ("finished or not", "scripts/multimerge.py: main; merge.py: run_merge writes config.json last"), ("crash_points", "merge.py, io/tensor_writer.py: order of file operations")],
      ["output directories of every merge", "file operations (audit events) up to the point of interruption", "weights against the same merges run one by one"],
      technique="runtime monitor of merge pipelines with crash, torn-write and error injection at every kind of file operation", note="Tiny llama models; interruptions by audit hook in a forked child."),
    P("P24", "References, recipes and options mean what was written, in every form",
      "A model reference means the same model, revision, adapter and architecture as a string, mapping, JSON or YAML, survives being written out and read back in any of these forms, and equal references compare and hash equal; strings that are not references are refused. A merge recipe read from any source keeps every field, and the recipe written beside a merge (or printed) reproduces that merge bit for bit, however often and from whichever directory it is run, with model paths, adapters and options intact. Validating configurations and options never changes the caller's objects. A merge of local models needs no network and writes a card naming what was merged.",
      ["inputs", "configurations", "histories"], "every reference, recipe and combination of options",
      "tests parse five references and no recipe is ever written and re-run",
      ["mergekit/common.py", "mergekit/config.py", "mergekit/options.py", "mergekit/merge.py", "mergekit/card.py"],
      [("references", "common.py: ModelPath, ModelReference"), ("recipes", "config.py: MergeConfiguration.to_yaml; merge.py: mergekit_config.yml"), ("options", "options.py: MergeOptions, add_merge_options"), ("card", "card.py: is_hf, generate_card")],
      ["read-back of every written form", "weights of merges re-run from their own recipes", "network calls", "caller's objects before and after"],
      technique="runtime monitor: round trips through every written form and re-execution of written recipes", note="References from hostile word lists; sockets replaced by recorders."),
    P("P23", "mergekit-pytorch merges raw tensor files as mergekit-yaml merges models",
      "Merging raw tensor files (safetensors or pickles) with mergekit-pytorch gives, for every tensor, the merge method's value on the inputs' tensors of exactly that name, with the parameters the configuration asks for - per model before global, filtered by tensor name, given values even when zero - and the configured data type. Tensors that only some inputs have are merged from those that have them (tensor union), left out (intersection), or refuse the merge, as asked, the base model counting like any other. The same configuration as a model merge gives the same values; the result is the same under any hash seed, and files rewritten between runs in one process are read anew.",
      ["inputs", "configurations", "schedules"], "every set of tensor names, shapes, files and parameters",
      "no stable test runs mergekit-pytorch",
      ["mergekit/scripts/merge_raw_pytorch.py", "mergekit/io/lazy_tensor_loader.py", "mergekit/merge_methods/base.py"],
      [("parameters", "scripts/merge_raw_pytorch.py: plan_flat_merge, construct_param_dicts"), ("which tensors", "scripts/merge_raw_pytorch.py: plan_flat_merge; --tensor-union, --tensor-intersection"), ("values", "merge_methods/*")],
      ["every output tensor, bit pattern or within rounding", "refusals", "outputs under several hash seeds"],
      technique="runtime monitor: differential oracle over raw merges (formulas, model merges, hash seeds)", note="Small tensors, CPU."),
    P("P25", "Tools change nothing they were given and write only where they were told",
      "Every command-line tool (yaml, multi, moe, extract-lora, tokensurgeon, pytorch, layershuffle, legacy, bakllama, fill-missing) leaves its input models, adapters, configuration files, working directory and home untouched - content, mode, times and links, also where inputs are links into a store - and writes only into its output, its caches and the temporary directory, whether it succeeds, fails on damaged input, runs out of disk or is interrupted. It leaves no temporary files behind, and other files in an output directory that is in use stay as they are. With sound inputs and options it completes.",
      ["inputs", "crash_points", "configurations"], "every tool, option, layout of inputs, state of the output directory and point of failure",
      "tests never look outside the output",
      ["mergekit/scripts", "mergekit/merge.py", "mergekit/io/tensor_writer.py", "mergekit/common.py", "mergekit/tokenizer/build.py"],
      [("writes", "merge.py: run_merge; io/tensor_writer.py: TensorWriter; scripts/*.py"), ("temporary files", "tokenizer/build.py: build_union_tokenizer and others"), ("in-place tensors", "io/lazy_tensor_loader.py; scripts/tokensurgeon.py")],
      ["every file-system mutation the interpreter reports", "tree snapshots before and after (hash, mode, times, inode, links)"],
      technique="runtime monitor: audit hook on file-system mutations plus tree snapshots, with injected disk errors, damage and interrupts", note="Native writes are seen by snapshots of the scratch tree only."),
    P("P26", "mergekit-evolve evaluates the merge each genotype encodes, and keeps the best",
      "A genotype, in any accepted form, encodes one merge: per layer group, model and filter the given parameters (absolute weights unless negative ones are allowed, densities in range, interpolated across groups when smooth, the two heaviest models for slerp), and the configuration made from it is that merge and runs. Genotypes that do not fit are refused. Whatever the strategy, on disk or in memory, each genotype asked for is evaluated once, on the weights of exactly its merge and with the configured evaluation settings (limit, few-shot, chat template, shuffling, batch size, task path, quantization); a failing evaluation ends the search with its reason; the reported score, best_config.yaml and the final model are those of the best genotype, also after an interrupt, evaluated merges are removed, and inputs whose preparation was interrupted are prepared again.",
      ["inputs", "configurations", "schedules", "crash_points"], "every genome definition, genotype and order in which evaluations finish",
      "no stable test imports mergekit.evo",
      ["mergekit/evo/genome.py", "mergekit/evo/actors.py", "mergekit/evo/strategy.py", "mergekit/evo/helpers.py", "mergekit/scripts/evolve.py"],
      [("genotype to merge", "evo/genome.py: ModelGenome.genotype_merge_config"), ("in memory", "evo/actors.py: InMemoryMergeEvaluator"), ("best", "scripts/evolve.py: main")],
      ["weights seen by every evaluation", "weights of the encoded merge written out by hand", "arguments of every evaluation", "best_config.yaml and final model"],
      technique="runtime monitor of whole searches on stand-ins for ray, cma and lm_eval; differential oracle for genotypes", note="ray, cma, lm_eval and vllm are not installed: their documented parts are played; vllm is not run."),
    P("P27", "Filling in a base model around a submodel takes every tensor from its place",
      "Filling in the parameters a submodel lacks (fill_missing_params) gives a checkpoint with exactly the base model's tensors, each bit for bit the submodel's tensor where the submodel has it under the prefix that fits most of its names, and the base's otherwise - whatever the prefix, shards, data types, shapes and other copies of the names - and the base's other files. A submodel that cannot be part of the base is refused. It runs as documented from the command line, gives the same result under any hash seed, and changes neither model.",
      ["inputs", "configurations"], "every pair of base and submodel",
      "no stable test runs fill_missing_params",
      ["mergekit/scripts/fill_missing_params.py", "mergekit/io/tensor_writer.py"],
      [("prefix", "scripts/fill_missing_params.py: ParameterNamesUtils.find_prefix"), ("tensors", "scripts/fill_missing_params.py: copy_and_fill_missing_params")],
      ["every output tensor bit by bit", "copied files", "outputs under hash seeds"],
      technique="runtime monitor: bit-exact origin oracle over generated pairs of models", note="safetensors checkpoints."),
    P("P29", "The front-ends layershuffle, legacy and bakllama do the merge their options say",
      "mergekit-layershuffle draws layers from the given models in proportion to their weights (or every layer of each model's share, in random order), writes and prints the recipe it runs, gives the same recipe for the same seed, writes nothing on a dry run, and its output is that recipe's, layer by layer. mergekit-legacy merges exactly as the recipe its options spell out: weights per model, one for all, or 1.0 by default, densities likewise, slerp's weight, normalisation, masks and data type. bakllama stacks the listed layer ranges in order, with down projections scaled as given.",
      ["inputs", "configurations"], "every combination of options and models",
      "no stable test runs these tools",
      ["mergekit/scripts/layershuffle.py", "mergekit/scripts/legacy.py", "mergekit/scripts/bakllama.py"],
      [("shuffle", "scripts/layershuffle.py: main"), ("legacy options", "scripts/legacy.py: main"), ("stack", "scripts/bakllama.py: main")],
      ["every output tensor against the layer its recipe names", "written and printed recipes", "distribution of draws"],
      technique="runtime monitor: differential oracle against written recipes, and a statistical monitor of draws", note="Llama-shaped models."),
    P("P28", "Models without an architecture definition are merged whole",
      "Models of an architecture mergekit has no definition of - any transformers class, or a custom one transformers cannot build - are merged as known ones are: every tensor any of them stores, whatever its name, number of layers or stacks, storage layout or missing layers, is in the output exactly once with the merge method's value of the inputs' tensors (of those that have it), under names the model loads; nothing else is. Slices take and renumber layers, modules merge each stack by itself, and with a tokenizer exactly the tensors with a row per token follow the vocabulary. What was merged before in the process has no influence.",
      ["inputs", "configurations", "histories"], "every architecture, set of tensor names and configuration",
      "tests infer three toy layouts and never merge them",
      ["mergekit/architecture/auto.py", "mergekit/architecture/conversion.py", "mergekit/plan.py", "mergekit/tokenizer/embed.py"],
      [("inference", "architecture/auto.py: infer_architecture_info"), ("layouts", "architecture/conversion.py: can_convert_checkpoint_keys, convert_checkpoint_tensors; io/tasks.py: LoadTensor"), ("vocabulary", "architecture/auto.py; tokenizer/embed.py: PermutedEmbeddings")],
      ["every weight of the output as transformers loads it, against the inputs as transformers loads them", "names and values of every stored tensor", "keys transformers reports missing"],
      technique="runtime monitor: load-back differential oracle over 321 classes of the model zoo, and generated checkpoints", note="Tiny models; classes whose vocabulary shows in other tensors (final_logits_bias and the like) are left out of tokenizer merges."),
    P("P30", "A model's own code runs only where it is trusted, and works there",
      "Without --trust-remote-code no tool executes code that comes with a model, tokenizer or recipe (modelling, configuration or tokenizer modules, Python tags in YAML): models of a known type are processed from their data with the same result as without that code, others are refused. With the flag every tool - yaml, multi, moe, extract-lora, tokensurgeon, legacy, layershuffle, evolve - works on such models with the same values, and an output of a model with code of its own carries that code and loads by itself, with its tokenizer and chat template.",
      ["inputs", "configurations"], "every tool, model and combination of planted code",
      "no test has a model with code of its own",
      ["mergekit/merge.py", "mergekit/common.py", "mergekit/io/tasks.py", "mergekit/architecture/auto.py", "mergekit/scripts/tokensurgeon.py", "mergekit/scripts/extract_lora.py", "mergekit/scripts/evolve.py", "mergekit/scripts/layershuffle.py", "mergekit/evo/actors.py", "mergekit/evo/strategy.py"],
      [("options", "options.py: MergeOptions.trust_remote_code; common.py: ModelReference.config"), ("own code kept", "merge.py: copy_custom_code"), ("tokenizers", "tokenizer/build.py, scripts/tokensurgeon.py, merge.py: _set_chat_template")],
      ["marks the planted code leaves", "every code object the interpreter executes (audit hook)", "outputs with and without the code", "outputs loaded once the inputs are gone"],
      technique="runtime monitor: canary code in models, interpreter audit hook; differential oracle against the same run without the code", note="transformers decides what a given trust_remote_code loads; evolution runs on stand-ins for ray, cma and lm_eval."),
    P("P31", "Merge methods written against the documented interface get what was configured",
      "A merge method written as a function with the decorator, or as a class, and registered, is called exactly once for every weight of the output, with the input models' tensors of that weight in the configured order (the base model's first or as base_tensor, as its signature asks, None where there is none), the weight's description, the base model, its global parameters and one value of each per-model parameter per tensor - each the configured value, also zero or false, else the default; what it returns is what is written. Tasks a class creates run once, also where shared, before those that need them. Configurations lacking a required parameter or base model, and functions whose arguments nothing can be configured for, are refused. Names and links appear in the model card.",
      ["inputs", "configurations", "programs"], "every signature, parameter set and configuration",
      "tests define one toy method and never vary its signature",
      ["mergekit/merge_methods/easy_define.py", "mergekit/merge_methods/base.py", "mergekit/merge_methods/registry.py", "mergekit/plan.py", "mergekit/config.py"],
      [("signatures", "merge_methods/easy_define.py: merge_method"), ("parameters", "plan.py: MergePlanner.plan_tensor; config.py: ConfigReader.parameter")],
      ["arguments of every call, by tensors whose elements name their model and weight", "executions of every task a class creates", "the call every output weight came from"],
      technique="runtime monitor: recording methods of generated signatures; oracle written from the documentation", note="A base model may do without required per-model parameters, as mergekit allows."),
    P("P32", "A model named by its hub repository and revision is worth a local copy of it",
      "A model or adapter named by its repository on the hub, with or without a revision, gives in every tool what a local copy of that revision gives: weights, configuration, tokenizer with its templates, companion files, and own code where that is trusted - also where two models are revisions of one repository. Other revisions are never read; branches are followed as they move, commits are pinned. Pickles are fetched only where there are no safetensors. Downloads go to the cache given, are reused, and a download that broke off is never taken for complete; a missing repository, revision or file is an error, after which a repeat gives the right output. Model cards link the repositories; extracted adapters name base and revision.",
      ["inputs", "configurations", "fault_sequences", "histories"], "every tool, repository content, revision, fault and history of a branch",
      "no test reads anything from a hub",
      ["mergekit/common.py", "mergekit/merge.py", "mergekit/card.py", "mergekit/io/tasks.py", "mergekit/architecture/auto.py", "mergekit/scripts/extract_lora.py", "mergekit/scripts/evolve.py", "mergekit/scripts/tokensurgeon.py", "mergekit/evo/actors.py", "mergekit/tokenizer/build.py"],
      [("references", "common.py: ModelPath, ModelReference.local_path, merged, config"), ("code", "architecture/auto.py, evo/actors.py: get_class_from_dynamic_module"), ("adapters", "scripts/extract_lora.py")],
      ["every request the hub gets: repository, commit, file", "outputs from the hub and from local copies", "outputs after faults and after branches moved", "the cache directories"],
      technique="runtime monitor: request log of a hub on the loopback interface with planted faults; differential oracle against local copies", note="The hub is played by a local server speaking the parts of its interface huggingface_hub uses; work without a connection is not claimed."),
]
