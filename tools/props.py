"""Source of properties.jsonl (run: python tools/props.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(qtext.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  **({"observe_at": observe} if observe else {})}})
S = "src/fairseq2/"
N = "native/src/fairseq2n/data/"

p("C01", "Checkpoints survive a crash at any point of a save or delete",
  """If the process dies at any point while a checkpoint is being saved, committed or deleted, every step the
  checkpoint manager afterwards lists is complete and loads back the state that was saved for it, and steps committed
  before are still there unless their deletion was requested. A step whose save was interrupted is never listed as a
  finished checkpoint, saved scores stay readable, and saving again after the crash works.""",
  ["crash_points", "histories"],
  "every history of save/commit/delete operations and every file-system operation boundary at which the process dies, for 1-3 ranks",
  "tests save to a temp directory and never stop in the middle; the guarantee quantifies over every intermediate file-system state",
  [S+"checkpoint/manager.py", S+"file_system.py", S+"io.py"],
  [("temporary step directory renamed on commit", S+"checkpoint/manager.py"), ("step directory listing", S+"checkpoint/manager.py")])

p("C02", "A loaded checkpoint is exactly the state at the time of saving",
  """Loading a saved step returns, on every rank, trainer, model, optimizer and data reader states that are equal,
  value for value and type for type, to what was passed to the save, whatever the rank layout, whether the save is
  synchronous or in the background, and even if the live state is modified while a background save is still being
  written. Model-only checkpoints contain exactly the model's state.""",
  ["inputs", "histories", "configurations"],
  "all nested state dictionaries of tensors and plain values, rank layouts (data/tensor parallel, replicated or sharded), sync and async saves, mutations between save and write",
  "tests round-trip one small state on one rank; aliasing, dtype, device, layout and asynchrony combinations are not enumerated",
  [S+"checkpoint/manager.py", S+"io.py", S+"nn/utils/module.py"],
  [("snapshot of the state before background writing", S+"checkpoint/manager.py"), ("tensor file dump/load", S+"io.py")])

p("C03", "Checkpoint retention keeps exactly what the policy promises",
  """After any history of saves and clean-ups, keep-last-N leaves the N most recent steps, keep-best-N leaves the N
  best-scored ones (later step wins ties) and keep-every-N leaves the multiples of N, a step is kept if any
  active rule keeps it, and the most recent step is never removed (nor is the last full one reduced to its model).
  Nothing but the steps the policy drops is removed, and steps are always reported in ascending order.""",
  ["histories", "configurations"],
  "all sequences of step numbers and scores, and all combinations of retention settings",
  "tests use one or two fixed settings on a handful of steps",
  [S+"checkpoint/manager.py", S+"trainer.py"],
  [("old checkpoint deletion", S+"trainer.py"), ("stale step computation", S+"checkpoint/manager.py")])

p("T01", "Resuming from a checkpoint equals never having stopped",
  """A training run that is stopped or killed at any time and restarted from its latest checkpoint goes through the same
  sequence of batches, parameter and optimizer updates, learning rates, loss scales, random numbers and metric values (those of a publication window that a stop did not cut) as
  a run that was never interrupted, and ends after the same number of steps and epochs.""",
  ["histories", "crash_points", "configurations"],
  "all stop/crash points, checkpoint intervals, epoch lengths, gradient accumulation settings and numbers of restarts",
  "there is no trainer-level resume test at all; equality with the uninterrupted run must hold for every stop point",
  [S+"trainer.py", S+"datasets/data_reader.py", S+"checkpoint/manager.py", S+"utils/rng.py", S+"optim/fp16_loss_scaler.py"],
  [("trainer state dict", S+"trainer.py"), ("restore", S+"trainer.py")])

p("T02", "Training validates, checkpoints, publishes and stops when configured",
  """Validation, checkpointing and metric publishing happen at exactly the steps and epochs that the every-N and after-N
  settings name (and at the end of training), each at most once per step (a stop decided between two steps may repeat the last one). Training ends at the configured number of steps or epochs, at the end of data, on early
  stop, or right after the step during which a stop is requested, and every checkpoint that was begun is committed before training returns.""",
  ["histories", "configurations"],
  "all combinations of interval settings in steps and epochs, dataset lengths, stop requests, early-stop decisions and synchronous or asynchronous saving",
  "no test drives the training loop; the interplay of schedules is combinatorial",
  [S+"trainer.py", S+"early_stopper.py"],
  [("training state machine", S+"trainer.py")])

p("T03", "A training step applies the true mean gradient exactly once",
  """For every split of the same data into micro-batches and ranks, a training step updates the parameters with the
  gradient of the total loss divided by the total number of targets, clipped to the configured norm.
  A step with non-finite gradients under fp16 leaves parameters, step count and metrics untouched, and ranks whose gradient norms disagree are reported.""",
  ["inputs", "configurations"],
  "all batch splits, target counts (including zero on a rank), clip norms, and loss scales",
  "tests do not exercise gradient accumulation, and the equivalence is over all splits",
  [S+"trainer.py", S+"nn/utils/grad.py", S+"optim/fp16_loss_scaler.py"],
  [("gradient normalisation", S+"nn/utils/grad.py"), ("micro-batch loop", S+"trainer.py")])

p("O01", "The loss scaler follows its dynamic scaling rule and resumes exactly",
  """After every sequence of finite and overflowing gradients, the loss scale doubles (by the configured factor) after the configured number of
  consecutive good steps, shrinks on an overflow, never leaves its configured bounds, reports overflow and
  minimum-reached truthfully, and skips the optimizer exactly on the overflowing steps on all ranks alike. Saving and restoring its state at any point does not change what follows.""",
  ["histories", "configurations"],
  "all overflow/non-overflow sequences, scale windows, factors, minimum scales, and save/restore points",
  "tests run a few fixed sequences",
  [S+"optim/fp16_loss_scaler.py"],
  [("update", S+"optim/fp16_loss_scaler.py")])

p("O02", "Learning-rate schedules follow their formulas at every step",
  """Every learning-rate scheduler (cosine annealing, Myle, Noam, polynomial decay, tri-stage, pass-through) gives, at each
  step and for each parameter group, the learning rate of its documented closed formula; it starts and ends where documented, stays within its bounds,
  and a scheduler restored from saved state continues with the same values.""",
  ["configurations", "histories"],
  "all admissible scheduler parameters, base rates per group, step counts and restore points",
  "tests compare one parameter set per scheduler",
  [S+"optim/lr_schedulers"],
  [("per-step formula", S+"optim/lr_schedulers")])

p("D01", "Data pipeline operators produce exactly the examples they promise",
  """For every composition of the native data pipeline's sources and operators, the examples read are
  exactly those of the operators' documented meaning: nothing is lost, duplicated, invented or put out of order, shards partition the input,
  shuffling and sampling are seed-determined, and parallelism or prefetching changes nothing. Resetting
  a pipeline replays it from the start.""",
  ["programs", "inputs", "schedules"],
  "all operator compositions and parameters over all finite (and bounded prefixes of infinite) inputs, with any parallelism",
  "the native library is not even built in the test environment; its tests check operators one by one with fixed parameters",
  [N+"data_pipeline.cc", "src/fairseq2/data/data_pipeline.py"],
  [("data sources", N)])

p("D02", "A data pipeline restored from saved state continues seamlessly",
  """For every pipeline and every position in it, saving the state and loading it into a fresh, identically built pipeline (or the same
  one moved elsewhere) makes it continue with exactly the examples that the original would have produced next, to
  the end of the data and after later resets. Saving the state never changes what the original produces.""",
  ["programs", "histories", "schedules"],
  "all operator compositions, all positions (including before the first and after the last example), repeated saves and loads, background prefetching",
  "the native tests save at one position per operator, never for compositions",
  [N+"data_pipeline.cc", N+"tape.cc"],
  [("record and reload of position", N)])

p("D03", "Batching tensors by padding or packing is lossless",
  """Collating, padding, packing, bucketing by length or cost, and building sequence batches keep every element of every sequence: from
  the batch and the recorded lengths the original sequences can be recovered exactly, all padding has the configured value,
  the batch obeys its size limits, and token and target counts equal the true ones.""",
  ["inputs", "configurations"],
  "all lists of variable-length sequences, dtypes, pad values and multiples, nesting of examples, bucket limits",
  "tests use a few fixed tensors; losslessness is over all length combinations",
  [N+"collater.cc", N+"packed_data_source.cc", N+"bucket_by_length_data_source.cc", N+"dynamic_bucket_data_source.cc", S+"datasets/batch.py", S+"nn/utils/padding.py", S+"data/data_pipeline.py"],
  [("collater", N+"collater.cc"), ("sequence batch", S+"datasets/batch.py")])

p("D04", "Ranks read data in lockstep without losing batches",
  """Under either synchronisation mode all ranks end reading after the same number of steps: when the first rank runs out (every rank then gets the same number of batches at each step), or when the last one does (ranks that ran out get empty lists). Until then each
  rank's batches are delivered in order, none lost or repeated, in groups of the configured size, and a reader restored
  from its saved state continues exactly where it stopped.""",
  ["inputs", "histories", "configurations"],
  "all per-rank data lengths, numbers of ranks and accumulated batches, sync modes, partial-batch settings and restore points",
  "tests run a single process with a fake gang",
  [S+"datasets/data_reader.py"],
  [("end-of-data synchronisation", S+"datasets/data_reader.py")])

p("D05", "Text reading and conversion reproduce the file's content",
  """Reading a text file yields exactly its lines as they stand in the file for every line-ending, encoding, trimming, filtering and memory-mapping setting,
  string splitting and string-to-number conversion are exact or raise, and mapping file names returns
  exactly the bytes of the named file or slice.""",
  ["inputs", "configurations"],
  "all Unicode texts, line endings, encodings, option combinations and byte ranges",
  "the native tests check a handful of files",
  [N+"text/text_data_source.cc", N+"text/utf8_stream.cc", N+"text/text_line_reader.cc", N+"record_reader.cc", N+"text/string_splitter.cc", N+"text/string_to_tensor_converter.cc", N+"file_mapper.cc"],
  [("text reader", N+"text/text_data_source.cc")])

p("D06", "Tokenizers round-trip text and frame it as configured",
  """For every text, encoding then decoding with a tokenizer gives back the text, token ids lie within the vocabulary (for Hugging Face tokenizers, whose
  reported size is that of the base vocabulary, within it and the added tokens), and the special-token prefixes and suffixes of the
  chosen task, language and mode are exactly those configured. Vocabulary lookups of special tokens agree
  with the reported vocabulary information.""",
  ["inputs", "configurations"],
  "all Unicode strings and all task/lang/mode combinations of the byte-level, Hugging Face, tiktoken and character tokenizers",
  "tests encode one or two fixed sentences",
  [S+"data/tokenizers/hg.py", S+"data/tokenizers/tiktoken.py", S+"data/tokenizers/char.py", S+"models/llama/tokenizer.py"],
  [("encoder and decoder creation", S+"data/tokenizers")])

p("D07", "Parquet datasets are read completely, in shards, and resumably",
  """Streaming and loading a parquet dataset yields every selected row exactly once per epoch with its values unchanged,
  for every file and fragment layout, filter, column selection, shuffling, sharding and batching setting; the shards of all ranks partition the data, and
  a stream resumed from saved state continues without loss or repetition.""",
  ["inputs", "configurations", "histories"],
  "all table contents, partition and row-group layouts, column/filter selections, shard counts, shuffle windows and resume points",
  "the native pipeline these readers depend on is not built in the test environment; fixed tables only",
  [S+"data/parquet/fragment_streaming/primitives.py", S+"data/parquet/fragment_loading", S+"data/parquet/table_bucketing", S+"data/parquet/arrow_transform.py", S+"data/parquet/utils.py"],
  [("fragment streaming and loading", S+"data/parquet")])

p("B01", "Batch layouts describe padded and packed batches faithfully",
  """A batch layout built from any sequence lengths reports those lengths, positions, boundaries and paddedness exactly, rejects inconsistent lengths,
  and the padding masks derived from it mark exactly the real elements.
  Applying or deriving masks never alters real elements.""",
  ["inputs"],
  "all shapes, sequence lengths (including zero), packed and padded",
  "tests use a few fixed lengths",
  [S+"nn/batch_layout.py", S+"nn/utils/mask.py", S+"nn/utils/padding.py"],
  [("batch layout", S+"nn/batch_layout.py")])

p("N01", "Attention of a sequence is independent of how it is batched",
  """Multi-head attention gives each sequence the same result alone, padded with any content, or packed with other sequences, equals the textbook formula for its masks, biases, head and grouped-query settings, and
  never lets a position see what its bias forbids (future positions, other documents, positions outside its window).
  All attention backends available agree.""",
  ["inputs", "configurations"],
  "all head counts, dimensions, lengths, masks (causal, windowed, ALiBi, relative), padded and packed layouts",
  "tests fix shapes and seldom compare backends or layouts",
  [S+"models/transformer/multihead_attention.py", S+"models/transformer/sdpa", S+"models/transformer/attention_bias.py"],
  [("scaled dot-product attention", S+"models/transformer/sdpa"), ("attention bias", S+"models/transformer/attention_bias.py")])

p("N02", "Incremental decoding equals decoding all at once",
  """Decoding a sequence piece by piece with cached state, in any division into steps, gives at every position the output
  that one full pass gives, and reordering (selecting, duplicating, dropping) the cached batch makes each row continue as its source row would.""",
  ["inputs", "histories", "configurations"],
  "all model shapes, step divisions, reorderings between steps, position encoders and attention caches (full, windowed)",
  "tests compare one step division for one model",
  [S+"nn/incremental_state.py", S+"models/transformer/multihead_attention.py", S+"nn/position_encoder.py", S+"models/transformer_lm"],
  [("key/value cache", S+"models/transformer/multihead_attention.py")])

p("N03", "Position encoders depend only on each element's position",
  """Every position encoder encodes an element as a function of its value and its position in its own sequence alone, following its published formula (sinusoidal, learned, rotary and
  its variants), whatever the padding, packing, batch or decoding step; rotary encodings make dot products depend only on relative distance. Sequences beyond the maximum length are rejected.""",
  ["inputs", "configurations"],
  "all dimensions, lengths, layouts, decoding offsets and values",
  "tests compare fixed matrices",
  [S+"nn/position_encoder.py", S+"models/olmo/yarn_rope.py", S+"models/llama/factory.py"],
  [("position encoder forward", S+"nn/position_encoder.py")])

p("N04", "Tensor-parallel layers compute what their unsharded layers compute",
  """Sharded linear, embedding, attention and feed-forward layers, over any number of ranks, give on every rank the outputs and
  gradients of the equivalent unsharded layer, and unsharding gives back the original parameters bit for bit.""",
  ["inputs", "configurations"],
  "all dimensions, rank counts, gather/scatter settings, bias and padding index settings",
  "sharding tests need several processes and are skipped or fixed-size",
  [S+"nn/projection.py", S+"nn/embedding.py", S+"ops/tensor_parallel.py", S+"models/transformer/multihead_attention.py", S+"models/transformer/ffn.py"],
  [("sharded layers", S+"nn/projection.py")])

p("N05", "Module-tree utilities touch exactly what they name",
  """Sharing, freezing, moving, resetting, iterating and selectively loading the parameters of a module tree act on exactly the modules and
  parameters they name, once each, preserving ties between shared ones; state loads are strict about missing and unexpected entries, and gradient norms and clipping equal their definition.""",
  ["inputs", "programs"],
  "all module trees, including shared submodules and tied parameters, name patterns and state dictionaries",
  "tests use one small tree",
  [S+"nn/utils/module.py", S+"nn/utils/grad.py"],
  [("module utilities", S+"nn/utils/module.py")])

p("N06", "Loss functions and normalisation layers equal their definitions",
  """Cross entropy, for every label smoothing, padding index, target mask and reduction, and every normalisation, feed-forward and residual
  layer equal their mathematical definition, ignore padding and masked targets entirely, and give the correct gradients.""",
  ["inputs", "configurations"],
  "all shapes, logits, targets, masks, reductions and layer settings",
  "tests use a few fixed inputs",
  [S+"nn/functional/cross_entropy.py", S+"nn/normalization.py", S+"models/transformer/ffn.py", S+"nn/residual.py"],
  [("cross entropy", S+"nn/functional/cross_entropy.py")])

p("G01", "Beam search returns the best hypotheses with their true scores",
  """For every model and prompt batch, beam search returns for each prompt distinct, terminated hypotheses, best first, that a plain reference beam search over the same model returns, each with the score and
  step scores that the model really gives it under the length normalisation chosen; a prompt's result does not depend on the other prompts of
  its batch or on the prefill chunk size. Length limits, echo and end-of-sequence rules are obeyed.""",
  ["inputs", "configurations"],
  "all next-token distributions, prompt batches of mixed lengths, beam sizes, length limits, penalties and processors",
  "tests run one tiny fixed case; hypotheses depend on every tie, length and padding combination",
  [S+"generation/beam_search/generator.py", S+"generation/beam_search/algo.py"],
  [("beam search step", S+"generation/beam_search/generator.py")])

p("G02", "Sampling draws only admissible tokens and reports true scores",
  """Sampling generation emits only tokens inside the top-k or top-p set of the model's (temperature-adjusted) distribution, obeys minimum and maximum lengths and the
  end-of-sequence rules, reproduces the prompt, reports the probabilities the model really gave, and draws each token in proportion to its probability.
  A prompt's result does not depend on padding, and the number of generations per prompt is as asked.""",
  ["inputs", "configurations"],
  "all next-token distributions, prompt batches, samplers, temperatures, lengths and seeds",
  "tests sample a handful of fixed distributions",
  [S+"generation/sampling/generator.py", S+"generation/sampling/sampler.py"],
  [("samplers", S+"generation/sampling/sampler.py")])

p("G03", "Step processors forbid exactly the tokens they should",
  """The n-gram repeat blocker, banned-sequence and other step processors lower to impossible exactly those tokens that would complete a forbidden sequence given each row's history, and leave all other scores untouched.""",
  ["inputs"],
  "all token histories, n-gram sizes, banned sequences of any length and overlap",
  "tests check one or two fixed sequences",
  [S+"generation/step_processor.py"],
  [("step processor call", S+"generation/step_processor.py")])

p("M01", "Checkpoint conversion to and from other formats is a faithful bijection",
  """For every model family and configuration, converting a fairseq2 state to the Hugging Face (or original) format and back gives the same parameters,
  no parameter is dropped, renamed onto another or reshaped wrongly, and, where the reference implementation is installed, the converted model computes the same outputs from the same weights.""",
  ["configurations", "inputs"],
  "all small model configurations of each family, all weights and token inputs",
  "tests convert nothing or one configuration; real checkpoints are not available offline",
  [S+"models/llama/interop.py", S+"models/qwen/interop.py", S+"models/olmo", S+"models/gemma3n/interop.py", S+"models/utils/checkpoint.py", S+"models/utils/hg_export.py"],
  [("state dict key maps", S+"models/utils/checkpoint.py")])

p("M02", "Model checkpoints load identically from every format and sharding",
  """Loading the same model parameters from any supported file layout (native sharded, single PyTorch file, safetensors, multi-file) yields exactly the same tensors, and loading onto any number of
  tensor-parallel ranks gives each rank exactly its slice of the whole. Missing, corrupt or inconsistent files raise an error rather than yield wrong or partial parameters.""",
  ["inputs", "configurations", "fault_sequences"],
  "all parameter sets, dtypes, source and target shard counts, file layouts and damaged files",
  "tests load one fixed file",
  [S+"model_checkpoint/native.py", S+"model_checkpoint/safetensors.py", S+"model_checkpoint/basic.py", S+"model_checkpoint/common.py"],
  [("checkpoint loaders", S+"model_checkpoint")])

p("F01", "Data parallel wrappers move parameters, not results",
  """For every model, number of ranks, wrapper (DDP, FSDP1, FSDP2, hybrid sharding), wrapping granularity and division into micro-batches, the outputs, loss, gradients, gradient norm and updated
  parameters of a wrapped model equal those of the bare model in one process over the same data. Wrapping starts every rank from the first rank's parameters when asked to, local (sharded) states
  stitch together to exactly the whole parameters and load back to them, summoning gives the full parameters, gradients not normalised are the sum over ranks, and resharding after forward and skipping of
  initialisation happen exactly when asked for.""",
  ["configurations", "inputs", "histories"],
  "all small models, worlds of 1 to 4 ranks, wrappers, granularities, micro-batch counts and optimizer steps",
  "tests run on one process without data parallelism",
  [S+"nn/ddp.py", S+"nn/fsdp", S+"nn/data_parallel.py", S+"nn/utils/module.py", S+"models/transformer/fsdp.py", S+"models/transformer_lm/fsdp.py"],
  [("FSDP and DDP wrappers", S+"nn/fsdp")])

p("M03", "A model's output for a sequence does not depend on its batch",
  """For every model family and configuration, the outputs for each sequence are the same alone, padded into any batch with any pad content, or (where supported) packed, and
  decoder outputs at a position do not depend on later tokens. Evaluation mode is deterministic.""",
  ["inputs", "configurations"],
  "all small configurations of the decoder-only, encoder-decoder and speech models, all lengths and pad contents",
  "tests do not cover padding invariance for whole models",
  [S+"models/transformer", S+"models/transformer_lm", S+"models/llama", S+"models/qwen", S+"models/olmo", S+"models/nllb", S+"models/wav2vec2", S+"models/s2t_transformer"],
  [("layout-aware forward", S+"models")])

p("M04", "Self-supervised masking and quantisation respect lengths",
  """Random span masks cover only real positions, have the requested span length and at least the requested number of spans per row with the same number of masked
  positions in each row, distractors are drawn only from other masked positions of the same row, and feature lengths after the convolutional
  extractor equal the true number of frames. The quantiser picks exactly one entry per codebook, and the contrastive, diversity and masked prediction losses equal their definitions.""",
  ["inputs", "configurations"],
  "all row lengths, span lengths, masking probabilities, minimum spans, seeds and extractor shapes",
  "tests fix a seed and a shape",
  [S+"models/wav2vec2/masker.py", S+"nn/utils/mask.py", S+"models/wav2vec2/model.py", S+"models/wav2vec2/feature_extractor.py"],
  [("row mask computation", S+"nn/utils/mask.py")])

p("A01", "Asset cards resolve names, environments and inheritance consistently",
  """Whatever set of metadata files is given, looking up an asset returns the card of the most specific source and environment by the documented precedence, with fields taken from the nearest
  ancestor that defines them; duplicates, unknown names, unknown bases and inheritance cycles raise errors, and typed field access returns the stored value or raises.""",
  ["inputs", "configurations"],
  "all sets of cards, environments, base chains, user/global providers and field types",
  "tests cover a few fixed files",
  [S+"assets/card.py", S+"assets/store.py", S+"assets/metadata_provider.py"],
  [("store lookup", S+"assets/store.py")])

p("A02", "The asset cache only ever serves complete downloads",
  """Downloading an asset leaves in the cache exactly the source's content (extracted if an archive), reuses it
  afterwards without touching the source unless forced, and an interruption or failure at any point never leaves a partial download that a later request takes for complete.
  Distinct sources never share a cache entry.""",
  ["inputs", "fault_sequences", "crash_points"],
  "all source contents, archive kinds, URL forms, failure points and retry histories",
  "tests cannot download; failures mid-way are not injected",
  [S+"assets/download_manager.py", S+"assets/dirs.py"],
  [("download manager", S+"assets/download_manager.py")])

p("R01", "Structured configuration converts both ways without change",
  """Turning a configuration object into plain data and back gives an equal object, plain data that does not fit the declared types is rejected with an error naming the
  field, and merging overrides changes exactly the named fields and no others.""",
  ["inputs", "programs"],
  "all configuration classes built from the supported types, all values and all ill-typed inputs, all override trees",
  "tests use fixed classes",
  [S+"utils/structured.py", S+"utils/config.py", S+"utils/validation.py"],
  [("value converter", S+"utils/structured.py")])

p("R02", "Recipe runs are configured and named reproducibly",
  """The configuration a recipe runs with is its defaults overlaid by the configuration file and then by the command-line overrides, from left to right; unknown or ill-typed settings
  are errors that name the setting; and the output directory tag is the same for equal configurations, in every process, and differs for different ones.""",
  ["inputs", "configurations"],
  "all override files and key=value pairs, all configuration trees",
  "tests check a few fixed command lines",
  [S+"recipe/cli.py", S+"recipe/internal/sweep_tag.py", S+"recipe/internal/config.py"],
  [("config loading", S+"recipe/internal/config.py"), ("sweep tag", S+"recipe/internal/sweep_tag.py")])

p("R03", "Dependency resolution yields one consistent object graph",
  """Resolving from a container returns for each type and key the object of its provider (the same instance each time for singletons, a new one otherwise), collections yield all
  registrations in order, wired constructors get what their annotations ask for, and duplicate or late registrations, cycles, wrong types and missing dependencies raise rather than
  loop or return a wrong object, leaving the container usable.""",
  ["programs", "histories"],
  "all registration and resolution sequences, dependency graphs including cycles and failures, constructor signatures",
  "tests cover a few fixed registrations",
  [S+"runtime/dependency.py"],
  [("container", S+"runtime/dependency.py")])

p("E01", "Aggregated metrics equal the metrics of all data together",
  """Metric values computed after synchronising across ranks equal those computed on the concatenation of all
  ranks' updates, for every split of the updates over ranks and calls; rolling back uncommitted updates and saving and restoring the
  metrics mid-way leave the values as if the extra work never happened.""",
  ["inputs", "histories", "configurations"],
  "all update sequences, rank splits, commit/rollback points and save/restore points",
  "tests run one rank with fixed updates",
  [S+"metrics/bag.py", S+"metrics/aggregation.py", S+"metrics/common.py", S+"metrics/text"],
  [("metric bag synchronisation", S+"metrics/bag.py")])

p("X01", "Process groups partition ranks and reduce correctly",
  """For every world size and parallelism layout, the data-, tensor-, pipeline- and intra/inter-node groups partition the ranks as a grid, every collective gives each rank the mathematically right result, and invalid rank lists or layouts are rejected.""",
  ["configurations", "inputs"],
  "all world sizes, tensor-parallel and replicate/shard sizes, rank subsets, tensors and reduction operations",
  "tests mock a few world sizes",
  [S+"gang.py"],
  [("gang creation", S+"gang.py")])

p("X02", "Random state save, restore and temporary seeding are exact",
  """Capturing random state and restoring it later makes every generator repeat the same numbers, temporary seeding leaves the outer random stream as if it had never happened, and seeding makes all generators reproducible.""",
  ["histories"],
  "all sequences of draws, seeds, nested temporary seeds and save/restore points",
  "tests cover one save/restore",
  [S+"utils/rng.py"],
  [("rng bag", S+"utils/rng.py")])

for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
    print(json.dumps(x))
