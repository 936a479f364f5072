"""Refresh the 'fixed' entries of known_findings.json from the fix commits in /repo (run by hand after a fix)."""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [  # (commit subject part, property, what failed)
    ("collect all queued results", "P03", "results still queued when the last worker ended were dropped"),
    ("per-GPU tasks even when", "P03", "per-GPU tasks were never run when the graph had no parallel islands"),
    ("drop stale index", "P04", "rewriting a checkpoint left the earlier index or single file, which readers prefer"),
    ("don't finalize a checkpoint", "P05", "a writer context left by an exception finalized an incomplete checkpoint"),
    ("lazily load strided", "P06", "strided, scalar, empty and boolean tensors were read wrongly from pickled checkpoints"),
    ("serialize the process-wide patches", "P07", "concurrent lazy loads left torch's unpickling patched"),
    ("state_dict-wrapped", "P06", "tensors of files that wrap a state_dict could not be read"),
    ("optional weights that have aliases", "P16", "optional weights with aliases were dropped"),
    ("final weights from every source", "P09", "final weights of a multi-source last slice came from one source"),
    ("pass --write-threads", "P14", "--write-threads had no effect"),
    ("referenced models in the order", "P15", "models were processed in hash order, so results depended on PYTHONHASHSEED"),
    ("tensors to decorated merge methods", "P08", "tensors reached decorated methods in another order than configured"),
    ("single conditional value", "P08", "a single conditional value as a setting was rejected"),
    ("base tensor first", "P08", "methods without base_tensor argument got the base tensor at any position"),
    ("whisper decoder prefix", "P16", "whisper decoder weights were looked up under a wrong prefix"),
    ("OLMo 2's query", "P16", "OLMo 2 query/key norms were dropped"),
    ("masked-LM head transform", "P16", "BERT's masked-LM head transform was dropped, a missing pooler refused"),
    ("GPT-NeoX attention buffers", "P16", "GPT-NeoX models without attention buffers were refused"),
    ("Cohere query and key norms", "P16", "Cohere models without query/key norms were refused"),
    ("bare RoBERTa", "P16", "bare RoBERTa and DistilBERT weights were not found"),
    ("ungated feed-forward", "P16", "T5 with ungated feed-forward layers was refused"),
    ("optional projection biases", "P16", "projection biases enabled by the config were dropped"),
    ("Phi's optional", "P16", "Phi query/key layer norms were dropped"),
    ("untied Gemma", "P16", "an untied Gemma output head was dropped"),
    ("untied masked-LM decoder", "P16", "an untied masked-LM decoder bias was dropped"),
    ("Qwen-VL layer count", "P16", "Qwen-VL layer count and vocabulary size were not found"),
    ("per-layer types in step", "P09", "layer_types kept the length of the source model, so the output did not load"),
    ("layer count of sliced models with inferred", "P09", "the layer count was not written for inferred architectures"),
    ("module's layer count from", "P09", "a module's layer count came from the base model instead of its sources"),
    ("shared between merge tasks", "P11", "repeating source layers gave the base model's weights (or an error) the second time"),
    ("largest elements when no outliers", "P12", "magnitude_outliers zeroed everything when the outlier share rounded to none"),
    ("single-element rows in della", "P12", "della_magprune failed on rows of one element"),
    ("norms for rescaling in single", "P12", "rescaling a half-precision tensor gave NaN when its norm overflows"),
    ("configured dtype in arcee", "P10", "arcee_fusion wrote float32 whatever dtype was configured"),
    ("mismatched embeddings in karcher", "P10", "karcher failed on embeddings of different sizes"),
    ("SCE mask of the right shape", "P11", "SCE gave tensors of a wrong shape when no position was selected"),
    ("multislerp's stabilizing", "P10", "multislerp gave NaN for unchanged weights in half precision"),
    ("colinear vectors of any shape", "P10", "nuslerp gave NaN for equal vectors in half precision, or failed on single rows"),
    ("embedding submatrices in nuslerp", "P10", "nuslerp failed on cut embeddings"),
    ("zero weight sum in half", "P11", "normalizing weights that sum to zero gave NaN in half precision"),
    ("maximum norm's ratio", "P12", "restoring the maximum norm overflowed in half precision"),
]
EXTRA = os.path.join(root, "tools", "fixed_more.json")
if os.path.exists(EXTRA):
    PROP += [tuple(x) for x in json.load(open(EXTRA))]
path = os.path.join(root, "known_findings.json")
kf = json.load(open(path))
kf["findings"] = [f for f in kf["findings"] if f["status"] != "fixed"]
missing = []
for line in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, subj = line.split(" ", 1)
    if not subj.startswith("fix:"):
        continue
    m = [p for p in PROP if p[0] in subj]
    if len(m) != 1:
        missing.append(line)
        continue
    kf["findings"].append(dict(property=m[0][1], status="fixed", commit=h, what=m[0][2], entry=f"fixed: property={m[0][1]} {h} {m[0][2]}"))
json.dump(kf, open(path, "w"), indent=1)
print(len(kf["findings"]), "entries; unmatched:", missing)
