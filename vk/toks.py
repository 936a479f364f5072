"""Tiny tokenizers written as files."""

import json
import os

SPECIAL = ["<unk>", "<s>", "</s>"]
CHARS = list("abcdefghijklmnop")


def write_tokenizer(path, tokens, added=(), kind="BPE", merges=(), special=(), chat_template=None, extra=None, ids=None):
    """tokens: list in id order; added: extra added tokens appended after them."""
    os.makedirs(path, exist_ok=True)
    vocab = ids or {t: i for i, t in enumerate(tokens)}
    at = []
    for i, t in enumerate(list(added)):
        at.append(dict(id=vocab.get(t, len(tokens) + i), content=t, single_word=False, lstrip=False, rstrip=False, normalized=False, special=t in special))
    for t in SPECIAL:
        if t in vocab:
            at.append(dict(id=vocab[t], content=t, single_word=False, lstrip=False, rstrip=False, normalized=False, special=True))
    at.sort(key=lambda e: e["id"])
    if kind == "BPE":
        model = dict(type="BPE", dropout=None, unk_token="<unk>" if "<unk>" in vocab else None, continuing_subword_prefix=None,
                     end_of_word_suffix=None, fuse_unk=False, byte_fallback=False, vocab=vocab, merges=[list(m) for m in merges])
    elif kind == "WordLevel":
        model = dict(type="WordLevel", vocab=vocab, unk_token="<unk>")
    else:
        raise ValueError(kind)
    doc = dict(version="1.0", truncation=None, padding=None, added_tokens=at, normalizer=None,
               pre_tokenizer=dict(type="Whitespace"), post_processor=None, decoder=None, model=model)
    with open(os.path.join(path, "tokenizer.json"), "w") as f:
        json.dump(doc, f)
    cfg = dict(tokenizer_class="PreTrainedTokenizerFast", unk_token="<unk>", bos_token="<s>", eos_token="</s>", model_max_length=128)
    cfg.update(extra or {})
    if chat_template is not None:
        cfg["chat_template"] = chat_template
    with open(os.path.join(path, "tokenizer_config.json"), "w") as f:
        json.dump(cfg, f)


def load(path):
    import transformers

    return transformers.AutoTokenizer.from_pretrained(path)
