"""Tiny randomly initialised transformers models for the architectures mergekit supports."""

import functools
import warnings

import torch
import transformers as T

C = dict(hidden_size=8, intermediate_size=16, num_attention_heads=2, num_hidden_layers=2, vocab_size=32,
         max_position_embeddings=64, pad_token_id=0, bos_token_id=1, eos_token_id=2)
KV = dict(C, num_key_value_heads=1, head_dim=4)
ENC = dict(hidden_size=8, intermediate_size=16, num_attention_heads=2, num_hidden_layers=2, vocab_size=32,
           max_position_embeddings=64, pad_token_id=0)


def spec(cls, cfg, kw, layers_key="num_hidden_layers"):
    return dict(cls=cls, cfg=cfg, kw=kw, layers_key=layers_key)


MOE = dict(KV, num_experts=3, num_local_experts=3, num_experts_per_tok=2, moe_intermediate_size=8)

ARCHS = {
    "llama": spec("LlamaForCausalLM", "LlamaConfig", KV),
    "llama-tied": spec("LlamaForCausalLM", "LlamaConfig", dict(KV, tie_word_embeddings=True)),
    "llama-bias": spec("LlamaForCausalLM", "LlamaConfig", dict(KV, attention_bias=True, mlp_bias=True)),
    "llama-cls": spec("LlamaForSequenceClassification", "LlamaConfig", dict(KV, num_labels=3)),
    "mistral": spec("MistralForCausalLM", "MistralConfig", KV),
    "mixtral": spec("MixtralForCausalLM", "MixtralConfig", MOE),
    "qwen2": spec("Qwen2ForCausalLM", "Qwen2Config", KV),
    "qwen2-tied": spec("Qwen2ForCausalLM", "Qwen2Config", dict(KV, tie_word_embeddings=True)),
    "qwen3": spec("Qwen3ForCausalLM", "Qwen3Config", KV),
    "qwen3_moe": spec("Qwen3MoeForCausalLM", "Qwen3MoeConfig", MOE),
    "gemma": spec("GemmaForCausalLM", "GemmaConfig", KV),
    "gemma2": spec("Gemma2ForCausalLM", "Gemma2Config", KV),
    "gemma3_text": spec("Gemma3ForCausalLM", "Gemma3TextConfig", KV),
    "phi": spec("PhiForCausalLM", "PhiConfig", C),
    "phi3": spec("Phi3ForCausalLM", "Phi3Config", KV),
    "gpt2": spec("GPT2LMHeadModel", "GPT2Config", dict(n_embd=8, n_layer=2, n_head=2, vocab_size=32, n_positions=64,
                                                         bos_token_id=1, eos_token_id=2), "n_layer"),
    "gpt2-cls": spec("GPT2ForSequenceClassification", "GPT2Config", dict(n_embd=8, n_layer=2, n_head=2, vocab_size=32,
                                                                          n_positions=64, pad_token_id=0, bos_token_id=1, eos_token_id=2), "n_layer"),
    "gpt_bigcode": spec("GPTBigCodeForCausalLM", "GPTBigCodeConfig", dict(n_embd=8, n_layer=2, n_head=2, vocab_size=32,
                                                                           n_positions=64, bos_token_id=1, eos_token_id=2), "n_layer"),
    "gpt_neox": spec("GPTNeoXForCausalLM", "GPTNeoXConfig", C),
    "stablelm": spec("StableLmForCausalLM", "StableLmConfig", C),
    "starcoder2": spec("Starcoder2ForCausalLM", "Starcoder2Config", KV),
    "olmo2": spec("Olmo2ForCausalLM", "Olmo2Config", KV),
    "cohere": spec("CohereForCausalLM", "CohereConfig", KV),
    "cohere2": spec("Cohere2ForCausalLM", "Cohere2Config", KV),
    "falcon": spec("FalconForCausalLM", "FalconConfig", dict(C, new_decoder_architecture=True, tie_word_embeddings=False)),
    "granite": spec("GraniteForCausalLM", "GraniteConfig", KV),
    "glm4": spec("Glm4ForCausalLM", "Glm4Config", KV),
    "arcee": spec("ArceeForCausalLM", "ArceeConfig", KV),
    "apertus": spec("ApertusForCausalLM", "ApertusConfig", KV),
    "lfm2": spec("Lfm2ForCausalLM", "Lfm2Config", dict(KV, full_attn_idxs=[1], layer_types=["conv", "full_attention"], block_ff_dim=16)),
    "mamba": spec("MambaForCausalLM", "MambaConfig", dict(hidden_size=8, num_hidden_layers=2, vocab_size=32, state_size=4)),
    "bert": spec("BertModel", "BertConfig", ENC),
    "bert-mlm": spec("BertForMaskedLM", "BertConfig", ENC),
    "bert-cls": spec("BertForSequenceClassification", "BertConfig", dict(ENC, num_labels=3)),
    "bert-tok": spec("BertForTokenClassification", "BertConfig", dict(ENC, num_labels=3)),
    "roberta": spec("RobertaModel", "RobertaConfig", ENC),
    "roberta-mlm": spec("RobertaForMaskedLM", "RobertaConfig", ENC),
    "roberta-cls": spec("RobertaForSequenceClassification", "RobertaConfig", dict(ENC, num_labels=3)),
    "roberta-tok": spec("RobertaForTokenClassification", "RobertaConfig", dict(ENC, num_labels=3)),
    "distilbert": spec("DistilBertModel", "DistilBertConfig", dict(dim=8, hidden_dim=16, n_heads=2, n_layers=2, vocab_size=32), "n_layers"),
    "distilbert-mlm": spec("DistilBertForMaskedLM", "DistilBertConfig", dict(dim=8, hidden_dim=16, n_heads=2, n_layers=2, vocab_size=32), "n_layers"),
    "distilbert-cls": spec("DistilBertForSequenceClassification", "DistilBertConfig", dict(dim=8, hidden_dim=16, n_heads=2, n_layers=2, vocab_size=32), "n_layers"),
    "distilbert-tok": spec("DistilBertForTokenClassification", "DistilBertConfig", dict(dim=8, hidden_dim=16, n_heads=2, n_layers=2, vocab_size=32), "n_layers"),
    "t5": spec("T5ForConditionalGeneration", "T5Config", dict(d_model=8, d_kv=4, d_ff=16, num_layers=2, num_decoder_layers=2,
                                                               num_heads=2, vocab_size=32), None),
    "t5-gated": spec("T5ForConditionalGeneration", "T5Config", dict(d_model=8, d_kv=4, d_ff=16, num_layers=2, num_decoder_layers=3,
                                                               num_heads=2, vocab_size=32, feed_forward_proj="gated-gelu", tie_word_embeddings=False), None),
    "whisper": spec("WhisperForConditionalGeneration", "WhisperConfig", dict(
        d_model=8, encoder_layers=2, decoder_layers=2, encoder_attention_heads=2, decoder_attention_heads=2, encoder_ffn_dim=16,
        decoder_ffn_dim=16, vocab_size=32, num_mel_bins=4, max_source_positions=16, max_target_positions=16, pad_token_id=0,
        bos_token_id=1, eos_token_id=2, decoder_start_token_id=1), None),
    "granitemoehybrid": spec("GraniteMoeHybridForCausalLM", "GraniteMoeHybridConfig", dict(
        KV, layer_types=["mamba", "attention"], num_local_experts=2, num_experts_per_tok=1, shared_intermediate_size=8,
        mamba_n_heads=4, mamba_d_head=4, mamba_d_state=4, mamba_n_groups=1)),
    "glm4_moe": spec("Glm4MoeForCausalLM", "Glm4MoeConfig", dict(KV, n_routed_experts=2, num_experts_per_tok=1, moe_intermediate_size=8,
                                                                   first_k_dense_replace=1, n_shared_experts=1, n_group=1, topk_group=1)),
    "afmoe": spec("AfmoeForCausalLM", "AfmoeConfig", dict(KV, num_experts=2, num_experts_per_tok=1, moe_intermediate_size=8, num_dense_layers=1)),
    "mistral3": spec("Mistral3ForConditionalGeneration", "Mistral3Config", dict(
        text_config=dict(KV, model_type="mistral"), vision_config=dict(hidden_size=8, intermediate_size=16, num_hidden_layers=2, num_attention_heads=2, head_dim=4,
                                           image_size=16, patch_size=8, model_type="pixtral")), None),
    "qwen2_vl": spec("Qwen2VLForConditionalGeneration", "Qwen2VLConfig", dict(
        text_config=dict(KV, rope_scaling=dict(type="mrope", mrope_section=[1, 1, 0])),
        vision_config=dict(depth=2, embed_dim=8, hidden_size=8, num_heads=2, mlp_ratio=2, patch_size=8)), None),
    "qwen2_5_vl": spec("Qwen2_5_VLForConditionalGeneration", "Qwen2_5_VLConfig", dict(
        text_config=dict(KV, rope_scaling=dict(type="mrope", mrope_section=[1, 1, 0])),
        vision_config=dict(depth=2, hidden_size=8, out_hidden_size=8, intermediate_size=16, num_heads=2, patch_size=8)), None),
    "qwen3_vl": spec("Qwen3VLForConditionalGeneration", "Qwen3VLConfig", dict(
        text_config=dict(KV), vision_config=dict(depth=3, hidden_size=8, out_hidden_size=8, intermediate_size=16, num_heads=2, patch_size=8,
                                                 deepstack_visual_indexes=[0, 1, 2], num_position_embeddings=16)), None),
    "qwen3_vl_moe": spec("Qwen3VLMoeForConditionalGeneration", "Qwen3VLMoeConfig", dict(
        text_config=dict(MOE), vision_config=dict(depth=3, hidden_size=8, out_hidden_size=8, intermediate_size=16, num_heads=2, patch_size=8,
                                                 deepstack_visual_indexes=[0, 1, 2], num_position_embeddings=16)), None),
    "llama4": spec("Llama4ForConditionalGeneration", "Llama4Config", dict(
        text_config=dict(MOE, intermediate_size_mlp=16), vision_config=dict(hidden_size=8, intermediate_size=16, num_hidden_layers=2, num_attention_heads=2,
                                              image_size=16, patch_size=8, projector_input_dim=8, projector_output_dim=8, vision_output_dim=8)), None),
    # no definition file: handled by inference from the checkpoint
    "auto-opt": spec("OPTForCausalLM", "OPTConfig", dict(hidden_size=8, ffn_dim=16, num_attention_heads=2, num_hidden_layers=2, vocab_size=32,
                                                          max_position_embeddings=64, word_embed_proj_dim=8)),
    "auto-olmo": spec("OlmoForCausalLM", "OlmoConfig", KV),
    "auto-gptj": spec("GPTJForCausalLM", "GPTJConfig", dict(n_embd=8, n_layer=2, n_head=2, vocab_size=32, n_positions=64, rotary_dim=4, bos_token_id=1, eos_token_id=2), "n_layer"),
    "auto-bloom": spec("BloomForCausalLM", "BloomConfig", dict(hidden_size=8, n_layer=2, n_head=2, vocab_size=32), "n_layer"),
    "auto-smollm3": spec("SmolLM3ForCausalLM", "SmolLM3Config", KV),
    "auto-qwen2moe": spec("Qwen2MoeForCausalLM", "Qwen2MoeConfig", dict(MOE, shared_expert_intermediate_size=8)),
}


def make(name, seed=0, dtype=torch.float32, layers=None, **over):
    sp = ARCHS[name]
    kw = dict(sp["kw"], **over)
    if layers is not None and sp["layers_key"]:
        kw[sp["layers_key"]] = layers
        if "layer_types" in kw:
            lt = kw["layer_types"]
            kw["layer_types"] = [lt[i % len(lt)] for i in range(layers)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cfg = getattr(T, sp["cfg"])(**kw)
        torch.manual_seed(seed)
        m = getattr(T, sp["cls"])(cfg)
    with torch.no_grad():
        g = torch.Generator().manual_seed(seed + 1)
        done = set()
        for p in list(m.parameters()) + list(m.buffers()):
            if p.data_ptr() in done or not p.is_floating_point():
                continue
            done.add(p.data_ptr())
            p.copy_(torch.randn(p.shape, generator=g))
    m = m.to(dtype).eval()
    cfg.architectures = [sp["cls"]]
    return m
