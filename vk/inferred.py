"""Tiny models of the transformers classes mergekit has no definition of.

Each entry is class:configuration:index of the keyword arguments."""

import torch
import transformers as T
from transformers.models.auto.configuration_auto import CONFIG_MAPPING

KWS = [dict(hidden_size=8, intermediate_size=16, num_attention_heads=2, num_key_value_heads=1, head_dim=4, num_hidden_layers=2, vocab_size=32, max_position_embeddings=64, pad_token_id=0,bos_token_id=1,eos_token_id=2,
   num_experts=3,num_local_experts=3,num_experts_per_tok=2,moe_intermediate_size=8,n_routed_experts=2,n_group=1,topk_group=1),
 dict(hidden_size=8, intermediate_size=16, num_attention_heads=2, num_hidden_layers=2, vocab_size=32, max_position_embeddings=64, pad_token_id=0,bos_token_id=1,eos_token_id=2),
 dict(d_model=8, encoder_layers=2, decoder_layers=2, encoder_attention_heads=2, decoder_attention_heads=2, encoder_ffn_dim=16, decoder_ffn_dim=16, vocab_size=32, max_position_embeddings=64, pad_token_id=0,bos_token_id=1,eos_token_id=2,d_kv=4,d_ff=16,num_layers=2,num_heads=2),
 dict(n_embd=8,n_layer=2,n_head=2,vocab_size=32,n_positions=64,rotary_dim=4,bos_token_id=1,eos_token_id=2,d_model=8,n_layers=2,n_heads=2,num_layers=2,num_heads=2,hidden_size=8,attention_types=[[["global"],2]]),
]

ZOO = """
AfmoeForCausalLM:afmoe:0 AriaTextForCausalLM:aria_text:0 BartForCausalLM:bart:2 BertLMHeadModel:bert:0
BertGenerationDecoder:bert-generation:0 BigBirdForCausalLM:big_bird:0 BigBirdPegasusForCausalLM:bigbird_pegasus:2 BioGptForCausalLM:biogpt:0
BitNetForCausalLM:bitnet:0 BlenderbotForCausalLM:blenderbot:2 BlenderbotSmallForCausalLM:blenderbot-small:2 BloomForCausalLM:bloom:0
CamembertForCausalLM:camembert:0 CodeGenForCausalLM:codegen:0 Cohere2MoeForCausalLM:cohere2_moe:0 CTRLLMHeadModel:ctrl:0
CwmForCausalLM:cwm:0 Data2VecTextForCausalLM:data2vec-text:0 DeepseekV4ForCausalLM:deepseek_v4:0 DiffLlamaForCausalLM:diffllama:0
DogeForCausalLM:doge:0 ElectraForCausalLM:electra:0 ErnieForCausalLM:ernie:0 Ernie4_5ForCausalLM:ernie4_5:0
Ernie4_5_MoeForCausalLM:ernie4_5_moe:0 Exaone4ForCausalLM:exaone4:0 ExaoneMoeForCausalLM:exaone_moe:0 FalconH1ForCausalLM:falcon_h1:0
FalconMambaForCausalLM:falcon_mamba:0 FlexOlmoForCausalLM:flex_olmo:0 FuyuForCausalLM:fuyu:0 Gemma4UnifiedForCausalLM:gemma4_unified_text:0
GlmForCausalLM:glm:0 GPTNeoForCausalLM:gpt_neo:3 GPTNeoXJapaneseForCausalLM:gpt_neox_japanese:0 GptOssForCausalLM:gpt_oss:0
GPTJForCausalLM:gptj:0 GraniteMoeForCausalLM:granitemoe:0 GraniteMoeSharedForCausalLM:granitemoeshared:0 HeliumForCausalLM:helium:0
HrmTextForCausalLM:hrm_text:0 HunYuanDenseV1ForCausalLM:hunyuan_v1_dense:0 HunYuanMoEV1ForCausalLM:hunyuan_v1_moe:0 HYV3ForCausalLM:hy_v3:0
HyperCLOVAXForCausalLM:hyperclovax:0 Jais2ForCausalLM:jais2:0 JambaForCausalLM:jamba:0 JetMoeForCausalLM:jetmoe:0 LagunaForCausalLM:laguna:0
MarianForCausalLM:marian:2 MBartForCausalLM:mbart:2 MegatronBertForCausalLM:megatron-bert:0 MellumForCausalLM:mellum:0
MiniMaxForCausalLM:minimax:0 MiniMaxM2ForCausalLM:minimax_m2:0 MiniMaxM3VLForCausalLM:minimax_m3_vl_text:0 MinistralForCausalLM:ministral:0
Ministral3ForCausalLM:ministral3:0 ModernBertDecoderForCausalLM:modernbert-decoder:0 MptForCausalLM:mpt:0 MvpForCausalLM:mvp:2
NanoChatForCausalLM:nanochat:0 NemotronForCausalLM:nemotron:0 NemotronHForCausalLM:nemotron_h:0 OlmoForCausalLM:olmo:0
Olmo3ForCausalLM:olmo3:0 OlmoHybridForCausalLM:olmo_hybrid:0 OlmoeForCausalLM:olmoe:0 OpenAIGPTLMHeadModel:openai-gpt:0 OPTForCausalLM:opt:0
PegasusForCausalLM:pegasus:2 PersimmonForCausalLM:persimmon:0 PhimoeForCausalLM:phimoe:0 PLBartForCausalLM:plbart:2
Qwen2MoeForCausalLM:qwen2_moe:0 Qwen3NextForCausalLM:qwen3_next:0 RecurrentGemmaForCausalLM:recurrent_gemma:0 RemBertForCausalLM:rembert:0
RobertaForCausalLM:roberta:0 RobertaPreLayerNormForCausalLM:roberta-prelayernorm:0 RoFormerForCausalLM:roformer:0 RwkvForCausalLM:rwkv:0
SeedOssForCausalLM:seed_oss:0 SmolLM3ForCausalLM:smollm3:0 SolarOpenForCausalLM:solar_open:0 TrOCRForCausalLM:trocr:0
VaultGemmaForCausalLM:vaultgemma:0 WhisperForCausalLM:whisper:2 XGLMForCausalLM:xglm:0 XLMWithLMHeadModel:xlm:0
XLMRobertaForCausalLM:xlm-roberta:0 XLMRobertaXLForCausalLM:xlm-roberta-xl:0 XLNetLMHeadModel:xlnet:3 xLSTMForCausalLM:xlstm:0
XmodForCausalLM:xmod:0 BartForConditionalGeneration:bart:2 BigBirdPegasusForConditionalGeneration:bigbird_pegasus:2
BlenderbotForConditionalGeneration:blenderbot:2 BlenderbotSmallForConditionalGeneration:blenderbot-small:2
FSMTForConditionalGeneration:fsmt:2 LEDForConditionalGeneration:led:2 LongT5ForConditionalGeneration:longt5:0
M2M100ForConditionalGeneration:m2m_100:2 MarianMTModel:marian:2 MBartForConditionalGeneration:mbart:2 MT5ForConditionalGeneration:mt5:0
MvpForConditionalGeneration:mvp:2 NllbMoeForConditionalGeneration:nllb-moe:2 PegasusForConditionalGeneration:pegasus:2
PegasusXForConditionalGeneration:pegasus_x:2 PLBartForConditionalGeneration:plbart:2
SwitchTransformersForConditionalGeneration:switch_transformers:2 UMT5ForConditionalGeneration:umt5:0 AlbertForMaskedLM:albert:0
BigBirdForMaskedLM:big_bird:0 CamembertForMaskedLM:camembert:0 ConvBertForMaskedLM:convbert:0 Data2VecTextForMaskedLM:data2vec-text:0
DebertaForMaskedLM:deberta:0 DebertaV2ForMaskedLM:deberta-v2:0 ElectraForMaskedLM:electra:0 ErnieForMaskedLM:ernie:0 EsmForMaskedLM:esm:0
EuroBertForMaskedLM:eurobert:0 FlaubertWithLMHeadModel:flaubert:0 FNetForMaskedLM:fnet:0 IBertForMaskedLM:ibert:0
JinaEmbeddingsV3ForMaskedLM:jina_embeddings_v3:0 LayoutLMForMaskedLM:layoutlm:0 LongformerForMaskedLM:longformer:0
MegatronBertForMaskedLM:megatron-bert:0 ModernBertForMaskedLM:modernbert:0 MPNetForMaskedLM:mpnet:0 MraForMaskedLM:mra:0
NomicBertForMaskedLM:nomic_bert:0 NystromformerForMaskedLM:nystromformer:0 RemBertForMaskedLM:rembert:0
RobertaPreLayerNormForMaskedLM:roberta-prelayernorm:0 RoFormerForMaskedLM:roformer:0 TapasForMaskedLM:tapas:0
XLMRobertaForMaskedLM:xlm-roberta:0 XLMRobertaXLForMaskedLM:xlm-roberta-xl:0 XmodForMaskedLM:xmod:0 YosoForMaskedLM:yoso:0
AlbertForSequenceClassification:albert:0 ArceeForSequenceClassification:arcee:0 BartForSequenceClassification:bart:2
BigBirdForSequenceClassification:big_bird:0 BigBirdPegasusForSequenceClassification:bigbird_pegasus:2
BioGptForSequenceClassification:biogpt:0 BloomForSequenceClassification:bloom:0 CamembertForSequenceClassification:camembert:0
CanineForSequenceClassification:canine:0 ConvBertForSequenceClassification:convbert:0 CTRLForSequenceClassification:ctrl:0
Data2VecTextForSequenceClassification:data2vec-text:0 DebertaForSequenceClassification:deberta:0
DebertaV2ForSequenceClassification:deberta-v2:0 DiffLlamaForSequenceClassification:diffllama:0 DogeForSequenceClassification:doge:0
ElectraForSequenceClassification:electra:0 ErnieForSequenceClassification:ernie:0 EsmForSequenceClassification:esm:0
EuroBertForSequenceClassification:eurobert:0 Exaone4ForSequenceClassification:exaone4:0 FalconForSequenceClassification:falcon:1
FlaubertForSequenceClassification:flaubert:0 FNetForSequenceClassification:fnet:0 GemmaForSequenceClassification:gemma:0
Gemma2ForSequenceClassification:gemma2:0 Gemma3TextForSequenceClassification:gemma3_text:0 GlmForSequenceClassification:glm:0
Glm4ForSequenceClassification:glm4:0 GPTBigCodeForSequenceClassification:gpt_bigcode:0 GPTNeoForSequenceClassification:gpt_neo:3
GPTNeoXForSequenceClassification:gpt_neox:0 GptOssForSequenceClassification:gpt_oss:0 GPTJForSequenceClassification:gptj:0
HeliumForSequenceClassification:helium:0 HunYuanDenseV1ForSequenceClassification:hunyuan_v1_dense:0
HunYuanMoEV1ForSequenceClassification:hunyuan_v1_moe:0 IBertForSequenceClassification:ibert:0 JambaForSequenceClassification:jamba:0
JetMoeForSequenceClassification:jetmoe:0 JinaEmbeddingsV3ForSequenceClassification:jina_embeddings_v3:0
LayoutLMForSequenceClassification:layoutlm:0 LiltForSequenceClassification:lilt:0 LongformerForSequenceClassification:longformer:0
MBartForSequenceClassification:mbart:2 MegatronBertForSequenceClassification:megatron-bert:0 MiniMaxForSequenceClassification:minimax:0
MinistralForSequenceClassification:ministral:0 Ministral3ForSequenceClassification:ministral3:0 MistralForSequenceClassification:mistral:0
MixtralForSequenceClassification:mixtral:0 MobileBertForSequenceClassification:mobilebert:0 ModernBertForSequenceClassification:modernbert:0
ModernBertDecoderForSequenceClassification:modernbert-decoder:0 MPNetForSequenceClassification:mpnet:0 MptForSequenceClassification:mpt:0
MraForSequenceClassification:mra:0 MT5ForSequenceClassification:mt5:0 MvpForSequenceClassification:mvp:2
NemotronForSequenceClassification:nemotron:0 NomicBertForSequenceClassification:nomic_bert:0
NystromformerForSequenceClassification:nystromformer:0 OlmoForSequenceClassification:olmo:0 Olmo2ForSequenceClassification:olmo2:0
Olmo3ForSequenceClassification:olmo3:0 OpenAIGPTForSequenceClassification:openai-gpt:0 OPTForSequenceClassification:opt:0
PersimmonForSequenceClassification:persimmon:0 PhiForSequenceClassification:phi:0 Phi3ForSequenceClassification:phi3:0
PhimoeForSequenceClassification:phimoe:0 PLBartForSequenceClassification:plbart:2 Qwen2ForSequenceClassification:qwen2:0
Qwen2MoeForSequenceClassification:qwen2_moe:0 Qwen3ForSequenceClassification:qwen3:0 Qwen3_5TextForSequenceClassification:qwen3_5_text:0
Qwen3MoeForSequenceClassification:qwen3_moe:0 Qwen3NextForSequenceClassification:qwen3_next:0 RemBertForSequenceClassification:rembert:0
RobertaPreLayerNormForSequenceClassification:roberta-prelayernorm:0 RoFormerForSequenceClassification:roformer:0
SeedOssForSequenceClassification:seed_oss:0 SmolLM3ForSequenceClassification:smollm3:0 StableLmForSequenceClassification:stablelm:0
Starcoder2ForSequenceClassification:starcoder2:0 T5ForSequenceClassification:t5:0 TapasForSequenceClassification:tapas:0
UMT5ForSequenceClassification:umt5:0 XLMForSequenceClassification:xlm:0 XLMRobertaForSequenceClassification:xlm-roberta:0
XLMRobertaXLForSequenceClassification:xlm-roberta-xl:0 XLNetForSequenceClassification:xlnet:3 XmodForSequenceClassification:xmod:0
YosoForSequenceClassification:yoso:0 BeitForImageClassification:beit:0 Data2VecVisionForImageClassification:data2vec-vision:0
DeiTForImageClassification:deit:0 DeiTForImageClassificationWithTeacher:deit:0 Dinov2ForImageClassification:dinov2:0
Dinov2WithRegistersForImageClassification:dinov2_with_registers:0 IJepaForImageClassification:ijepa:0
ImageGPTForImageClassification:imagegpt:0 ViTForImageClassification:vit:0 ViTMSNForImageClassification:vit_msn:0
ASTForAudioClassification:audio-spectrogram-transformer:0 Wav2Vec2BertForSequenceClassification:wav2vec2-bert:0
WhisperForAudioClassification:whisper:0 UdopForConditionalGeneration:udop:2 AlbertForQuestionAnswering:albert:0
ArceeForQuestionAnswering:arcee:0 BartForQuestionAnswering:bart:2 BertForQuestionAnswering:bert:0 BigBirdForQuestionAnswering:big_bird:0
BigBirdPegasusForQuestionAnswering:bigbird_pegasus:2 BloomForQuestionAnswering:bloom:0 CamembertForQuestionAnswering:camembert:0
CanineForQuestionAnswering:canine:0 ConvBertForQuestionAnswering:convbert:0 Data2VecTextForQuestionAnswering:data2vec-text:0
DebertaForQuestionAnswering:deberta:0 DebertaV2ForQuestionAnswering:deberta-v2:0 DiffLlamaForQuestionAnswering:diffllama:0
DistilBertForQuestionAnswering:distilbert:0 ElectraForQuestionAnswering:electra:0 ErnieForQuestionAnswering:ernie:0
Exaone4ForQuestionAnswering:exaone4:0 FalconForQuestionAnswering:falcon:1 FlaubertForQuestionAnsweringSimple:flaubert:0
FNetForQuestionAnswering:fnet:0 GPT2ForQuestionAnswering:gpt2:0 GPTNeoForQuestionAnswering:gpt_neo:3 GPTNeoXForQuestionAnswering:gpt_neox:0
GPTJForQuestionAnswering:gptj:0 IBertForQuestionAnswering:ibert:0 JinaEmbeddingsV3ForQuestionAnswering:jina_embeddings_v3:0
LEDForQuestionAnswering:led:2 LiltForQuestionAnswering:lilt:0 LlamaForQuestionAnswering:llama:0 LongformerForQuestionAnswering:longformer:0
LxmertForQuestionAnswering:lxmert:0 MBartForQuestionAnswering:mbart:2 MegatronBertForQuestionAnswering:megatron-bert:0
MiniMaxForQuestionAnswering:minimax:0 MinistralForQuestionAnswering:ministral:0 Ministral3ForQuestionAnswering:ministral3:0
MistralForQuestionAnswering:mistral:0 MixtralForQuestionAnswering:mixtral:0 MobileBertForQuestionAnswering:mobilebert:0
ModernBertForQuestionAnswering:modernbert:0 MPNetForQuestionAnswering:mpnet:0 MptForQuestionAnswering:mpt:0 MraForQuestionAnswering:mra:0
MT5ForQuestionAnswering:mt5:0 MvpForQuestionAnswering:mvp:2 NemotronForQuestionAnswering:nemotron:0
NystromformerForQuestionAnswering:nystromformer:0 OPTForQuestionAnswering:opt:0 Qwen2ForQuestionAnswering:qwen2:0
Qwen2MoeForQuestionAnswering:qwen2_moe:0 Qwen3ForQuestionAnswering:qwen3:0 Qwen3MoeForQuestionAnswering:qwen3_moe:0
Qwen3NextForQuestionAnswering:qwen3_next:0 RemBertForQuestionAnswering:rembert:0 RobertaForQuestionAnswering:roberta:0
RobertaPreLayerNormForQuestionAnswering:roberta-prelayernorm:0 RoFormerForQuestionAnswering:roformer:0
SeedOssForQuestionAnswering:seed_oss:0 SmolLM3ForQuestionAnswering:smollm3:0 SplinterForQuestionAnswering:splinter:0
T5ForQuestionAnswering:t5:0 UMT5ForQuestionAnswering:umt5:0 XLMForQuestionAnsweringSimple:xlm:0 XLMRobertaForQuestionAnswering:xlm-roberta:0
XLMRobertaXLForQuestionAnswering:xlm-roberta-xl:0 XLNetForQuestionAnsweringSimple:xlnet:3 XmodForQuestionAnswering:xmod:0
YosoForQuestionAnswering:yoso:0
""".split()

# vocabulary-sized tensors besides embeddings and output layers, or a vocabulary the config only holds in a nested section
OTHER_VOCAB = ['DeepseekV4ForCausalLM', 'FuyuForCausalLM', 'EsmForMaskedLM', 'IBertForMaskedLM', 'MPNetForMaskedLM', 'IBertForSequenceClassification', 'IBertForTokenClassification', 'MarianForCausalLM', 'FSMTForConditionalGeneration']


def make(entry, seed):
    c, k, i = entry.split(":")
    torch.manual_seed(seed)
    m = getattr(T, c)(CONFIG_MAPPING[k](**KWS[int(i)]))
    m.eval()
    g = torch.Generator().manual_seed(seed)
    done = set()
    with torch.no_grad():
        for p in m.parameters():
            if p.data_ptr() not in done and p.is_floating_point():
                done.add(p.data_ptr())
                p.copy_(torch.randn(p.shape, generator=g))
    return m
