"""writes properties.jsonl and MANIFEST.json (run after editing; not part of any check)"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, tech, note):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None), tech=tech, note=note))


I, H, C, F = "inputs", "histories", "configurations", "fault_sequences"

prop("C01", "Segmentation reports exactly the intact telemetry frames",
     "Scanning a received byte buffer labels exactly the bytes of the intact frames found left to right (start marker, known message id, the id's payload length, correct checksum) with their message, "
     "labels everything else unknown, and returns the structure {frame offset: message id} of those frames. The bit validity map marks exactly the bits of the labelled bytes, and damaged, truncated or "
     "nested look-alike frames never hide or invent an intact one.",
     [I, F], "every buffer: any mix of intact, corrupted, truncated, nested and back-to-back frames and noise",
     "the tests segment a few recorded buffers; false frames inside payloads, frames cut by the buffer end and corrupted lengths never occur there",
     ["inference/buffer_segmentation.py", "protocol_meta/msg_header.py", "protocol_meta/protocol_meta.py"],
     [("left-to-right frame scan with checksum test", "inference/buffer_segmentation.py: segment_buffer")], ["return value of segment_buffer"],
     "reference-model monitor: an independent scanner derived from the dialect XML judges every segmentation of a hostile buffer workload",
     "the reference scanner and the message table generated from the XML are trusted")
prop("C02", "Damaged regions and field view agree with the segmentation",
     "Given a buffer and its labelling, the reported damaged regions are exactly the maximal runs of unknown bytes (offset and content), in order. The field view lists exactly the fields of the recognised "
     "messages with their values, and is empty when no message is present.",
     [I], "every labelling of every buffer, including none, all, first or last bytes damaged",
     "tests use one damaged and one clean buffer", ["inference/buffer_segmentation.py"],
     [("region grouping", "inference/buffer_segmentation.py: bad_buffer_parts"), ("field extraction", "inference/buffer_segmentation.py: get_msg_fields")],
     ["returned regions and fields"], "reference-model monitor over labelled buffers", "the recomputation of regions and field values is trusted")
prop("C03", "Header validity and nearest valid header are exact",
     "A 6 byte frame header is accepted exactly when it has the start marker, a known message id and that id's payload length. The nearest valid header returned for any 6 bytes is valid, respects a given payload "
     "limit, and no other valid header allowed by the limit has a smaller Hamming distance; other lengths are refused.",
     [I], "all ids, lengths and markers; all 6 byte strings; all payload limits",
     "tests sample a few headers with random bytes", ["inference/buffer_segmentation.py", "protocol_meta/msg_header.py", "protocol_meta/protocol_meta.py"],
     [("protocol parser", "protocol_meta/protocol_meta.py / inference/buffer_segmentation.py")], ["return values"],
     "reference-model monitor; validity enumerated over marker, length and id", "message table generated from the XML")
prop("C04", "Frame headers are built and parsed faithfully",
     "A header built from a message id, system, component and sequence number serialises to the start marker, that id's payload length, and the three numbers and id in wire order, and refuses unknown ids and numbers "
     "outside a byte. Parsing 6 header bytes gives back exactly the same fields (with a forced id, the id and its length are taken instead), and header distances count differing bits.",
     [I], "every id, every number inside and outside range, every 6 byte string", "tests use random valid ids only", ["protocol_meta/msg_header.py", "protocol_meta/protocol_meta.py"],
     [("header class", "protocol_meta/msg_header.py")], ["serialised bytes, attributes, exceptions"], "reference-model monitor", "message table generated from the XML")
prop("C05", "Messages of both dialects survive the wire, and corruption is detected",
     "Every message of the vehicle and of the minimal dialect encodes to the frame its XML definition prescribes (field order, little endian, length, checksum with the message's seed) and decodes back to equal field values. "
     "A frame with any single flipped bit, any burst of up to 16 bits, or a changed length is never decoded as an intact message.",
     [I, F], "every message, every field value, every single bit and burst error", "tests pack one or two messages with one value each; no corruption",
     ["mavlink_utils/HC_dialect.py", "mavlink_utils/minimal_dialect.py", "mavlink_utils/utils.py"],
     [("generated pack / decode", "mavlink_utils/*_dialect.py")], ["packed bytes, decoded messages, raised errors"], "reference-model monitor with fault injection on every frame bit",
     "the specification table vt/hc_spec.json, vt/min_spec.json (from the XML definitions)")
prop("C06", "Stream parsing does not depend on chunking and loses no byte",
     "Feeding a byte stream in any chunks delivers the same messages in the same order, each intact frame exactly once, and every other byte is reported as bad data or still pending, so that no byte is lost or invented. "
     "A strict parser raises on bad data where a tolerant one reports it, parsing goes on after an error, and a sender numbers its messages consecutively modulo 256 and writes each to its file and callback exactly once.",
     [I, F, H], "every stream and every way of cutting it into chunks", "tests never feed partial frames", ["mavlink_utils/HC_dialect.py", "mavlink_utils/minimal_dialect.py"],
     [("stream parser", "parse_char / parse_buffer"), ("sender", "send")], ["messages delivered, bytes written"], "trace checker: byte conservation and chunking independence over recorded parser events", "the reference frame scanner")
prop("C07", "Buffer structures are matched, registered and compared faithfully",
     "A buffer adheres to a structure exactly when at every offset of the structure a 6 byte header lies within the buffer and carries that message's id; short buffers and unknown ids "
     "simply do not adhere. Registering accepts, counts and keeps in order exactly the adhering buffers and refuses all others with an error, changing neither the structure nor any other "
     "structure. Structures are equal exactly when they place the same messages at the same offsets, a plain mapping of the same content counting as such, and nothing else ever does.",
     [I, H], "every structure, every buffer, every registration order", "tests use one structure", ["inference/buffer_segmentation.py"],
     [("structure registry", "inference/buffer_segmentation.py: BufferStructure")], ["return values, registry"], "reference-model monitor", "-")
prop("C08", "Bit positions map to the right telemetry fields and values",
     "For every structure, each bit of a buffer maps to the message field whose wire bytes contain it, or to none (headers, checksums, gaps), and each field's value is the one its bytes "
     "encode. The report of fields damaged by given bit errors names, for each error which lies inside a field and in order of position, that field; errors elsewhere are ignored.",
     [I], "all messages, structures in any order with gaps, all error positions", "tests use one structure and few bits", ["inference/statistical_models.py"],
     [("field layout", "inference/statistical_models.py: BufferModel")], ["returned mapping, values, damaged fields"], "reference-model monitor", "message table generated from the XML")
prop("C09", "Field statistics are those of the remembered samples",
     "A field model reports the count, mean and standard deviation of exactly the last window of samples added (all when unlimited), however they were added. The probability given to a value is the two-sided Gaussian tail of "
     "its distance to the mean (for a constant history one if equal and zero otherwise), and values which are not finite never poison the statistics.",
     [I, H], "every sample history, window and order of additions and reads", "tests add a handful of small integers", ["inference/statistical_models.py"],
     [("field model", "inference/statistical_models.py: FieldModel")], ["reported statistics and probabilities"], "reference-model monitor in exact rational arithmetic", "tolerance 1e-6 on probabilities")
prop("C10", "The buffer model learns, predicts and persists without distortion",
     "After any history of buffers with any mixture of structures, each field's model holds exactly the values of that field, in order and within the window, and predictions give every field (and each of its bits) its own "
     "probability and deviation, bits outside fields and fields never seen none. Saving and loading yields a model which predicts the same and goes on learning the same.",
     [I, H, C], "every learning history, structure mix, window, save point", "tests check one structure, one window, few buffers", ["inference/statistical_models.py"],
     [("buffer model", "inference/statistical_models.py: BufferModel")], ["predictions, stored models"], "reference-model monitor over learning histories with save/load faults", "-")
prop("C11", "Numbers become the wire bits of their field type",
     "A number converted to bits of a field type gives exactly the bits of that type's wire encoding, rounded to the nearest and clamped into the type's range for integers. The bits a model proposes for given "
     "positions are those of the mean of the field which contains them, and zero for fields without data.",
     [I], "every field type and number, every learned model, every set of bit positions", "tests convert a few small numbers", ["inference/statistical_models.py"],
     [("conversion", "inference/statistical_models.py: num2bits, bitwise_model_mean")], ["returned bits"], "reference-model monitor", "ties of rounding are not judged")
prop("C12", "Decoders report what the error correcting code decided",
     "Every decoder reports success exactly when the word it returns satisfies all parity checks (bit flipping decoders: never otherwise), returns the word, soft values, iterations and syndrome of the code's last attempt, and never tries again after a success. Clean code "
     "words are returned unchanged as successes, labels follow the configured classification (one type, round robin, or classifier with -1 while training), and neither the received word nor the code is modified.",
     [I, H, C, F], "all decoders, settings, codes, buffer histories and channel errors", "each test decodes a few buffers at one setting with one code",
     ["decoders/classifiying_decoder.py", "decoders/entropy_bitwise_decoder.py", "decoders/mavlink_decoder.py", "decoders/combined_decoder.py", "decoders/combined_unified_decoder.py",
      "decoders/classifying_DUDE_decoder.py", "decoders/turbo.py"],
     [("decode_buffer of every decoder", "decoders/*.py")], ["decode_buffer results", "calls of the inner LDPC decoder"], "boundary spy on the inner decoder plus parity check oracle on every result",
     "the ldpc package's real decoders are trusted to be what they are; they are only observed")
prop("C13", "Learned bit statistics are a recount of the buffers learned",
     "The distribution of each model bit reported by the classifying and the two-model decoders equals the frequencies over the last window of buffers learned for that data type, each buffer once: the decoded word after a success, else the received word (two-model: recovered telemetry, and all), corrected for the assumed flip probability "
     "or rescaled as the Bayes estimator prescribes. The structural bits are exactly those with entropy below the threshold, training buffers are not learned, and supplied models never change.",
     [H, C, F], "all histories of successes and failures, types, windows, estimators", "tests check one or two updates without window overflow or clusters",
     ["decoders/classifiying_decoder.py", "decoders/entropy_bitwise_decoder.py", "utils/information_theory.py"],
     [("model update", "update_model of the decoders")], ["reported distribution and structural bits"], "reference-model monitor (recount) over decoding histories", "entropies within 1e-9 of the threshold are not judged")
prop("C14", "The classifying decoder adds bounded, confidence-weighted model evidence",
     "The soft word handed to the code is the received word plus, on structural bits only, the log ratio of that data type's learned (or the supplied) distribution weighted by model "
     "confidence, the whole clipped to the given factor of the largest received magnitude. With less than two buffers learned, or during training, no evidence is added, bits which are "
     "not structural get none, and types never mix.",
     [H, C, I], "all histories, thresholds, clipping factors, confidence settings, received words", "tests compare end results for few buffers, not the composed input",
     ["decoders/classifiying_decoder.py"], [("model prediction", "decoders/classifiying_decoder.py: model_prediction, decode_buffer")], ["word handed to the inner decoder"], "boundary spy with recomputation of every composed word", "-")
prop("C15", "Bit flipping decoders get the model evidence their method prescribes",
     "Weighted bit flipping and Gallager decoders get what the chosen method prescribes, always from the model of the buffer's own type: 0 adds the evidence (scaled down to the channel's "
     "peak) to the samples and rescales the sum to that peak; 1 gives it as prior reliability, negative where it contradicts the channel, scaled to at most one and the channel's peak, "
     "and 2 likewise with the channel's root mean square over the mean check weight in place of one; 3 forces structural bits to their majority once a full window was learned. A Gallager "
     "decoder gets the resulting hard word. Without evidence, or while the classifier trains, the plain received word is decoded without priors.",
     [H, C, I], "all methods, histories, types, thresholds", "tests cover one method with one cluster", ["decoders/classifiying_decoder.py"],
     [("reliability methods 0-3", "decoders/classifiying_decoder.py")], ["arguments of the inner bit flipping decoders"], "boundary spy with recomputation", "-")
prop("C16", "Two-stage entropy decoders try plainly first and correct by constant bits",
     "The first attempt always uses the received word as is, and a second one happens only after it failed: with enough learned buffers the low entropy bits get their learned value "
     "(soft: bounded log ratio added; hard: set to the majority), all others are unchanged. Exactly the buffers whose final word consists entirely of telemetry frames are learned, within "
     "the window, the number of messages found is reported, and supplied models never change.",
     [H, C, F], "all histories of success, recovery and failure, thresholds, windows", "tests decode few buffers with a preset model", ["decoders/entropy_bitwise_decoder.py"],
     [("two stage decoding", "decoders/entropy_bitwise_decoder.py")], ["words handed to the inner decoder"], "boundary spy with recomputation", "-")
prop("C17", "Two models are weighed by the chosen confidence scheme",
     "After a failed plain attempt, the second attempt's word is the received word plus, on low entropy bits of the model of recovered telemetry and of the model of all buffers, their "
     "log ratios, each weighted by the confidence the chosen scheme (six of them) assigns from the models' sizes and variances, the whole clipped to the given factor of the largest "
     "received magnitude. The first model learns the decoded words which consist entirely of telemetry, the second learns every buffer: the decoded word after a plain success or if it is "
     "all telemetry, else the received word. Both estimators and the flip correction enter as prescribed, and models without data add nothing.",
     [H, C], "all six schemes, both estimators, all histories", "tests construct the decoder with one scheme and never look at the composed word", ["decoders/entropy_bitwise_decoder.py"],
     [("model weighting", "decoders/entropy_bitwise_decoder.py: EntropyBitwiseWeightedDecoder")], ["word of the second attempt"], "boundary spy with recomputation", "-")
prop("C18", "Field plausibility rectifies exactly the right received bits",
     "With a known structure, each received bit of a plausible field is scaled by the valid factor, of an implausible field by the invalid factor (both tempered by confidence while learning), bits of constant fields received differently are overruled by the constant at full strength, and bits of recognised "
     "messages are reinforced; everything else, everything before a structure is known, and everything during training passes unchanged. The reported recognised bits and plausible / implausible fields agree with that, "
     "and each buffer is learned once: decoded word after success (learning the structure of its type first if unknown), else received word.",
     [H, C, F], "all telemetry histories, types, thresholds, factors, passes, supplied or learned models", "tests run a couple of buffers and look at the success flag", ["decoders/mavlink_decoder.py", "inference/statistical_models.py"],
     [("rectification", "decoders/mavlink_decoder.py: model_prediction")], ["words handed to the inner decoder, reported lists"], "boundary spy with recomputation", "bits at a threshold (2e-6) or with statistics beyond double precision are not judged")
prop("C19", "The combined decoder rectifies fields, then adds bit evidence",
     "The word handed to the code is the field-rectified received word plus the bounded, confidence-weighted evidence of the bit statistics of the same type on its low entropy bits. Both models learn every buffer of their type once, the decoded word after success and else the received one, and "
     "before any structure or enough buffers are known the corresponding part leaves the word unchanged.",
     [H, C, F], "all telemetry histories and settings", "one test, one setting", ["decoders/combined_decoder.py"], [("composition", "decoders/combined_decoder.py: decode_buffer")],
     ["words handed to the inner decoder"], "boundary spy with recomputation", "as C18")
prop("C20", "The unified decoder rectifies only steady bits",
     "Field rectification is applied only to bits whose learned entropy is below the threshold, implausible bits only where they contradict the learned majority (scaled, or flipped if so "
     "configured), and not before more buffers of the type were learned than the confidence centre; constant fields are forced and recognised messages reinforced. Bit evidence is then "
     "added, and both models learn, as in the combined decoder.",
     [H, C, F], "all telemetry histories and settings", "one test, one setting", ["decoders/combined_unified_decoder.py"], [("composition", "decoders/combined_unified_decoder.py: decode_buffer")],
     ["words handed to the inner decoder"], "boundary spy with recomputation", "as C18")
prop("C21", "The denoising decoder adds what its per-bit denoisers infer",
     "Each model bit of each data type has its own online denoiser fed with that bit's received hard values in order; the soft word handed to the code is the received word plus the "
     "denoisers' log ratios weighted by confidence (none for the first buffer of a type), the whole clipped to the given factor of the largest received magnitude. Bits outside the model "
     "get no evidence, buffers during training pass unchanged, and the hard decisions of the word handed over are reported as denoised bits.",
     [H, C], "all histories, types, context lengths, flip probabilities", "not tested beyond construction", ["decoders/classifying_DUDE_decoder.py", "inference/dude.py"],
     [("composition", "decoders/classifying_DUDE_decoder.py")], ["words handed to the inner decoder, denoised bits"], "boundary spy with reference denoisers", "-")
prop("C22", "Buffer classification conserves samples and picks the nearest cluster",
     "Until enough buffers were seen every buffer is its own cluster and is labelled -1; then the closest pairs (chosen metric and weighting) are merged until the wanted number is left, labelled 0 upwards. From then on each buffer goes to the cluster of highest likelihood "
     "(or least Hamming distance), is counted there exactly once and nowhere else, so that cluster sizes and distributions always account for every buffer.",
     [H, C], "all buffer sequences, metrics, weights, sizes", "tests classify two clearly separated types", ["inference/clustering.py"], [("classifier", "inference/clustering.py: BufferClassifier, Cluster")],
     ["labels, cluster sizes and distributions"], "state monitor before/after every call with conservation and nearest-cluster oracles", "near ties are not judged")
prop("C23", "The online denoiser makes the estimates its past counts justify",
     "For each symbol, the estimate (or posterior) is the one which the counts of symbols seen so far in the same left context, the channel matrix and the loss prescribe, and the "
     "reported cost is the loss expected under that posterior. Symbols while the context fills are passed through at no cost, a reset or a given context behaves as documented, a sequence "
     "call equals sample calls, and wrong contexts or symbols are refused.",
     [H, C, I], "all sequences, alphabets, contexts, channels, losses", "tests run one example", ["inference/dude.py"], [("OnlineDude", "inference/dude.py")], ["estimates and costs"], "reference-model monitor", "near ties not judged")
prop("C24", "The two-sided denoiser applies the denoising rule to full contexts",
     "Each symbol with complete left and right context is replaced by (or gets the posterior of) what the counts of its two-sided context over the whole sequence, the channel and the "
     "loss prescribe; symbols at the edges are kept at no cost. The mean expected loss over the sequence is reported and the input is not modified.",
     [I, C], "all sequences, alphabets, contexts, channels, losses", "tests run one example", ["inference/dude.py"], [("dude", "inference/dude.py")], ["returned sequence and loss"], "reference-model monitor", "near ties not judged")
prop("C25", "The entropy denoiser adds evidence from the remembered past only",
     "Each buffer is estimated from its own values plus, on bits whose flip-corrected frequency over the last window of earlier buffers has entropy below the threshold, the confidence-weighted log ratio; only then is the buffer itself remembered, once. Hard or soft input and output, the "
     "cost as number of changed hard bits, sequence calls and reset behave accordingly and the input is not modified.",
     [H, C], "all buffer histories and settings", "not tested", ["inference/entropy_mle.py"], [("EMLE", "inference/entropy_mle.py")], ["estimates, costs"], "reference-model monitor", "-")
prop("C26", "A fitted Bernoulli mixture is a proper model of its data",
     "After fitting, weights form a distribution, component means are probabilities, and the mixture's mean equals the data's mean. Sample scores are the mixture log likelihoods, their mean is the score, and each row is assigned to its most likely component; more iterations from the "
     "same start never fit worse.",
     [I, C], "all binary data sets, component and iteration counts", "not tested", ["inference/bmm.py"], [("EM", "inference/bmm.py: BMM")], ["model, scores, assignments"], "invariant monitor plus reference likelihood", "rows with vanishing component probability are not judged")
prop("C27", "Information measures equal their definitions",
     "Empirical probabilities are the relative frequencies over the sorted alphabet, per row; entropy, Hellinger distance and the bounds of the typical set equal their definitions for every distribution, including degenerate and equal ones. Floating point samples, wrong dimensions and meaningless "
     "arguments are refused.",
     [I], "all sample arrays and distributions", "tests use fixed examples", ["utils/information_theory.py"], [("measures", "utils/information_theory.py")], ["return values"], "reference-model monitor", "-")
prop("C28", "Hamming distance counts differing bits in every representation",
     "For words of equal length given as bytes, integers of a stated length, bit strings or bit arrays, in any mix, the distance is the number of differing bits; it is symmetric, zero for equal words and obeys the triangle inequality. Words of different length, integers which do not fit and "
     "other types are refused.",
     [I], "all words, lengths and representations", "tests use few words", ["utils/bit_operations.py"], [("hamming_distance", "utils/bit_operations.py")], ["return value"], "reference-model monitor", "-")
prop("C29", "Performance measures equal their definitions",
     "Recall, precision, F1 (per class with samples) and accuracy follow from the confusion matrix of the labels or the given matrix, a class never predicted having precision zero if it has samples and one if not. The bit error rate is the share of differing bits for every bit type, and detection tables count true and "
     "false positives and negatives.",
     [I], "all label vectors, matrices, bit vectors", "not tested", ["utils/performance_analysis.py", "decoders/mavlink_decoder.py"], [("stats, ber", "utils/performance_analysis.py"), ("confusion", "decoders/mavlink_decoder.py")], ["return values"],
     "reference-model monitor", "F1 and recall of classes without samples are not judged")
prop("C30", "The Markov source follows its transition probabilities",
     "A generated sequence starts with the given states and takes every further step from the actually preceding states according to the transition probabilities, so that impossible steps never occur, deterministic chains are followed exactly and frequencies converge. A start or a transition array of the wrong order or "
     "shape is refused.",
     [I, C], "all transition arrays, orders, starts", "tests check length and range only", ["utils/random_sources.py"], [("generate_markov_samples", "utils/random_sources.py")], ["generated sequence"],
     "trace checker over generated sequences, frequency test at 8 standard deviations", "-")
prop("C31", "The turbo pair exchanges extrinsic information only",
     "In each round the first decoder gets the received word plus the second's extrinsic information, and the second gets the received word plus the first's, extrinsic being soft output minus received word minus what came from the other. The exchange ends at the first success or after the given number of "
     "rounds, reports which decoder decided, and the number of remaining errors only in debug mode after failure.",
     [H, C, F], "all words, decoder answers and round limits", "not tested", ["decoders/turbo.py"], [("exchange", "decoders/turbo.py")], ["words handed to both decoders, result"], "boundary spies on both decoders with replay of the exchange", "-")
prop("C32", "Clusters are matched to classes one to one",
     "Relabelling a clustering gives a one to one map from clusters to classes, choosing the largest remaining overlap each time, and returns each sample's matched class. A clustering which is correct up to names is mapped to the real labels exactly.",
     [I], "all clusterings and labels", "not tested", ["runs/clsutering_analysis/functions.py"], [("relabel", "runs/clsutering_analysis/functions.py")], ["map and labels"], "reference-model monitor", "ties may be broken any way")
prop("C33", "Instances never interfere and equal histories give equal results",
     "Two decoders or models in one process, even sharing an inner decoder, a supplied model or structures, behave exactly as each would alone, whatever the order in which they are used. Repeating a history on a fresh instance reproduces every result, results already returned are not altered by later calls, and supplied models "
     "and structures stay as they are.",
     ["schedules", H, C], "all interleavings of two instances' histories, all decoder kinds", "tests use one instance at a time", ["decoders/", "inference/"], [("instance state", "constructors of decoders and models")], ["results and inner decoder inputs"],
     "differential monitor: interleaved runs against isolated runs", "-")
prop("C34", "Diagnostics tell the truth and change nothing",
     "Switching diagnostics on changes no decoding result and no word handed to the code. The reported counts of damaged and intact field detection and of forced and flipped bits agree with the true error positions, the reported field lists and the field statistics, and are empty when nothing was predicted.",
     [H, C], "all telemetry histories and settings", "tests never enable diagnostics before a structure is known", ["decoders/mavlink_decoder.py", "decoders/combined_decoder.py", "decoders/combined_unified_decoder.py", "decoders/turbo.py"],
     [("classifier_analysis, forcing_analysis", "decoders/mavlink_decoder.py")], ["diagnostics dictionaries"], "differential monitor (with / without diagnostics) plus recomputation", "values of flipped bits are judged for supplied models only")

prop("C35", "Simulation runs report what was sent, received and decoded",
     "For every setting, noise level, number of buffers and number of processes, the simulation programs save codewords which carry the recorded telemetry, received words which differ from them exactly in the recorded error positions, and error counts, remaining errors, success rates, bit error rates and summaries which follow from the words saved. Every decoder is run with the requested settings on the received words in order, so decoding the saved words again with a new decoder gives the saved results, whichever other noise levels the same process ran. The command recorded with a run repeats that run.",
     [H], "all command line settings, noise levels and process counts", "no test runs the simulation programs", ["runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py", "runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py", "runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py", "runs/HC_eilat_July_2018/simulated_data_combined_decoder.py", "runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py", "runs/HC_eilat_July_2018/simulated_data_pretrained_model.py", "runs/HC_eilat_July_2018/simulate_gallager_bf.py", "runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py", "runs/HC_eilat_July_2018/ecncoding_data.py"],
     [("simulation_step and summary", "runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py"), ("encode_data", "runs/HC_eilat_July_2018/ecncoding_data.py")], ["saved results", "recorded command"],
     "trace monitor on the decoders of whole program runs, recomputation of everything saved", "the random choice of error positions; decoders themselves are judged by other properties")

prop("C36", "Experiment runs report how the recorded receptions were decoded",
     "For every recording and setting, the experiment programs decode the received values of the chosen days in order with the requested decoders, codes and models, and save the recording itself, the errors of each buffer, the decoding results, success rates, bit error rates and summaries which follow from it, with -1 for buffers whose transmission was not identified. The simulation with the code of 2022 reports sent words, errors and results in the same way, and the command recorded with a run repeats it. The training programs save a model which predicts like one given all the identified, well formed buffers of both days.",
     [H, I], "all recordings, settings and days", "no test runs the experiment programs; their recordings are not in the repository",
     ["runs/Feb_2022/experimental_data_run.py", "runs/Feb_2022/experimental_data_unified_decoder.py", "runs/Feb_2022/experimental_mavlink_based.py", "runs/Feb_2022/train_buffer_model.py",
      "runs/Feb_2022/simulation_rafael_code.py", "runs/Feb_2023/experimental_data_run_feb_23.py", "runs/Feb_2023/experimental_data_unified_decoder.py", "runs/Feb_2023/experimental_mavlink_based.py",
      "runs/Feb_2023/train_buffer_model.py"],
     [("decoding loop and result tables", "runs/Feb_2022/experimental_data_run.py")], ["saved results", "recorded command", "trained model"],
     "end-to-end monitor of whole program runs on synthetic recordings, recomputation of everything saved", "recordings are synthetic, the code is supplied in the alist format; decoders themselves are judged by other properties")

prop("C37", "The clustering study counts how its buffers were classified",
     "For every recording and setting, the clustering study classifies each part of each transmission once, in order or shuffled with equal shares of the classes in training, with the requested share of bits flipped anywhere in it (in training buffers only if asked), and fits and tests the mixture on the same buffers. The saved confusion matrices and measures are the counts of those classifications after clusters are matched to classes, averaged over the runs. The command recorded with a run repeats it.",
     [H, I], "all recordings, settings and numbers of runs and processes", "no test runs the study; its recordings are not in the repository",
     ["runs/clsutering_analysis/clustering_analysis.py", "runs/clsutering_analysis/functions.py"],
     [("classification runs and averaged matrices", "runs/clsutering_analysis/clustering_analysis.py"), ("matching of clusters to classes", "runs/clsutering_analysis/functions.py")],
     ["buffers given to the classifiers and their answers", "saved results", "recorded command"],
     "trace monitor on whole program runs: every buffer is traced to its transmission, everything saved is recounted", "recordings are synthetic; matrices are not judged where the matching of clusters to classes is not unique")
prop("C38", "The field classification study counts what the field model finds",
     "For every recording, supplied field model and setting, the field classification study sends the recorded telemetry as codewords with the recorded bit errors, and its lists of damaged, plausible, implausible and forced fields and bits are those which the field statistics and the threshold justify. Its tables and summaries are counts of these lists against the true errors. The command recorded with a run repeats it.",
     [H, I], "all recordings, field models, noise levels and settings", "no test runs the study",
     ["scripts/classifier_analysis.py"], [("field classification and summaries", "scripts/classifier_analysis.py")], ["saved results", "recorded command"],
     "end-to-end monitor of whole program runs, recomputation of everything saved in exact field statistics", "learning during the study (--learn 1) is not judged; recordings are synthetic")
prop("C39", "Recordings and models are made faithfully from the telemetry logs",
     "For every vehicle log, the recording program makes one buffer per transmission time of the mission: the five telemetry messages with the first logged sample at or after that time, framed and consecutively numbered. The training programs save the frequency of each coded bit over the codewords of all recorded buffers, and a field model which predicts like one given all of them. The ship log reader lists every acquisition of the modem logs in order with its time, size, success and payload.",
     [H, I], "all logs, recordings and numbers of data types", "no test runs these programs; the logs are not in the repository",
     ["runs/HC_eilat_July_2018/data/msg_creator.py", "scripts/train_estimator.py", "scripts/buffer_segmentation_example.py", "runs/Feb_2022/data/ship_log_reader.py"],
     [("sample selection and framing", "runs/HC_eilat_July_2018/data/msg_creator.py"), ("bit frequencies", "scripts/train_estimator.py"), ("field model", "scripts/buffer_segmentation_example.py"),
      ("acquisition parser", "runs/Feb_2022/data/ship_log_reader.py")], ["saved recordings, matrices and models", "acquisitions read"],
     "end-to-end monitor of whole program runs on synthetic logs, every message rebuilt from the log, frequencies recounted", "logs are synthetic and end after the mission; the field model is compared with the library's own, which C10 judges")

prop("C40", "Generated dialects speak the wire format of their definitions",
     "For every valid definition file (messages of any ids, field types, arrays, texts, units, enums and included files), generating a dialect makes one importable module at the given path, of the first protocol generation, with exactly the defined messages: "
     "each packs to the bytes the definitions prescribe, decodes back, and is refused when damaged. The shipped definitions give the shipped dialects' frames, C headers carry the same ids, lengths and checksum bytes, definition files are left as they are, and nothing is made from invalid definitions.",
     [I], "all definition files, paths and both languages", "no test generates a dialect", ["mavlink_utils/utils.py", "mavlink_utils/HC_dialect.xml", "mavlink_utils/minimal_dialect.xml"], [("dialect_creator", "mavlink_utils/utils.py")],
     ["generated modules, headers and their frames"], "reference-model monitor on generated dialects (encoding derived from the definitions) plus fault injection into frames and definitions", "the generator of pymavlink itself; scalar char fields")
prop("C41", "Broken runs are united without loss; test data and logs are as declared",
     "Uniting a broken run keeps every saved step once and unchanged, oldest first, with a summary whose series are those of the steps and whose settings start at the first step; the saved steps stay. Random test data have the requested length, take every allowed value equally likely and no other, and a logger "
     "writes every record at or above its level once to its file, after what was there, and to the console.",
     [I, H], "all sets of saved steps, lengths, levels and records", "tests only consume the random data", ["scripts/unify_results.py", "data_generation/random_test_data_generation.py", "utils/common_logging.py"],
     [("uniting of steps", "scripts/unify_results.py"), ("random data", "data_generation/random_test_data_generation.py"), ("setup_logger", "utils/common_logging.py")], ["saved results, drawn values, log lines"],
     "end-to-end monitor of whole program runs, statistical monitor of drawn values (8 standard deviations), line monitor of logs", "calling setup_logger twice with one name; figures")

if __name__ == "__main__":
    exec(open(os.path.join(ROOT, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "more_props.py")) else None
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if k not in ("tech", "note")}
            assert len(q["title"]) <= 80, q["id"]
            f.write(json.dumps(q) + "\n")
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import numpy, scipy, sklearn, bitstring, ldpc\"",
           "checks": [dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py {p['id']}", technique=p["tech"], level="exploration",
                           level_note="Holds on every execution observed (counts in the evidence); no claim beyond the explored workloads. Trusted / not judged: " + (p["note"] if p["note"] != "-" else "the recomputation in checks and vt."))
                      for p in P],
           "not_applicable": [],
           "notes": "Pure Python, no threads and no native code in the repository: the monitors are written here (boundary spies, reference models, trace and differential checkers); compiler sanitizers and race detectors have nothing to instrument."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
