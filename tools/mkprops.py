"""Generates /verif/properties.jsonl (one place to edit the property texts)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, id
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=m, where=', '.join(files)) for m in mech])))

p("C01", "A header is recognised exactly when it is a well-formed dialect header",
  "The header test answers True for a byte string if and only if it has exactly the header length (6 bytes), its first byte is the protocol start marker, its last byte is a message id known to the dialect and its second byte equals the payload length the protocol metadata records for that id. It never raises for a byte string and the sequence number, system id and component id never influence the answer.",
  ["inputs"], "all byte strings of every length, for every message of the dialect",
  "The tests try a handful of random ids and one wrong field at a time out of 256^6 headers.",
  ["protocol_meta/msg_header.py", "protocol_meta/protocol_meta.py"], ["is_valid_header", "MavlinkDialectMeta.msgs_payload_length"])
p("C02", "Frame headers round-trip through bytes and reject everything else",
  "Building a frame header from a known message id and uint8 system id, component id and sequence number gives a 6 byte header that the header test accepts and whose accessors (length, sequence, system id, component id, message id) return exactly those values and the recorded payload length; parsing those bytes (optionally forcing another known message id) reproduces the same header. Any argument outside 0..255, any unknown message id and any buffer that is not 6 bytes long is rejected with the documented exception (non-uint8, non-existent message id, header length) instead of producing a header.",
  ["inputs"], "all integer argument tuples and all byte strings, forced id given or not",
  "Tests sample a few random ids and sequence numbers; the rejection boundary and the forced-id path are spot checked.",
  ["protocol_meta/msg_header.py"], ["FrameHeader.__init__", "FrameHeader accessors", "FrameHeader.from_buffer", "FrameHeader.hamming_distance"])
p("C03", "Nearest valid header search returns a true minimum",
  "For every 6 byte buffer and every optional payload-length limit under which at least one message of the dialect fits, the returned distance is the smallest Hamming distance (over start marker, length and id bytes) between the buffer and a valid header whose payload length respects the limit, and the returned message id is an admissible message attaining it. Buffers that are not 6 bytes long are rejected.",
  ["inputs"], "all 6 byte buffers and all length limits, against all messages of the dialect",
  "Tests corrupt a few random headers and never combine an exact match with an excluding limit.",
  ["protocol_meta/msg_header.py"], ["hamming_distance_2_valid_header"])
p("C04", "Hamming distance counts differing bits for every supported operand kind",
  "For two byte strings of equal length, two unsigned integers that fit the requested width, two bit strings or two 0/1 arrays of equal length (also mixed), the Hamming distance equals the number of bit positions in which the two differ; hence it is symmetric, zero only for equal bit patterns and never larger than the number of bits. Operands that are none of these kinds are rejected with TypeError, and operands of unequal bit length or integers that do not fit are rejected with an exception rather than silently truncated.",
  ["inputs"], "all operands of the supported kinds and lengths",
  "Tests evaluate a few random words of fixed widths.",
  ["utils/bit_operations.py"], ["hamming_distance"])
p("C05", "Segmentation marks exactly the frames it reports, in bounds and disjoint",
  "For every buffer and every protocol parser that refuses incomplete frames (as the dialect's does), each message start reported by segmentation lies wholly inside the buffer, has a valid header carrying the reported message id, and was accepted by the parser on exactly its bytes (header, payload of the recorded length, checksum); reported messages never overlap. The per-byte classification is header for its 6 bytes, payload for the recorded length and checksum for 2 bytes of every reported message and unknown everywhere else, the per-bit validity is 1 exactly on the bits of reported messages and 0 elsewhere, and both arrays have one entry per byte / per bit of the buffer.",
  ["inputs"], "all byte buffers of every length and all parser verdicts (accept / protocol error) on complete frames",
  "Tests use a few hand-made buffers and random single corruptions; overlapping candidate headers, back-to-back frames and truncated tails are not enumerated.",
  ["inference/buffer_segmentation.py"], ["BufferSegmentation.segment_buffer"])
p("C06", "Segmentation misses no frame and every view of it agrees",
  "No frame is missed: every byte position outside the reported messages at which a valid header starts and the complete frame that it announces fits and is accepted by the parser is reported (leftmost first). The buffer-structure view and the message-field view of the same buffer describe exactly the reported messages: same start positions and ids, and per message one header item, its fields in wire order with their own type, and one crc item.",
  ["inputs"], "all byte buffers and all parser verdicts",
  "Tests check buffers in which the frames are known in advance; absence of a missed frame needs every position of every buffer.",
  ["inference/buffer_segmentation.py"], ["BufferSegmentation.segment_buffer", "get_buffer_structure", "get_msg_fields"])
p("C07", "Bad buffer parts are exactly the maximal unknown runs",
  "For every buffer and classification of its bytes, the bad parts are exactly the maximal runs of unknown bytes: the index view lists each run once, in order, as a half-open (start, end) pair, and the dictionary view maps each run's start to exactly the bytes of that run, so both views and the classification describe the same bytes. A buffer without unknown bytes gives an empty dictionary and no index list.",
  ["inputs"], "all buffers and all per-byte classifications",
  "Tests look at one or two corrupted buffers; run boundaries at both buffer ends and adjacent runs are rarely hit.",
  ["inference/buffer_segmentation.py"], ["bad_buffer_parts", "bad_buffer_idx"])
p("C08", "A buffer structure registers exactly the buffers that carry its messages",
  "A buffer structure accepts a buffer if and only if at every recorded start position the buffer holds a complete 6 byte header field with the recorded message id (a known one), and then the buffer is appended and the reception count grows by one; a refused buffer (answer False or an exception) leaves the record and the count unchanged, so after any sequence of registrations the count equals the number of recorded buffers and these are the accepted ones in order. Two structures (or a structure and a dictionary) compare equal exactly when they map the same positions to the same ids, irrespective of what they have received.",
  ["inputs", "histories"], "all structures, all buffers and all sequences of registrations",
  "Tests register a couple of buffers once.",
  ["inference/buffer_segmentation.py"], ["BufferStructure"])
p("C09", "Protocol metadata agrees with the dialect's wire format",
  "For every message of the dialect the recorded payload length equals the number of payload bytes the dialect packs for it, and the recorded field list names every field once, in over-the-air order, with the field's own type. The header, checksum and overhead lengths equal those of frames the dialect itself packs, so a frame packed by the dialect has length payload + overhead.",
  ["inputs", "configurations"], "all messages of the dialect",
  "Tests take the metadata itself as the reference, so they cannot see it disagree with the dialect.",
  ["protocol_meta/protocol_meta.py", "mavlink_utils/HC_dialect.py"], ["MavlinkDialectMeta"])
p("C10", "Field values convert to their exact wire bits",
  "For every supported field type and every value, the bit image has 8 times the field length bits and equals, byte for byte and most significant bit first within a byte, the little-endian wire encoding of the value: integers are rounded to nearest, negative values of unsigned fields become 0 and values above the field's maximum become that maximum, floats are encoded as IEEE single precision and characters as their code. Unsupported types are rejected with ValueError.",
  ["inputs"], "all field types and all numeric values (representable range below for signed types)",
  "No test calls this function.",
  ["inference/statistical_models.py"], ["num2bits"])
p("C11", "Every buffer bit is attributed to the one field that occupies it",
  "For every buffer structure of non-overlapping messages made of scalar fields that fits the buffer, the bit-to-field map assigns the bits of header byte and of every payload field to that field's running index in wire order and -1 to all other bits (checksums, gaps, tail), and the unpacked names, types and values are aligned: entry k of each describes the field with index k, the value being the dialect's decoding of those very bytes whether the buffer is given as bytes or as bits. Damaged-field lookup reports, in increasing bit order, exactly the fields containing the given error positions.",
  ["inputs"], "all structures (any messages, positions and order), all buffers, all error positions",
  "No test unpacks a structure.",
  ["inference/statistical_models.py"], ["BufferModel.unpack_structure", "BufferModel.unpack_values", "BufferModel.find_damaged_fields"])
p("C12", "Models hold exactly the last window of samples and never serve stale statistics",
  "After any sequence of additions a field model holds exactly the most recent samples up to its window (all of them without a window), in order, and the mean and standard deviation it reports or uses are those of the samples held at that moment. A buffer model's size equals the number of buffers added capped at the window, and adding a buffer adds each field's decoded value exactly once to the model of that field name (created on first use with the field's type and the model's window) and to no other.",
  ["inputs", "histories"], "all sequences of additions and queries, all windows >= 1 and no window",
  "No test exercises the models; staleness needs interleavings of additions and queries.",
  ["inference/statistical_models.py"], ["FieldModel.add_sample", "FieldModel._update", "BufferModel.add_sample", "BufferModel.add_buffer"])
p("C13", "Validity probabilities are probabilities and reach only their own field's bits",
  "The probability that a value is not an outlier is between 0 and 1, is 1 at the mean, does not increase with the distance from the mean, and for a zero-spread model is 1 at the mean and 0 elsewhere; the reported spread is that of the model. Buffer prediction assigns to every bit of a modelled field that field's probability and spread, leaves bits of no or unmodelled fields undefined (NaN, and no entry for an unmodelled field), and lists fields by their index; the model's bit image holds the wire bits of the mean at every bit of a modelled field and 0 elsewhere.",
  ["inputs", "histories"], "all sample sets, all values, all structures and buffers",
  "No test exercises prediction.",
  ["inference/statistical_models.py"], ["FieldModel.classify_value", "BufferModel.predict", "BufferModel.bitwise_model_mean"])
p("C14", "A saved model loads back as the same model",
  "Loading a saved buffer model gives a model with the same window, the same size, the same set of field models with the same types, windows and samples (hence the same statistics) and the same buffer description, with headers back as bytes and field items naming the same fields. Saving does not change the model.",
  ["inputs", "histories"], "all models of numeric fields with or without a description and window",
  "No test saves a model.",
  ["inference/statistical_models.py"], ["BufferModel.save", "BufferModel.load", "BufferModel.set_buffer_description"])
p("C15", "Estimated probabilities are the exact empirical frequencies",
  "For every non-empty sample of integers or bits, one- or two-dimensional, the estimated distribution has one row per dimension and one column per distinct symbol of the data in increasing order, and each entry is the number of occurrences of that symbol in that dimension divided by the number of observations; hence entries lie in [0, 1] and every row sums to 1. Double precision floating point data and other dimensionalities are rejected.",
  ["inputs"], "all sample arrays",
  "Tests check a few random arrays.",
  ["utils/information_theory.py"], ["prob_with_alphabet", "prob"])
p("C16", "Entropy, Hellinger distance and typical-set bounds respect their ranges",
  "For distributions over the same support the Hellinger distance is a number in [0, 1] (never NaN), symmetric, 0 for equal distributions and 1 for disjoint ones, computed per row; the entropy of each row is computed on that row alone in the requested base. The typical-set bounds satisfy lower <= upper with upper = 2^(n(H+eps)) and lower = (1-eps) 2^(n(H-eps)), where a given entropy takes precedence over a given distribution; non-positive n or eps, missing information and unsupported dimensions are rejected.",
  ["inputs"], "all distributions, all n, eps and H for which the bounds are finite",
  "Tests check a few known values.",
  ["utils/information_theory.py"], ["entropy", "hellinger", "typical_set_cardinality"])
p("C17", "Clusters conserve samples and count every bit once",
  "At every moment a cluster's per-bit counts of zeros and ones add up to its number of samples for every bit, its distribution is counts / samples and its hard bits are the strict majority (ties give 0); adding a sample increments exactly the matching count of each bit, and merging adds counts and sample numbers. Across any sequence of classifications the samples held by all clusters together equal the number of buffers classified.",
  ["inputs", "histories"], "all sequences of buffers, all cluster configurations",
  "No test exercises clustering.",
  ["inference/clustering.py"], ["Cluster", "BufferClassifier.classify", "BufferClassifier.merge_clusters"])
p("C18", "Buffer classification: training label, cluster count, and best-cluster choice",
  "While fewer than the configured number of buffers has been seen, classification returns -1 and stores the buffer as its own cluster; from then on it returns the id of the cluster that optimises the configured metric for that buffer (first one on ties) and adds the buffer to exactly that cluster. After the training phase there are min(k, training clusters) clusters whose ids are 0..count-1 in order, and merging always joins the closest pair under the configured distance.",
  ["inputs", "histories"], "all buffer sequences, training sizes >= 2, k >= 1, metrics and weight schemes",
  "No test exercises classification.",
  ["inference/clustering.py"], ["BufferClassifier.classify", "BufferClassifier.merge_clusters"])
p("C19", "Online denoiser: context bookkeeping and valid estimates",
  "The online denoiser passes the first k samples through unchanged at zero cost, afterwards counts each observation exactly once in the record of the k samples that preceded it, and slides that context by one sample. Its hard estimate minimises the expected loss under the context's counts and its soft estimate is a probability vector (non-negative, sums to 1); a sequence is denoised as its samples in order, observations outside the alphabet are rejected without changing the state, and a reset forgets everything.",
  ["inputs", "histories"], "all observation sequences, context lengths and (binary, invertible) channels",
  "No test exercises the denoisers.",
  ["inference/dude.py"], ["OnlineDude"])
p("C20", "Sequence denoiser uses two-sided contexts and leaves the edges alone",
  "The two-pass denoiser returns one estimate per observation, leaves the first and last k samples as observed and does not modify its input. Every inner sample is estimated from the counts, over the whole sequence, of the symbols seen between the same k left and k right neighbours: the hard estimate minimises the expected loss under them and the soft estimate is a probability vector.",
  ["inputs"], "all observation sequences of every length, context lengths and (binary, invertible) channels",
  "No test exercises the denoisers.",
  ["inference/dude.py"], ["DUDE.denoise_sequence", "DUDE.smooth_posterior"])
p("C21", "Entropy-aided denoiser: windowed model, untouched input, honest cost",
  "The entropy-aided denoiser never modifies the observation it is given, changes the llr only of bits whose modelled entropy is below the threshold, by the confidence-weighted log-odds of the modelled bit value (so towards that value) and only once it has seen at least two buffers, and reports as cost the number of bits whose hard value it changed. Its model is the per-bit fraction of ones over the last window of observed (not denoised) buffers, corrected for the channel flip probability and clipped to [0, 1]; the model size is the number of buffers seen capped at the window and reset forgets everything.",
  ["inputs", "histories"], "all sequences of buffers, hard and soft input and output, all windows, thresholds and flip probabilities in (0, 0.5)",
  "No test exercises the denoiser.",
  ["inference/entropy_mle.py"], ["EMLE"])
p("C22", "Model-aided decoders change only structural bits, within the clipping bound",
  "Model-aided entropy and DUDE decoders never modify the caller's channel llr, and what they hand to the LDPC decoder differs from the channel only through the model: bits that are not low-entropy model bits keep their channel value (up to clipping), a structural bit moves towards the value its model predicts, by the confidence-weighted log-odds of the model, and magnitudes (the model term, for the plain entropy decoder; the flipping decoder forces the majority value) stay within the clipping factor times the largest channel magnitude. With no usable model (too little data, nothing structural, training phase) the channel values go in unrectified.",
  ["inputs", "histories"], "all channel words, model states, thresholds, clipping factors, info-bit layouts",
  "No test exercises these decoders.",
  ["decoders/classifiying_decoder.py", "decoders/classifying_DUDE_decoder.py", "decoders/entropy_bitwise_decoder.py"],
  ["ClassifyingEntropyDecoder", "ClassifyingDudeDecoder", "EntropyBitwiseDecoder", "EntropyBitwiseFlippingDecoder", "EntropyBitwiseWeightedDecoder"])
p("C23", "Decoders return the LDPC decoder's own verdict",
  "The bit estimate, soft output and success flag every decoder returns (as well as the iteration count, syndrome and node validity where it returns them) are those of its last LDPC decoding attempt, never altered; a decoder that first tries the plain channel word returns that attempt if it succeeded and otherwise decodes exactly once more, on the rectified word; the MAVLink decoder stops at the first successful segmentation iteration and reports the total number of decoding iterations. The turbo decoder alternates its two decoders on channel plus the other's extrinsic information, stops at the first success and reports which decoder produced the result. The bit model a decoder reports (distribution and structural bits) is its model of the buffer's cluster after this buffer, nothing while the classifier is still training, and the denoised bits the DUDE decoder reports are the hard decisions of the word it handed to the LDPC decoder.",
  ["inputs", "histories"], "all channel words, LDPC outcomes and decoder states",
  "No test drives a decoder with scripted LDPC outcomes.",
  ["decoders/classifiying_decoder.py", "decoders/classifying_DUDE_decoder.py", "decoders/entropy_bitwise_decoder.py", "decoders/mavlink_decoder.py", "decoders/combined_decoder.py", "decoders/combined_unified_decoder.py", "decoders/turbo.py"],
  ["decode_buffer of every decoder"])
p("C24", "Decoders learn the right bits, in the right model, within the window",
  "After each decoded buffer (however many decoding attempts or segmentation iterations it took) exactly the model of that buffer's cluster label learns exactly one sample: the decoded bits if decoding succeeded and the received channel bits otherwise (the plain entropy decoders learn only buffers whose messages all parse, and for the two-model decoder the second attempt counts as successful only if all its messages parse); nothing is learnt during classifier training, and a supplied fixed model is never changed. The stored samples are the most recent ones up to the window, the model distribution is their per-bit fraction of ones (flip-corrected, in [0, 1]), and without clustering labels follow the round robin 0, 1, ..., n-1.",
  ["inputs", "histories"], "all sequences of channel words and LDPC outcomes, all windows and cluster configurations",
  "No test decodes more than nothing with these classes.",
  ["decoders/classifiying_decoder.py", "decoders/entropy_bitwise_decoder.py", "decoders/mavlink_decoder.py", "decoders/combined_decoder.py", "decoders/combined_unified_decoder.py"],
  ["update_model", "update_entropy_model", "decode_and_update_model"])
p("C25", "MAVLink rectification scales, forces and boosts only the bits it should",
  "Given a known buffer structure, the MAVLink-aware decoders hand the LDPC decoder the channel llr in which bits of fields judged valid are scaled by the valid factor, bits of fields judged invalid by the invalid factor (with confidence-weighted factors while learning), bits certain to be wrong are forced to the model's value at the maximal channel magnitude (scaled by at least 1), bits of messages found intact are boosted, and all other bits are unchanged. With several segmentation iterations each later iteration rectifies the previous attempt's soft output in the same way. Without a structure the llr is passed on as is, and the caller's array is never modified. Structures are set one per cluster; any other number is rejected and those set before are kept.",
  ["inputs", "histories"], "all channel words, structures, field models and factors",
  "No test drives these decoders.",
  ["decoders/mavlink_decoder.py", "decoders/combined_decoder.py", "decoders/combined_unified_decoder.py"],
  ["model_prediction", "mavlink_model_prediction", "set_buffer_structures"])
p("C26", "Performance metrics are true ratios",
  "The bit error rate is the fraction of differing positions for every dtype of bit arrays. For every non-empty confusion matrix recall, precision, F1 and accuracy are numbers in [0, 1], equal to the textbook ratios for every class that occurs among both the actual and the predicted labels; the debugging confusion vector counts true/false positives and negatives of the two index sets so that they add up to the population.",
  ["inputs"], "all bit arrays, label arrays, confusion matrices and index sets",
  "No test covers the metrics.",
  ["utils/performance_analysis.py", "decoders/mavlink_decoder.py", "decoders/combined_decoder.py", "decoders/combined_unified_decoder.py"],
  ["stats", "ber", "confusion"])
p("C27", "Markov sources follow their transition matrix from the first sample on",
  "A generated Markov sequence has the requested length, starts with the given initial state(s), and every later sample is drawn from the transition-matrix row selected by exactly the preceding states in order, so a transition of probability zero never occurs. Initial states that do not match the order and matrices whose last two dimensions differ are rejected.",
  ["inputs", "histories"], "all transition matrices, orders, initial states and lengths",
  "No test covers the source.",
  ["utils/random_sources.py"], ["generate_markov_samples"])
p("C28", "Mixture fitting performs exact expectation-maximisation steps",
  "Fitting the Bernoulli mixture to 0/1 samples starts from equal weights and means in (0, 1] and each iteration is one expectation-maximisation step: the responsibility of a component for a sample is its weight times the likelihood of the sample's bits under its means (a probability of zero is floored at 1e-15 if it is zero in every component, else at 1e-200), divided by the sum of these over the components, so responsibilities are non-negative and sum to 1 per sample; new weights are the mean responsibilities (sum 1), new means the responsibility-weighted averages of each bit (in [0, 1]). If the likelihood after a step is not a number, the parameters from before that step are kept and fitting ends. The log likelihood kept is that of the parameters kept. Prediction assigns a sample to a component of greatest responsibility, the score is the mean over samples of the log of the weighted sum of likelihoods, and neither fitting nor prediction modifies the samples.",
  ["inputs", "histories"], "all 0/1 sample matrices, numbers of components, starting means and numbers of iterations",
  "No test covers the mixture; a component losing all its samples needs underflow of every responsibility.",
  ["inference/bmm.py"], ["BMM.fit", "BMM.get_responsibilities", "BMM.get_log_bernoullis", "BMM.get_mu", "BMM.get_pi", "BMM.reset_params", "BMM.predict", "BMM.score"])
p("C29", "Debugging observes without disturbing, and counts exactly",
  "Switching on the debug option of a MAVLink-aware or turbo decoder changes nothing in what it hands to the LDPC decoder, returns (beyond the debugging figures) or learns, and never fails, whether or not the buffer structure is known; the given error indices are not modified. With a known structure, the classifier analysis counts each field of the buffer hit by at least one error once and compares the fields judged invalid with the hit fields and the fields judged valid with the others (it is empty if no field is hit); the forcing analysis compares the forced bits, and the bits forcing flipped, with the error positions and reports the numbers of errors, forced and flipped bits, right and wrong flips and the fraction of forced bits whose model value differs from the bit sent (0 if none is forced), all for the model as it was before learning the buffer. Without a structure both are empty. The turbo decoder reports the number of wrong bits in its final failed estimate, and 0 after success.",
  ["inputs", "histories"], "all channel words, error positions, structures, field models and LDPC outcomes",
  "No test switches debugging on.",
  ["decoders/mavlink_decoder.py", "decoders/combined_decoder.py", "decoders/combined_unified_decoder.py", "decoders/turbo.py"],
  ["classifier_analysis", "forcing_analysis", "track_errors", "decode_buffer"])
p("C30", "The MAVLink dialects send and decode exactly the frames they define",
  "For every message of HC_dialect.xml and minimal_dialect.xml and all field values in range, sending it writes exactly one MAVLink 1 frame: marker 0xFE, payload length, the connection's sequence number (which then advances by 1 modulo 256), system and component id, message id, the fields little-endian in wire order (sorted by size, texts zero-filled or cut to their length), and the X.25 checksum over everything but the marker plus the extra byte derived from the definition, low byte first. The decoder answers a buffer starting with 0xFE with a message if and only if its length byte matches its length, its id is known and its checksum is right, and refuses it, like a buffer starting with anything but a MAVLink marker, with MAVError. The message has the class of the id, the header, payload and checksum of the frame and the field values the payload holds (a short payload is zero-filled, a long one cut, a text ends at its first NUL). Decoding changes neither the buffer nor the decoder.",
  ["inputs"], "all messages of both dialects, all field values, headers, buffers and lengths",
  "The tests decode a few recorded frames; 161 messages have their own class, format string, field order and extra byte.",
  ["mavlink_utils/HC_dialect.py", "mavlink_utils/minimal_dialect.py", "mavlink_utils/HC_dialect.xml", "mavlink_utils/minimal_dialect.xml"],
  ["MAVLink.decode", "MAVLink.send", "MAVLink_message.pack", "MAVLink_header.pack", "MAVLink_*_message", "*_encode", "*_send"])

with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
