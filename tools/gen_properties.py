#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays readable)."""
import json, os
R = "lib/sia/rust/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": [R + f for f in files],
         "mechanism": [{"name": n, "where": R + w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("E01", "Embedded payload is extracted unchanged",
 "Whatever image and payload are given, embedding the payload and then extracting with the same depth and the same number (at least one) of wavelet levels returns exactly the payload bytes. This holds for square and rectangular images whose sides are divisible by 2^levels, for every payload whose encoded form fits the low-pass domain, as long as pixels keep enough headroom (at least 0.75*depth/2^levels + 1 away from 0 and 255) and depth/2^levels is at least 4. A payload that does not fit is refused (panic), never silently truncated.",
 ["inputs", "configurations"], "all pixel values within the headroom, all payload bytes; image shapes, levels 1..4, depths and payload lengths over the configured lists",
 "Tests embed one fixed text into one photo and a few fixed square matrices; the round trip must hold for every pixel pattern and payload, including rectangular shapes and every rounding boundary of the quantiser.",
 ["embedding/src/lib.rs", "embedding/src/io/steganography.rs", "embedding/src/io/data.rs", "embedding/src/haar/mod.rs", "encoding/src/lib.rs"],
 [("embed / extract", "embedding/src/lib.rs"), ("write_bit / read_bit quantiser", "embedding/src/io/steganography.rs")], ["embedding::embed", "embedding::extract"])
prop("E02", "Embedding distortion is bounded and local",
 "Embedding returns an image of the same shape in which every pixel differs from the original by at most 0.75*depth/2^levels + 1 (a saturated pixel clamps to 0 or 255, it never wraps around), whatever the image and the payload. Pixels belonging to low-pass coefficients that carry no payload bit are returned exactly unchanged.",
 ["inputs", "configurations"], "all 8-bit images (all values 0..255) and all payloads of the configured shapes, levels, depths and lengths",
 "Tests compare a handful of output matrices or look at one picture; wrap-around and out-of-block damage need specific pixel values.",
 ["embedding/src/lib.rs", "embedding/src/io/steganography.rs", "embedding/src/haar/mod.rs"],
 [("rounding and saturation to u8", "embedding/src/lib.rs"), ("write_bit", "embedding/src/io/steganography.rs")], ["embedding::embed"])
prop("E03", "Extraction tolerates bounded pixel noise",
 "If every pixel of a marked image is subsequently altered by any amount smaller than depth/4/2^levels - 1/2 grey levels, extraction still returns exactly the embedded payload. The alterations may be different for every pixel and may all push in the same direction.",
 ["inputs", "fault_sequences"], "all images with headroom, all payloads, all per-pixel alterations within the bound, for the configured shapes, levels and depths",
 "No test alters a marked image at all; the worst case is a coordinated alteration of a whole block at a rounding boundary.",
 ["embedding/src/lib.rs", "embedding/src/io/steganography.rs"],
 [("quantisation-index decision in read_bit", "embedding/src/io/steganography.rs")], ["embedding::embed", "embedding::extract"])
prop("E04", "Wavelet transform is perfectly reconstructing and linear",
 "For every real matrix with sides divisible by 2^levels, the inverse multi-level two-dimensional Haar transform of its forward transform returns the matrix up to floating-point error (1e-6 for entries up to 1e3), and the same holds for inverse followed by forward. Each low-pass coefficient equals 2^levels times the mean of its 2^levels x 2^levels block and depends on no other entry.",
 ["inputs", "configurations"], "all entries in [-1000, 1000]; the configured shapes up to 32x48 and levels 1..4 (64x64, 6 levels in the thorough tier)",
 "Tests compare three fixed matrices against stored results.",
 ["embedding/src/haar/mod.rs"], [("dwt_2d", "embedding/src/haar/mod.rs")], ["dwt_2d through the guarded re-export"], "embedding::verif (cfg sia_verif) re-exports dwt_2d, write, read")
prop("E05", "Coefficient writer and reader agree within a quarter step",
 "Bits written into any matrix of coefficients are read back unchanged even when every coefficient is then perturbed by less than a quarter of the depth. Writing moves a coefficient by at most three quarters of the depth, touches exactly one distinct coefficient per bit in row-major order and leaves the rest bit-identical, for square and rectangular domains.",
 ["inputs", "configurations"], "all coefficients up to 200 depths in magnitude, all payload bytes, all perturbations up to 0.249*depth; shapes 2x4 .. 16x16 including odd ones",
 "Tests write fixed bytes in fixed square matrices and never perturb them.",
 ["embedding/src/io/steganography.rs", "embedding/src/io/mod.rs"], [("write_bit, read_bit, get_column_and_row, get_capacity", "embedding/src/io/steganography.rs")], ["io::write / io::read through the guarded re-export"], "embedding::verif (cfg sia_verif)")
prop("C01", "Error-correcting encoding round-trips every message",
 "Decoding the output of encoding with the same capacity returns exactly the original message, for every message content, every length from 0 bytes and every capacity, including capacities for which no code exists and the length header alone frames the data. A message too long for the 16-bit length header is refused, never silently shortened.",
 ["inputs", "configurations"], "all message bytes; lengths 0..69 and selected ones up to 65535 for capacities covering every code and no code",
 "Tests encode seven fixed messages.",
 ["encoding/src/lib.rs"], [("encode / decode", "encoding/src/lib.rs"), ("get_code_by_codeword_length", "encoding/src/lib.rs")], ["encoding::encode", "encoding::decode"])
prop("C02", "A flipped bit in a codeword is corrected",
 "When a message is encoded with a capacity that selects a code, flipping any single bit in every codeword of the encoded stream still decodes to exactly the original message.",
 ["inputs", "fault_sequences"], "all messages of the configured lengths, in one to three codewords; every bit position for TC128, TC256, TC512, selected positions for TM2048 and TM8192",
 "Tests flip one fixed bit in one fixed message per code.",
 ["encoding/src/lib.rs"], [("decode via bit-flipping decoder", "encoding/src/lib.rs")], ["encoding::encode", "encoding::decode"])
prop("C03", "Bytes after the encoded message do not affect decoding",
 "Decoding an encoded message followed by arbitrary further bytes (the unused rest of the embedding domain, of any length including an incomplete last codeword) returns exactly the original message. The encoded size depends only on the message length and the capacity.",
 ["inputs", "configurations"], "all messages; all further bytes, be they an incomplete codeword, whole codewords of noise, zeros, ones, or the codewords of an arbitrary other message with or without a flipped bit; lengths over the configured lists for every code and for no code",
 "In the tests the rest of the domain is whatever one picture contains.",
 ["encoding/src/lib.rs", "embedding/src/lib.rs"], [("chunked decode, length header", "encoding/src/lib.rs")], ["encoding::decode"])
prop("S01", "Payload framing is lossless",
 "Framing a payload and parsing it again returns the same payload, whatever its bytes and however many unrelated bytes follow the frame; the frame is exactly two bytes longer than the payload. Payloads longer than 65535 bytes are refused.",
 ["inputs", "configurations"], "all payload bytes, selected lengths 0..65535, all trailing bytes",
 "Tests frame three fixed payloads.",
 ["embedding/src/io/data.rs", "utils/src/bytes.rs"], [("Data::serialize / deserialize", "embedding/src/io/data.rs")], ["Data::serialize, deserialize through the guarded re-export"], "embedding::verif (cfg sia_verif)")
prop("S02", "Watermark record serialisation is lossless",
 "A watermark record (perturbation bits, signature bytes, text) serialised and deserialised again is equal to the original in all three parts, whatever their contents and for every perturbation length from 0 to 255 bits, signature length 0..255 and text length 0..255, also when unrelated bytes follow. A part too long for its one-byte length is refused instead of corrupted.",
 ["inputs", "configurations"], "all bits and bytes, all text of one-, two- or three-byte characters; each length 0..255 of each part and selected combinations",
 "Tests serialise two fixed records.",
 ["watermarking/src/watermark.rs", "three-bit-quantization/src/lib.rs"], [("Watermark::serialize / deserialize", "watermarking/src/watermark.rs")], ["through the guarded re-export"], "watermarking::verif (cfg sia_verif)")
prop("S03", "Perturbation bits survive conversion to bytes and back",
 "Converting a perturbation bit vector of any length to bytes and back with that length yields the identical bit vector; the byte form has ceil(bits/8) bytes.",
 ["inputs", "configurations"], "all bit values, every length 0..299 (0..1099 in the thorough tier)",
 "Tests convert two fixed vectors.",
 ["three-bit-quantization/src/lib.rs"], [("perturbation_vector_as_bytes / _from_bytes", "three-bit-quantization/src/lib.rs")], ["three_bit_quantization::perturbation_vector_as_bytes"])
prop("Q01", "Noise below one step never changes recovered features",
 "Given any feature values and their perturbation bits, recovering quantised features from values that were each disturbed by up to 0.99 of the quantisation step yields exactly the original quantised features. This holds for negative, zero and positive features, at cell boundaries, for every step size and any number of features with independent disturbances.",
 ["inputs", "configurations"], "all features up to the configured multiple (10 .. 1000000) of the step in magnitude and all disturbances |e| <= 0.99*step, nine steps from 0.001 to 1000, 1..16 features; floating-point rounding included",
 "Tests use a few fixed feature vectors and disturbances; failures sit at bin boundaries.",
 ["three-bit-quantization/src/lib.rs"], [("three_bit_quantization / three_bit_dequantization", "three-bit-quantization/src/lib.rs")], ["three_bit_quantization::three_bit_dequantization"])
prop("Q02", "Quantisation is floor division with three bits per feature",
 "Every feature is quantised to floor(feature / step), and the perturbation vector holds exactly three bits per feature: the quantised value minus one modulo 4 (high bit first) and whether the feature lies in the upper half of its cell. Undisturbed features are recovered exactly.",
 ["inputs", "configurations"], "all features up to the configured multiple of the step in magnitude, nine steps from 0.001 to 1000, 0..11 features; cell borders up to floating-point rounding of the quotient",
 "Tests list a few values.",
 ["three-bit-quantization/src/lib.rs"], [("quantize, mod_four, two_bits_from_integer", "three-bit-quantization/src/lib.rs")], ["three_bit_quantization::three_bit_quantization"])
prop("Q03", "Disturbance beyond two cells is not masked",
 "If a feature is disturbed by more than two quantisation steps, recovery does not return the original quantised value for it, so tampering that moves a feature far is visible to the signature check.",
 ["inputs"], "all features up to the configured multiple of the step, all disturbances between 2.001 and 3, 9 or 100 steps in either direction, nine steps from 0.001 to 1000",
 "Tests contain no large disturbance.",
 ["three-bit-quantization/src/lib.rs"], [("three_bit_dequantization corrects by at most one cell", "three-bit-quantization/src/lib.rs")], ["three_bit_quantization::three_bit_dequantization"])
prop("Z01", "Features are invariant under quarter turns and mirroring",
 "Rotating a square image by 90, 180 or 270 degrees or mirroring it leaves all its moment features (moment magnitudes) unchanged up to floating-point error, for every image. More precisely a quarter turn multiplies the moment of repetition m by a unit factor i^(+-m), and a transposition conjugates it up to such a factor.",
 ["inputs", "configurations"], "all 8-bit square images of the configured sizes 2..16, selected orders up to 21",
 "Tests compare moments of two fixed matrices with stored numbers.",
 ["zernike/src/calc.rs", "zernike/src/lib.rs"], [("get_zernike_matrix / to_polar", "zernike/src/calc.rs")], ["zernike::calc::calculate_zernike_image_moment"])
prop("Z02", "Feature vector has the requested length and is well formed",
 "For n requested features the vector has exactly n entries: the magnitudes of the moments of order 2n-1 with repetitions 1, 3, .., 2n-1, in that order. Every entry is finite and non-negative for every image.",
 ["inputs", "configurations"], "all images of the configured sizes, square or not, sides at least 2, n = 1..11",
 "Tests look at three fixed images and n = 11.",
 ["zernike/src/lib.rs", "image-features/src/lib.rs", "zernike/src/calc.rs"], [("ZernikeFeaturesCalculator", "zernike/src/lib.rs")], ["image_features::calculate_features", "zernike::ZernikeFeaturesCalculator"])
prop("Z03", "Moments are linear in the image and bounded",
 "The moment of an image is a linear functional of its pixels: the moment of a sum of two images is the sum of their moments, each pixel enters with weight (order+1)/(pi*number of pixels) times the conjugate Zernike basis value at its position, and changing every pixel by at most d grey levels changes each moment by at most d*(order+1)/pi*(max basis magnitude).",
 ["inputs", "configurations"], "all pairs of 8-bit images of the configured sizes, orders up to 21",
 "Tests fix images.",
 ["zernike/src/calc.rs"], [("calculate_zernike_image_moment", "zernike/src/calc.rs")], ["zernike::calc::calculate_zernike_image_moment"])
prop("Z04", "Basis matrix equals the Zernike polynomial definition",
 "The basis matrix for any order, repetition and dimension contains at every position the conjugated Zernike polynomial of the position mapped onto the unit disc (corner pixels on the circle), so that its entries never exceed magnitude 1 by more than rounding error and the radial polynomial is 1 at the rim.",
 ["configurations"], "selected dimensions 2..32, orders 0..12 and selected up to 21; repetitions selected above dimension 9 (every repetition in the thorough tier)",
 "Tests compare a few 8x8 matrices with stored six-digit numbers.",
 ["zernike/src/calc.rs"], [("radial, v, to_polar", "zernike/src/calc.rs")], ["zernike::calc::get_zernike_matrix"])
prop("G01", "Signatures bind message and key",
 "Verifying a signature produced for a message with the matching key pair succeeds for every message of every length. Verifying it for any other message, any altered signature, or with another public key fails.",
 ["inputs", "histories"], "all messages of the configured lengths and all different messages of the same or another length, all signature alterations; the elliptic-curve primitive itself is replaced by an ideal signature",
 "Tests sign and verify one message with one key pair and never a mismatch.",
 ["signature/src/lib.rs", "signature/src/ecdsa.rs", "utils/src/format.rs"], [("sign / verify", "signature/src/lib.rs")], ["signature::sign", "signature::verify"])
prop("W01", "Watermarking preserves shape, colour type and alpha",
 "Watermarking an 8-bit grey, grey+alpha, RGB or RGBA image returns an image of the same dimensions and colour type in which alpha is untouched and every colour sample differs from the original by at most 0.75*depth/8 + 1. Every colour channel is processed on its own: it depends only on the same channel of the input.",
 ["inputs", "configurations"], "all pixel values of images of the configured sizes (features abstracted as arbitrary), the four colour types",
 "Tests run one photo and do not compare channels.",
 ["watermarking/src/lib.rs", "watermarking/src/process.rs"], [("watermark", "watermarking/src/lib.rs"), ("watermark_channel", "watermarking/src/process.rs")], ["watermarking::watermark"], "image_features override (cfg sia_verif)")
prop("W02", "A marked channel authenticates exactly when features are kept",
 "A channel marked with a given depth, step and number of features authenticates with the same parameters, for every image with headroom, as long as each feature moved by at most 0.99 quantisation steps between marking and authentication. It does not authenticate when some feature moved by more than two steps, even if all others stayed.",
 ["inputs", "histories"], "all images with headroom of the configured sizes, all feature vectors up to 40 steps in magnitude and all feature changes in the stated ranges; ideal signature",
 "Tests authenticate one marked photo (and two fixed channels); accept and reject must hold for every image and feature vector.",
 ["watermarking/src/process.rs", "watermarking/src/watermark.rs", "embedding/src/lib.rs", "three-bit-quantization/src/lib.rs", "signature/src/lib.rs"], [("watermark_channel / authenticate_channel", "watermarking/src/process.rs")], ["through the guarded re-export"], "watermarking::verif and image_features override (cfg sia_verif)")
prop("B01", "Integer vectors round-trip through bytes",
 "Any vector of 16-bit or 64-bit integers converts to little-endian bytes and back to the identical vector, and any byte string of matching length converts to integers and back to the identical bytes.",
 ["inputs"], "all values, 0..12 and selected up to 100 elements",
 "Tests convert a few fixed vectors.",
 ["utils/src/bytes.rs"], [("vec_*_to_bytes / vec_*_from_bytes", "utils/src/bytes.rs")], ["utils::bytes"])
prop("B02", "Hex text round-trips and malformed hex is rejected",
 "Any byte string encodes to lower-case hex of twice its length and decodes back to the same bytes; upper-case digits decode to the same bytes. Any ASCII text that is not an even number of hex digits is reported as an error value rather than causing a panic or yielding bytes.",
 ["inputs"], "all byte strings of 0..33 and selected lengths up to 100 bytes; all texts of up to 12 and of 16, 32, 64 ASCII characters and of up to 8 bytes of two- or three-byte characters (longer in the thorough tier)",
 "Tests decode one fixed key string.",
 ["utils/src/format.rs"], [("encode_hex / decode_hex", "utils/src/format.rs")], ["utils::format::encode_hex", "utils::format::decode_hex"])
prop("R01", "Pseudo-random numbers stay in range and are reproducible",
 "The generator returns unit values in [0, 1) and values in [from, to] for every seed and range, without panicking, and the same seed gives the same sequence.",
 ["inputs", "histories"], "all 64-bit seeds, the configured ranges, 1..60 draws (400 in the thorough tier)", "Tests look at one seed.", ["utils/src/pseudo_random.rs"], [("PseudoRandom", "utils/src/pseudo_random.rs")], ["utils::pseudo_random"])
prop("D01", "Damaged or foreign bytes never crash the readers",
 "Whatever bytes they are given (cut off, damaged, or never written by this library), the readers of a picture's payload answer instead of panicking: decoding returns the bytes after the length header, cut at the end of the data; parsing the data frame and the watermark record likewise use only bytes that exist and cut every part whose stated length reaches beyond the data (fewer bytes than a header give an empty result); restoring the quantised features uses only whole triples of bits of features that exist; and verifying anything that is not a genuine signature answers no.",
 ["inputs", "fault-schedules"], "all byte contents and all stated lengths: uncoded data up to 90 bytes, arbitrary bytes (codewords or not) of up to three codewords for every code up to 128 data bits and selected ones above, frames up to 300 bytes, records up to 12 bytes (60 with fixed part lengths), signatures of 0..255 bytes",
 "Tests read back what they wrote; the damaged inputs a verifier meets are never tried.",
 ["encoding/src/lib.rs", "embedding/src/io/data.rs", "watermarking/src/watermark.rs", "three-bit-quantization/src/lib.rs", "signature/src/lib.rs"],
 [("decode", "encoding/src/lib.rs"), ("deserialize", "embedding/src/io/data.rs"), ("deserialize", "watermarking/src/watermark.rs"), ("three_bit_dequantization", "three-bit-quantization/src/lib.rs"), ("verify", "signature/src/lib.rs")],
 ["encoding::decode", "three_bit_quantization::three_bit_dequantization", "signature::verify", "through the guarded re-exports"], "embedding::verif, watermarking::verif (cfg sia_verif)")
prop("A01", "A picture without a genuine mark does not authenticate",
 "Authentication answers no, without panicking, for every picture that does not carry a record signed with the private key for its own features: an unmarked picture that happens to read as any bytes, a picture into which somebody embedded a made-up record (any perturbation bits, any signature bytes), and a picture carrying a genuine signature of features of which at least one lies more than two quantisation steps from its own, whatever perturbation bits accompany it.",
 ["inputs", "histories"], "unmarked pictures: all pictures of 64x128 and 128x64 pixels with one feature, and all pictures of 8x8 blocks of two values that read as 9 bytes with one given byte; made-up records: all contents for given part lengths and all carriers with headroom; features arbitrary (abstracted), ideal signature",
 "Tests only authenticate a picture marked by the library itself.",
 ["watermarking/src/process.rs", "watermarking/src/watermark.rs", "embedding/src/lib.rs", "encoding/src/lib.rs", "three-bit-quantization/src/lib.rs", "signature/src/lib.rs"],
 [("authenticate_channel", "watermarking/src/process.rs")], ["through the guarded re-export"], "watermarking::verif and image_features override (cfg sia_verif)")
prop("N01", "Command-line tool writes one output per input under the suffix name",
 "For every input file the command-line tool writes the watermarked image as <stem>-<suffix>.<ext> in the output folder and never overwrites an input.",
 ["inputs"], "all file names and option combinations", "There are no tests of the command line.", ["cli/src/main.rs"], [("process", "cli/src/main.rs")], ["file system"])
prop("N02", "Browser binding returns the watermarked picture in the original encoding",
 "For every picture handed over by the browser the binding decodes, watermarks and re-encodes it with unchanged dimensions and media type.",
 ["inputs"], "all pictures", "Only run by hand in a browser.", ["web/src/lib.rs"], [("wasm exports", "web/src/lib.rs")], ["wasm_bindgen exports"])
prop("N03", "Ordinary processing keeps the real features within one step",
 "Watermarking a photo changes its real Zernike features (after histogram equalisation) by less than one quantisation step, so that a freshly marked photo authenticates.",
 ["inputs"], "all photos", "Tests check one photo.", ["watermarking/src/process.rs"], [("equalize_histogram, calculate_features", "watermarking/src/process.rs")], ["watermarking::watermark"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
