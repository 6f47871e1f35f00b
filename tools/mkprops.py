import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Every honestly produced signature verifies",
"For each of the twelve parameter sets, every valid key pair, every message of any length and every randomizer, signing succeeds, returns exactly the fixed signature size, and the verifier accepts the result under the matching public key. This holds through the plain API, the API with caller-chosen randomness and the NIST-style combined API, and whatever value the final challenge happens to take.",
["inputs","configurations"],"all parameter sets x key pairs x messages (0 .. >64 KiB) x randomizers (absent, short, long); all values of the VOLE challenge in the reduced model",
"The API tests sign a couple of fixed-length messages under random keys; the signing outcome depends on hash outputs (leaf indices, counter carries, block boundaries) that a few samples do not reach.",
["faest.c","faest_param.c.in","vole.c","vc.c","faest_aes.c","universal_hashing.c"],
[("faest_sign/faest_verify recompute the same transcript","faest.c"),("public wrappers","faest_param.c.in")],
observe=["faest_<param>_sign*/verify return values and buffers"])

p("C02","Signing is exactly the specified function of key, message and randomizer",
"The signature bytes are the deterministic FAEST v1 function of (secret key, message, randomizer): every byte of the signature equals what the written specification computes, so equal inputs give equal bytes and any change of key, message or randomizer (any byte of them, whatever their length) changes the commitment root and IV. Nothing else, such as previous calls, buffer contents or buffer positions, influences the output.",
["inputs"],"all secret keys, all messages of any length, all randomizers of any length including none",
"The known-answer tests fix one key/message/randomizer per parameter set and one length; they cannot show that every byte of a long message or long randomizer is bound, or that other leaf/IV/length patterns follow the specification.",
["faest.c","faest_param.c.in","random_oracle.c","vole.c","vc.c"],
[("mu, (rootkey, iv), chall_1, chall_2, chall_3 derivations","faest.c"),("signature layout helpers","faest.c")],
observe=["faest_<param>_sign_with_randomness output"])

p("C03","Verification accepts nothing but the specified signatures",
"The verifier accepts (public key, message, signature) exactly when the specified verification equation holds: for a valid triple, changing any bit of the signature, any byte of the message or its length, any byte of the public key, exchanging components of the signature, or presenting a wrong signature length makes it return a non-zero error. A verdict depends on every byte of all its inputs and never on anything else.",
["inputs"],"all single and multiple alterations of every signature component (each byte position), message (head, tail, truncation, extension, very long), public key and lengths; all parameter sets",
"The tests flip nothing or one position; a component left out of a hash or comparison for some index, length or challenge value is not noticed by them.",
["faest.c","faest_param.c.in","vole.c","vc.c","random_oracle.c"],
[("all signature components enter chall_1/chall_2/chall_3","faest.c"),("final challenge comparison","faest.c"),("length check","faest_param.c.in")],
observe=["faest_<param>_verify return value"])

p("C04","The zero-knowledge proof accepts exactly the witnesses of the one-way function",
"For any VOLE-consistent input, prover and verifier of the AES/Rijndael proof obtain the same check value exactly when the committed extended witness satisfies every S-box constraint of the key schedule and encryption for the given public key; a witness that is wrong in any byte makes the values differ (except with the negligible probability of the universal hash). In particular a proof made from a key that does not match the public key is rejected.",
["inputs"],"all parameter sets, all witnesses (each single-byte corruption and wrong keys), VOLE keys Delta, tags and challenges",
"The tests check that an honest witness passes for one vector per set; a constraint dropped or weakened on the verifier's side, or evaluated on the wrong byte, keeps honest proofs passing.",
["faest_aes.c","aes.c","universal_hashing.c","fields.c"],
[("per-S-box constraints of key expansion and encryption","faest_aes.c"),("ZKHash folding","universal_hashing.c")],
observe=["aes_prove (a_tilde, b_tilde) and aes_verify outputs, faest_verify verdict"])

p("C05","Only valid keys are generated, and invalid keys are refused",
"Key generation returns a pair whose public key is the one-way-function image of its secret key and whose evaluation meets no zero S-box input; it redraws until this holds. Signing refuses every secret key with a zero S-box input at any position, and pair validation reports success exactly for matching valid pairs, a distinct code for zero S-box inputs and another for a mismatching public key in any byte.",
["inputs","histories"],"all keys, in particular keys engineered to have a zero S-box input at each single position of the key schedule and of each encryption block; all single-byte mismatches; all sequences of rejected draws in key generation",
"Random keys hit a given S-box position being zero with probability 1/256 and the tests never single out one position, so a missed check in one round, one word or the second block is invisible to them.",
["faest_param.c.in","owf.c","aes.c"],
[("contains_zero in key expansion and SubBytes","aes.c"),("retry loop, validate_keypair, check in sign","faest_param.c.in")],
observe=["faest_<param>_keygen / validate_keypair / sign return values and outputs"])

p("C06","Secrets come only from successfully obtained fresh randomness",
"Key generation and randomized signing take all their secret bits from the random source and use every bit drawn: the secret key is the last accepted draw, and the signature is the one for a freshly drawn randomizer of security-parameter length. If the random source reports failure at any draw, the operation reports failure and produces no key or signature; it never continues with stale, constant or uninitialised bytes.",
["fault_sequences","inputs"],"all sequences of random-source outcomes (success/failure at each draw, rejected draws in between), all parameter sets",
"The tests run with a working system random source; they never make it fail and cannot observe which bytes were drawn.",
["faest_param.c.in","randomness.c"],
[("rand_bytes calls in keygen and sign","faest_param.c.in")],
observe=["rand_bytes calls and outcomes, keygen/sign results"])

p("C07","API argument contract and memory footprint",
"Every public function rejects missing key, signature and length pointers, too small signature buffers, a missing randomizer with non-zero length and wrong signature lengths with a negative error and without touching the output; otherwise it reads only its inputs, writes only the documented output bytes (exactly the key and signature sizes) and leaves inputs unmodified. The result does not depend on where or how aligned the buffers are, on what the output buffers contained, or on spare room behind them.",
["inputs"],"all combinations of null/short/exact/long arguments, alignments and surrounding memory, all parameter sets, all public functions",
"The API tests pass well-formed, generously sized buffers and check a few null arguments only.",
["faest_param.c.in","faest_param.h.in","faest.c"],
[("argument checks at the head of each public function","faest_param.c.in")],
observe=["return codes, guard pages and canaries around every buffer"])

p("C08","NIST-style combined API keeps message and signature together",
"The combined signing call outputs the message followed by a valid signature and reports exactly message length plus signature size; opening returns exactly the original message and length for such an output and fails for anything else, including inputs shorter than a signature, without reporting a message. Both calls work for empty and long messages and when message and combined buffers overlap.",
["inputs","histories"],"all message lengths, overlap offsets between the buffers, truncations/extensions/corruptions of the combined message, all parameter sets",
"The API tests use one short message with separate buffers.",
["crypto_sign.c.in","faest_param.c.in"],
[("memmove before signing and after verification, length arithmetic","crypto_sign.c.in")],
observe=["crypto_sign_keypair / crypto_sign / crypto_sign_open results"])

p("C09","Secret erasure and the portable helper functions keep their contracts",
"Clearing a private key zeroes every byte of it and nothing else, and is not optimised away. The portable fallback helpers behave as the functions they stand in for on all arguments: constant-time comparison returns zero exactly for equal buffers and inspects all bytes, explicit erasure zeroes exactly the given range, aligned allocation returns usable memory of the requested alignment or fails for invalid requests, and the bit helpers (parity, ceiling logarithm, byte order) are exact.",
["inputs","configurations"],"all key contents, all lengths/positions of differing bytes, all alignments and sizes, all 32-bit inputs of the bit helpers (boundaries and samples), fallback variants of the helpers",
"No test calls the clearing function on observable memory, and the fallbacks are not compiled in the tested configurations.",
["compat.c","compat.h","endian_compat.h","faest_param.c.in"],
[("faest_explicit_bzero, faest_timingsafe_bcmp, faest_aligned_alloc, parity8, ceil_log2","compat.c, compat.h")],
observe=["memory contents after the call, return values"])

p("C10","Vector commitments open all leaves but one, and only that way",
"For every tree depth in use, every root seed and IV and every leaf index, the commitment opens with one sibling seed per level plus the hidden leaf's commitment; reconstruction from the opening yields exactly the committed seeds and commitments of all other leaves and the same overall commitment. The opening never contains a seed on the path to the hidden leaf, and any altered opening, index or IV reconstructs to a different overall commitment.",
["inputs"],"all leaf indices for all depths (exhaustively in the model and on small real depths, boundary/residue classes on real depths), all seeds and IVs, all security levels",
"The tests open a few fixed indices at a few depths; an error at a first/last leaf, at an index class mod 4, or disclosure of a path seed passes them.",
["vc.c","random_oracle.c","aes.c"],
[("GGM tree expansion, sibling opening, 4-way batched leaf hashing","vc.c")],
observe=["vector_commitment / vector_open / vector_reconstruction outputs"])

p("C11","The VOLE correlation holds for every challenge",
"For every root seed, IV, parameter set and challenge, the verifier's reconstructed values equal the prover's masks plus challenge bit times the (corrected) shared vector, in every column and byte, and both sides compute the same commitment hash. Challenge decoding splits the challenge bits, without loss, overlap or reordering, into one index of the prescribed depth per repetition, and refuses repetition numbers out of range.",
["inputs"],"all challenges (exhaustively in the reduced model; every index class on the real code), all repetitions, seeds, IVs and parameter sets",
"The tests use one challenge vector per parameter set, so a fault at e.g. index zero, all-ones, or in the last repetition is not reached.",
["vole.c","vc.c"],
[("ConvertToVole folding, correction strings, ChalDec, index-permuted seeds","vole.c")],
observe=["vole_commit / vole_reconstruct / ChalDec / ConvertToVole outputs"])

p("C12","Parameter sets, sizes and signature layout are consistent",
"For every parameter set the exported constants agree with the specification's derivation from the security level, cipher and repetition count: witness length, tree depths and counts (which use up exactly the challenge bits), and public key, secret key and signature sizes. The signature fields tile the signature exactly, without gap or overlap, and look-ups with an unknown parameter identifier are reported as invalid with null parameters.",
["configurations","inputs"],"all twelve parameter sets, all parameter identifiers including out-of-range ones, all byte positions of a signature",
"The tests use the tables as given on both the producing and consuming side, so a consistent but wrong value or name is not noticed.",
["instances.c","instances.h","faest_param.h.in","faest.c"],
[("parameter tables and look-up","instances.c"),("size macros","faest_param.h.in"),("field position helpers","faest.c")],
observe=["faest_get_paramset, faest_get_param_name, size macros, located signature fields"])

p("C13","Random oracles are domain-separated SHAKE, whatever the chunking or lanes",
"Every random oracle equals SHAKE128 (security level 128) or SHAKE256 (higher levels) of the concatenated input followed by its own domain byte, however the input is split into updates, whatever the input and output lengths, and however the output is squeezed. The four-lane variant gives in each lane what the single-lane variant gives, and all Keccak backends agree.",
["inputs","histories","configurations"],"all input lengths around multiples of the rates, all ways to chunk absorb/squeeze (exhaustive in a model of the sponge buffer), all lane assignments, all security levels and backends",
"The tests hash a handful of fixed inputs with one chunking; buffer-boundary and lane faults depend on length residues modulo 136/168.",
["hash_shake.h","random_oracle.c","sha3/KeccakSponge.inc","sha3/KeccakHash.c","sha3/KeccakHashtimes4.c","sha3/KeccakSpongetimes4.inc"],
[("sponge buffering, padding, domain bytes","sha3/, random_oracle.c")],
observe=["H0..H3 (and four-lane H0) outputs for recorded call sequences"])

p("C14","The seed expander is AES counter mode for every key, IV and length",
"Seed expansion equals the AES-128/192/256 counter-mode key stream starting at the given IV, with the counter a 128-bit big-endian number that carries through all bytes and wraps, for every output length including partial final blocks and zero, and shorter outputs are prefixes of longer ones. It writes exactly the requested bytes, leaves key and IV unchanged, and is the same with and without the external crypto library.",
["inputs","configurations"],"all keys, IVs (in particular with runs of 0xff that carry 1..16 bytes), lengths 0..several blocks, three key sizes, two backends",
"The tests use an all-zero or fixed IV and fixed lengths; carries out of the low byte(s) occur for rare IVs only.",
["aes.c"],
[("prg, aes_increment_iv","aes.c")],
observe=["prg and aes_increment_iv outputs"])

p("C15","Block ciphers, one-way function and extended witness follow Rijndael",
"For all keys and blocks the ciphers equal AES-128/192/256 and Rijndael with 192/256-bit blocks, the one-way function equals (two-block) AES or Even-Mansour encryption of the public input, and the validity flag is raised exactly when some S-box input is zero. The extended witness consists of exactly the key-schedule words and round states the proof is about, with the stated length.",
["inputs"],"all keys, inputs and S-box values at all positions/rounds, all six ciphers/one-way functions and twelve parameter sets",
"The tests use the published vectors, in which only some S-box inputs, carries of the round constants and positions occur; the zero flag is never examined per position.",
["aes.c","owf.c"],
[("expand_key, aes_encrypt, compute_sbox, shift_row for 4/6/8 words, aes_extend_witness","aes.c"),("owf_*","owf.c")],
observe=["*_encrypt_block, *_init_round_keys, owf_*, aes_extend_witness outputs"])

p("C16","Universal hashes compute the specified linear functions",
"The VOLE hash and the ZK hash equal the specified polynomial hashes over GF(2^lambda) and GF(2^64) for every key, input and length in use, and are therefore linear over XOR for a fixed key. Every input byte influences the result, including the unaligned tail and the final masking block, and incremental evaluation equals one-shot evaluation.",
["inputs"],"all hash keys and inputs (basis vectors, random, all-ones), all lengths in use and their residues, three field sizes",
"Tests compare a fixed vector per size; linearity and sensitivity over the whole input space cannot be sampled that way.",
["universal_hashing.c","fields.c"],
[("vole_hash_*, zk_hash_*","universal_hashing.c")],
observe=["vole_hash, zk_hash outputs"])

p("C17","Field arithmetic is exact",
"Addition, multiplication (full, by GF(2^64) elements, by bits), inversion, bit and byte embeddings, polynomial summation and load/store in GF(2^8), GF(2^64), GF(2^128), GF(2^192) and GF(2^256) are exactly the operations of the fields defined by the fixed reduction polynomials. The byte embedding is a ring homomorphism from GF(2^8), and inversion maps zero to zero.",
["inputs","configurations"],"all pairs in GF(2^8) exhaustively, all basis-monomial pairs (which determine the bilinear products) plus random operands in the larger fields, vector and scalar representations",
"The tests use random operands against another library or a few vectors; a reduction error that needs a particular high-bit pattern is not guaranteed to occur, and small fields are not exhausted for all operations.",
["fields.c","fields.h"],
[("bf*_mul, bf8_inv, bf*_byte_combine(_bits), bf*_sum_poly","fields.c")],
observe=["bf8/bf64/bf128/bf192/bf256 operation results"])

p("C18","Control flow and memory access are independent of secrets",
"For fixed public data, the sequence of executed program points and accessed memory locations of key evaluation, key-pair validation and signing does not depend on the secret key or on secret intermediate values, except through values that are made public anyway (validity of the key, the signature itself, the opened challenge). Comparing a derived public key inspects all bytes whatever the position of a difference.",
["inputs"],"all pairs of secrets with equal public data, including structured secrets (zero bytes, all-ones, single bits); all parameter sets and security levels",
"Functional tests cannot observe control flow or addresses at all.",
["aes.c","fields.c","faest_aes.c","faest.c","vole.c","universal_hashing.c","utils.h","compat.c","faest_param.c.in"],
[("masked arithmetic instead of branches and tables","fields.c, utils.h, aes.c"),("constant-time comparison","compat.c")],
observe=["instrumented program-counter and load/store traces of pairs of runs"])

p("C19","Concurrent use gives every caller the sequential result",
"Any number of threads may generate keys, sign, verify and validate at the same time, with the same or different parameter sets and shared read-only keys and messages, and each call returns exactly what it would return alone. No call shares mutable state with another, at whatever points the calls are interleaved.",
["schedules"],"all interleavings of two or three operations at instrumented preemption points (all switch points of bounded preemption), all pairs of operation kinds, free-running threads under a race detector",
"The tests are single-threaded.",
["faest.c","vole.c","vc.c","faest_aes.c","aes.c","random_oracle.c","faest_param.c.in","sha3/KeccakSponge.inc"],
[("all state in locals, caller buffers or per-call heap blocks","all sources")],
observe=["results of operations under controlled interleavings"])

p("C20","Calls give back every resource they take",
"Every public call, whether it succeeds or reports an error, returns with all heap memory and cipher contexts it acquired released exactly once and nothing else released, and its memory consumption is bounded by the parameter set, not by the message. Repeating calls any number of times therefore leaves the heap as it was.",
["histories","inputs"],"all sequences of public calls over success and error outcomes (invalid keys, wrong lengths, forged signatures), all parameter sets, both cipher backends",
"The tests never look at the heap; a leak on an error path or on rejected signatures does not fail them.",
["faest.c","vole.c","vc.c","faest_aes.c","aes.c"],
[("matching malloc/free in sign, verify, vole, proofs","faest.c, vole.c, vc.c, faest_aes.c")],
observe=["allocation and release events per call"])

p("C21","All build configurations implement the same scheme",
"Keys, signatures and verdicts are bit-identical across the supported build configurations: own AES or external crypto library, every Keccak implementation (64-bit, 32-bit, vectorised), four-lane or single-lane hashing, vector or scalar field representation, and compiler or optimisation level. A signature made by one build is accepted or rejected alike by every other.",
["configurations","inputs"],"all supported configuration combinations that compile here x parameter sets x keys/messages; producing and consuming build vary independently",
"Each test run exercises one configuration against itself or one vector; two of the alternatives are not compiled by the tests at all.",
["aes.c","fields.h","fields.c","hash_shake.h","sha3/","macros.h","endian_compat.h"],
[("compile-time alternatives","fields.h, hash_shake.h, aes.c, sha3/*")],
observe=["keygen/sign/verify outputs per configuration"])

p("C22","Calls are independent of history",
"The outcome of each public call is a function of its arguments and drawn randomness only: no earlier successful or failed call, with the same or another parameter set or key, in any order and number, changes a later result. Signing does not modify keys, verifying does not modify signatures, and a failed call leaves the library fully usable.",
["histories"],"all sequences of public calls up to the explored length over keygen, sign, randomized sign, verify, validate, clear, NIST calls with valid and invalid arguments and mixed parameter sets",
"The tests run each operation a fixed number of times in one order, in a process of its own.",
["faest_param.c.in","faest.c","crypto_sign.c.in","aes.c"],
[("stateless implementation","all sources")],
observe=["results of replayed call histories"])

p("C23","The known-answer-test generator's DRBG follows its specification",
"The deterministic random generator used to produce known-answer files is the AES-256 CTR_DRBG without derivation function: output and internal state are determined by the seed (xor personalization), counters carry over all 128 bits, and the output is a function of the sequence of request lengths exactly as specified. Distinct request sequences are served without skipping or repeating generator blocks.",
["inputs","histories"],"all seeds/personalizations and all sequences of request lengths (zero, partial, multi-block)",
"No test compares the generator with anything; it only runs when KAT files are produced.",
["tools/rng.c","tools/rng.h"],
[("AES256_CTR_DRBG_Update, randombytes, randombytes_init","tools/rng.c")],
observe=["randombytes outputs"])

p("C24","The random source fills the whole buffer or reports failure",
"Whichever system facility provides randomness, a successful request has filled exactly the requested bytes with data from that facility and nothing beyond, in the face of partial reads, interruptions and repeated attempts; when the facility fails or delivers too little, the request reports failure. File descriptors it opens are closed on every path.",
["fault_sequences","configurations"],"all sequences of outcomes (full, short, interrupted, again, error) of the system calls for requests of all sizes, each compile-time variant of the source that builds here",
"The tests see only a working getrandom; the other variants are not even compiled.",
["randomness.c"],
[("rand_bytes variants","randomness.c")],
observe=["rand_bytes results under scripted system-call outcomes"])
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
