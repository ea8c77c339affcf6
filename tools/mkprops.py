import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]="none: observed through the public API"
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
DPFH="dpf/distributed_point_function.h"; DPFC="dpf/distributed_point_function.cc"
VTH="dpf/internal/value_type_helpers.h"; VTC="dpf/internal/value_type_helpers.cc"
p("D01","The two DPF key shares reconstruct exactly the point function at every level",
 "For every supported list of parameters (one or more hierarchy levels, domains up to 2^128, any supported value type per level), every point alpha and every list of values, generating a key pair succeeds and adding the two parties' outputs at level i yields the i-th value at the prefix of alpha for that level and the group's zero at every other position. Full-domain expansion lists the positions in increasing order, exactly once each.",
 ["inputs","configurations"],"all parameter lists x alpha x beta lists x evaluated positions",
 "Tests sample a few domain sizes and a few alphas with mostly one value type; off-by-one errors in tree-level mapping, block packing or 128-bit arithmetic appear only for particular combinations of domain size, value width and alpha.",
 [DPFH,DPFC,VTH,VTC,"dpf/internal/proto_validator.cc"],
 [("key generation and correction words","DistributedPointFunction::GenerateKeysIncremental / GenerateNext / ComputeValueCorrection"),("expansion and value correction","ExpandSeeds, HashExpandedSeeds, EvaluateUntil in "+DPFH)],
 [("key","seed, party and correction words","DpfKey proto")],["EvaluateUntil","EvaluateAt"])
p("D02","Incremental evaluation depends on what is asked, not on how it was reached",
 "For every sequence of incremental evaluations on a context (levels skipped, prefixes in any order or repeated, any choice of prefixes refining earlier ones, range expansion and point evaluation mixed, the context serialised and reloaded in between) the outputs equal the shares obtained by evaluating the same positions directly, listed per given prefix in the caller's order and in increasing order below each prefix. A refused call leaves the context exactly as it was, so the evaluation can carry on.",
 ["histories","inputs"],"all histories of calls on one context, with reloads and refused calls in between",
 "The tests walk a handful of fixed level sequences with sorted or randomly drawn prefixes; a cached partial evaluation that is stale, reordered, duplicated or from the wrong level shows only after particular multi-step histories.",
 [DPFH,DPFC,"dpf/internal/proto_validator.cc","dpf/distributed_point_function.proto"],
 [("cached partial evaluations","ComputePartialEvaluations, ExpandAndUpdateContext"),("context checks","ProtoValidator::ValidateEvaluationContext")],
 [("context","previous level, cached seeds per tree index","EvaluationContext proto")],["EvaluateUntil","EvaluateNext","EvaluateAt"])
p("D03","Every way of evaluating a DPF key gives the same share",
 "For a given key, level and position, the share produced is the same whether obtained by point evaluation of one or many points (any order, repeated), by expansion of the domain, or by the multi-key evaluate-and-apply interface, which applies the caller's operation to the results of all keys once per level in order, honours the requested shift of the points and stops when told to. Batch size and composition never influence a result, nor do other threads evaluating with the same object.",
 ["inputs","configurations","programs","schedules"],"all keys, levels, point lists, batch sizes, shift amounts and stopping levels",
 "Tests compare entry points on single keys or uniform batches; vector-lane mix-ups, tail handling of odd batch sizes and per-key correction words show up only for specific batch lengths and mixed parties or keys.",
 [DPFH,DPFC,"dpf/internal/evaluate_prg_hwy.cc"],
 [("batched path evaluation","EvaluateSeeds, EvaluateAndApply"),("range expansion","ExpandSeeds")],None,["EvaluateAt","EvaluateAndApply","EvaluateUntil"])
p("D04","Malformed DPF parameters, keys, contexts and arguments are refused",
 "Every invalid parameter list, alpha, value, key, evaluation context, hierarchy level, prefix or point is refused with an invalid-argument error (never a crash, never a wrong answer), and every valid one is accepted. A value of another type than the one declared for its level is refused as well.",
 ["inputs","configurations"],"all single- and multi-field departures from valid requests, at and around every boundary",
 "Tests try one representative per rule; the boundaries (exactly 2^n, 128-bit domains, empty vs missing, level -1, one correction word too few) multiply out beyond what is sampled, and acceptance of all valid inputs is never checked.",
 [DPFH,DPFC,"dpf/internal/proto_validator.cc",VTC],
 [("validation","ProtoValidator::ValidateParameters / ValidateDpfKey / ValidateEvaluationContext"),("argument checks","EvaluateUntil, EvaluateAt, EvaluateAndApply, GenerateKeysIncremental")],None,["status codes of every public call"])
p("D05","Keys and shares are exactly those of the published construction",
 "Given the two random seeds in a key pair, every correction word and every share is the one prescribed by the documented incremental DPF construction over the fixed-key AES hash with the documented keys. A serialised key is the documented message encoding of these parts, so keys made by one build can be evaluated by any other build that follows the format.",
 ["inputs","configurations"],"all seeds, parameters, alphas, values and positions",
 "The tests check that two shares of the same build add up, so any change applied consistently to generation and evaluation (hash input order, control-bit position, constants, sampling order) passes while breaking interoperability and security.",
 [DPFH,DPFC,VTH,"dpf/aes_128_fixed_key_hash.cc","dpf/internal/evaluate_prg_hwy.cc","dpf/distributed_point_function.proto"],
 [("seed expansion and correction","GenerateNext, ComputeValueCorrection"),("hash","Aes128FixedKeyHash::Evaluate"),("byte order","ConvertBytesTo / ConvertBytesToArrayOf")],[("key","DpfKey","proto")],["DpfKey","EvaluateAt"])
p("D06","Value types are the groups and encodings they announce",
 "Unsigned integers, integers modulo N, XOR groups and tuples of these form commutative groups under the provided operations, with in-place and out-of-place forms agreeing and no operation reading or writing another component. Encoding a value or a type as a message and decoding it gives back the same value, values that do not fit or are of the wrong kind are refused, and values drawn from random bytes are the announced function of those bytes: the raw bytes for integers, and iterated division with remainder for integers modulo N.",
 ["inputs","programs"],"all value types in the supported grammar, all elements, all byte strings",
 "Tests use a few types and values; wrap-around, 128-bit halves, component mix-ups between tuple positions and wrong truncation show up only for particular widths and operands.",
 ["dpf/tuple.h","dpf/xor_wrapper.h","dpf/int_mod_n.h","dpf/int_mod_n.cc",VTH,VTC],
 [("group operations","Tuple, XorWrapper, IntModN operators"),("codec","ToValue, FromValue, ToValueType"),("sampling","FromBytes, SampleFromBytes, UnsafeSampleFromBytes")],None,["operators","ToValue/FromValue"])
p("D07","DPF keys are fresh, and their layout reveals nothing but the parameters",
 "Every generated key pair uses fresh, unrelated random seeds for the two parties, so repeating a request never repeats key material. Which fields are set and how many correction words and value corrections there are depends only on the parameters, never on alpha, the values or the party, and the correction words of both keys are identical. Given one party's key, every correction word remains equally consistent with every alpha, because the other party's seed masks it.",
 ["inputs","histories"],"all requests and repetitions of requests",
 "Tests check sums, which do not change if a seed is reused, constant or shared, or if a field's presence depends on a secret bit.",
 [DPFC,DPFH,"dcf/distributed_comparison_function.cc"],
 [("seed generation","GenerateKeysIncremental (RAND_bytes)")],None,["DpfKey fields"])
p("D08","A saved evaluation holds exactly the state its format documents",
 "At every moment of an incremental evaluation, the context that can be serialised consists of the parameters, the unchanged key, the last evaluated level and, for the level it names, partial evaluations each of which is a tree prefix with exactly the seed and control bit that the key's correction words prescribe for it; every prefix that may still be refined is among them. Its bytes are the documented message encoding of these parts, and the order or repetition of the partial evaluations makes no difference, so an evaluation saved by one build can be carried on by any other that follows the format.",
 ["histories","inputs"],"all histories of calls on a context, at every point of which it may be saved; all keys and parameters",
 "Tests carry on from a context within one and the same build, where storing and reading may agree on anything: seeds of another level or before correction, another prefix numbering. They never look at what is stored.",
 [DPFC,DPFH,"dpf/distributed_point_function.proto"],
 [("storing and reading partial evaluations","ComputePartialEvaluations"),("context","CreateEvaluationContext")],
 [("partial_evaluations","prefix, seed and control bit per evaluated node","EvaluationContext proto")],["EvaluationContext fields","EvaluateUntil","EvaluateAt"])
p("C01","Comparison keys add up to beta below alpha and to zero from alpha on",
 "For every domain size, alpha, value and supported value type, adding the two parties' evaluations of a comparison key at x gives beta when x < alpha and the group's zero otherwise. Evaluating many keys and points in one call gives for each pair what evaluating it alone gives, and out-of-range or missing arguments are refused.",
 ["inputs","configurations"],"all log-domain sizes, alphas, betas, points, batches",
 "Tests cover a few domain sizes and sampled points; the accumulation over prefixes is sensitive to single bits of alpha and x, to the last bit, and to mixed parties in one batch.",
 ["dcf/distributed_comparison_function.h","dcf/distributed_comparison_function.cc"],
 [("key generation","DistributedComparisonFunction::GenerateKeys"),("accumulation","BatchEvaluate")],None,["Evaluate","BatchEvaluate"])
p("M01","The interval gate shares whether x lies in each public interval",
 "For every group size, list of intervals p <= q and masks, the two parties' outputs for interval i add up, modulo the group size, to output mask i plus one if the unmasked input lies in [p,q] and to output mask i alone otherwise, and batched evaluation agrees with single evaluation. The two mask shares and the comparison keys are freshly drawn in every generation. Missing or out-of-range bounds, masks or inputs, and mismatched counts, are refused.",
 ["inputs","configurations"],"all group sizes, interval lists including 0, N-1 and wrap-around masks, all inputs",
 "Tests use random masks over a few interval sets; wrap-around at the group size, p = 0, q = N-1, p = q and 128-bit arithmetic need specific mask and input combinations.",
 ["dcf/fss_gates/multiple_interval_containment.h","dcf/fss_gates/multiple_interval_containment.cc"],
 [("gate","MultipleIntervalContainmentGate::Gen / Eval / BatchEval")],None,["Gen","Eval","BatchEval"])
p("M02","Gate keys and shares are exactly those of the published protocol",
 "A key pair of the interval gate consists of a comparison key pair for the point N-1+input mask (modulo the group size N) with value 1, and for each interval of two shares below N that add up to the correction term of Figure 14 of eprint 2020/1392. Each party's output for an interval is the published function of its own key and the masked input, whatever the output mask shares in the key are. A serialised key is the documented message encoding of these parts, so keys made by one build can be evaluated by any other build that follows the format.",
 ["inputs","configurations"],"all group sizes, intervals, masks, inputs and keys of either party",
 "Tests only add up the two parties' outputs of one and the same build: a change that alters key generation and evaluation consistently passes them, yet the keys no longer fit those of other builds.",
 ["dcf/fss_gates/multiple_interval_containment.h","dcf/fss_gates/multiple_interval_containment.cc","dcf/fss_gates/multiple_interval_containment.proto"],
 [("key generation","MultipleIntervalContainmentGate::Gen"),("evaluation","MultipleIntervalContainmentGate::BatchEval")],None,["Gen","Eval","BatchEval"])
p("H01","The fixed-key hash is the announced function, one block at a time",
 "Hashing block x under key k gives AES_k(s(x)) xor s(x), where s maps the (high,low) halves to (high xor low, high), for every block, position and batch length, also when output overlaps input in whole or in part and when several threads share one hash object. Buffers of unequal size are refused without touching the output.",
 ["inputs","schedules"],"all keys, blocks, batch lengths (around the internal batch boundary), thread interleavings",
 "Tests compare against a few fixed values and batch sizes; batch-boundary slips, in-place hazards and shared scratch state need particular lengths or interleavings.",
 ["dpf/aes_128_fixed_key_hash.h","dpf/aes_128_fixed_key_hash.cc"],
 [("hash","Aes128FixedKeyHash::Evaluate")],None,["Aes128FixedKeyHash::Evaluate"])
p("H02","Vectorised evaluation equals the one-block-at-a-time definition",
 "Evaluating any number of seeds down any number of tree levels with the vector implementation gives, on every instruction set available, the seeds and control bits of the scalar definition: at each level hash with the left or right key by the path bit, add the correction seed if the control bit is set, take the lowest bit as the new control bit (corrected accordingly) and clear it. This holds for shared and per-seed correction words, every shift of the paths, and any buffer position.",
 ["inputs","configurations"],"all batch sizes, level counts, path bits, control bits, instruction sets, buffer alignments",
 "Tests run the best instruction set with a few batch sizes and random data; lane mix-ups and tail handling depend on batch size modulo vector length, on the instruction set and on 64-bit boundaries of the path.",
 ["dpf/internal/evaluate_prg_hwy.h","dpf/internal/evaluate_prg_hwy.cc","dpf/internal/aes_128_fixed_key_hash_hwy.h","dpf/internal/get_hwy_mode.cc"],
 [("SIMD evaluation","EvaluateSeedsHwy, EvaluateSeedsNoHwy")],None,["EvaluateSeeds"])
p("R01","Seeded random streams are a fixed function of seed, nonce and position",
 "The bytes handed out by the seeded generator are the AES-128 counter-mode key stream of its seed starting at its nonce, whatever the sizes of the requests that draw them, and seeds or nonces of the wrong length are refused. Fresh seeds and nonces have the right length and do not repeat.",
 ["histories","inputs"],"all sequences of request sizes, all seeds and nonces incl. counter carry",
 "Tests draw one or two chunks; carry across bytes of the counter, partial blocks and empty requests in the middle of a history are not sampled.",
 ["pir/prng/aes_128_ctr_seeded_prng.h","pir/prng/aes_128_ctr_seeded_prng.cc"],
 [("stream","Aes128CtrSeededPrng::GetRandomBytes")],None,["GetRandomBytes"])
p("R02","The basic generator returns full-width, never repeating random numbers",
 "Each 8-, 64- and 128-bit draw of the basic generator is composed of fresh random bytes covering the full width of the result, so draws do not repeat, no bit position is stuck and the halves of a draw are unrelated. A failing randomness source is reported as an error, never papered over with some value.",
 ["histories"],"all sequences of mixed-width draws, with and without failures of the source",
 "Tests compare two consecutive draws, which passes when bits are stuck, halves repeat or bytes are reused later.",
 ["dcf/fss_gates/prng/basic_rng.h","dcf/fss_gates/prng/prng.h"],
 [("draws","BasicRng::Rand8/Rand64/Rand128")],None,["Rand8","Rand64","Rand128"])
p("T01","The cuckoo table never loses, duplicates or misplaces an element",
 "After every history of insertions, each inserted element sits exactly once either in one of the buckets its hash functions assign to it, with at most one element per bucket, or in the stash, whose size never exceeds its limit. The stash is used only when relocation did not find room, and an insertion that fails says so, having displaced at most one element.",
 ["histories","configurations"],"all insertion histories, hash-function counts, bucket counts, relocation and stash limits",
 "Tests insert one fixed set and count the result; losses on eviction paths depend on the random walk, on repeated hash values for one element and on limits of zero.",
 ["pir/hashing/cuckoo_hash_table.h","pir/hashing/cuckoo_hash_table.cc"],
 [("eviction walk","CuckooHashTable::Insert")],[("table","optional element per bucket","hash_table_"),("stash","overflow elements","stash_")],["GetTable","GetStash"])
p("T02","Bucketed tables put each element exactly where its hashes say",
 "In the simple table every inserted element is appended to the bucket of each hash function in turn; in the multiple-choice table it is appended to exactly one of its buckets, a least-loaded one (the first among equals). A bucket never exceeds its limit: an insertion that would is refused and changes nothing.",
 ["histories","configurations"],"all insertion histories, hash counts, bucket counts and size limits, incl. colliding hashes",
 "Tests insert a fixed set into large tables; partial insertion on refusal, ties and coinciding hash values need particular histories.",
 ["pir/hashing/simple_hash_table.h","pir/hashing/simple_hash_table.cc","pir/hashing/multiple_choice_hash_table.h","pir/hashing/multiple_choice_hash_table.cc"],
 [("insertion","SimpleHashTable::Insert, MultipleChoiceHashTable::Insert")],None,["GetTable"])
p("F01","Hash functions are deterministic, in range and exactly the announced family",
 "A hash function of a family maps every input into [0, bound), always to the same value for the same seed, input and bound; the SHA-256 family is the digest of seed followed by input, read as a little-endian number, reduced by the bound, and the Farm family the documented 128-bit fingerprint reduced likewise. The i-th of several functions made from a family differs only by a seed derived from i, a family wrapped with a seed prefixes that seed, and configurations without seed or with an unknown family are refused.",
 ["inputs","configurations"],"all seeds, inputs (any bytes, any length), bounds and function counts",
 "Tests hash a few strings with one bound; seed handling, digest byte order and reduction matter for interoperability between client and server builds and change consistently on both sides.",
 ["pir/hashing/sha256_hash_family.cc","pir/hashing/farm_hash_family.cc","pir/hashing/hash_family.cc","pir/hashing/hash_family_config.cc"],
 [("families","SHA256HashFunction, FarmHashFunction"),("derivation","CreateHashFunctions, WrapWithSeed, CreateHashFamilyFromConfig")],None,["operator()"])
p("B01","Database builders build exactly what was inserted, once",
 "For every history of inserting, cloning, clearing and building, the built database answers selections over exactly the records the builder holds at that point (independently of any clone), reports their number, sizes and selection width accurately, and no record is lost, changed or moved. A builder can be built only once and refuses afterwards, and missing parameters or unusable records (such as a database with no non-empty record at all) are refused.",
 ["histories","configurations"],"all builder histories over dense, cuckoo-hashed and simple-hashed databases",
 "Tests follow the straight line insert-build-query; record loss in rare bucket layouts, shared state between clones and accounting after clear need particular histories.",
 ["pir/dense_dpf_pir_database.cc","pir/cuckoo_hashed_dpf_pir_database.cc","pir/simple_hashed_dpf_pir_database.cc","pir/pir_database_interface.h"],
 [("builders","Builder::Insert/Clear/Clone/Build")],[("builder","pending records, built flag","Builder")],["size","num_selection_bits","InnerProductWith"])
p("I01","Inner products XOR exactly the selected records",
 "For every database and selection vector the result is the bytewise XOR of the records whose selection bit is set, each zero-padded to the longest record, for every number of parallel selections, record count, record length and memory alignment. Selections that are too short or of unequal length are refused, and bits beyond the last record are ignored.",
 ["inputs","configurations"],"all record counts around block and vector boundaries, all lengths, alignments and selection patterns",
 "Tests use equal-sized random records and random selections; boundary records (126..129, last partial block), unaligned and variable-length records need specific layouts.",
 ["pir/internal/inner_product_hwy.cc","pir/internal/inner_product_hwy.h","pir/dense_dpf_pir_database.cc"],
 [("SIMD and scalar inner product","InnerProduct, InnerProductNoHwy")],None,["InnerProductWith","InnerProduct"])
p("P01","Dense retrieval returns exactly the records asked for",
 "For every database and every list of indices (any order, repeated, first and last included), a client that combines the two servers' answers obtains exactly the records at those indices, zero-padded to the longest record, in the order asked. Each server's answer alone is what its own key selects, and indices outside the database are refused.",
 ["inputs","configurations"],"all database sizes and record lengths, all index lists, both server roles",
 "Tests use one mid-size database and a few indices; index arithmetic around 128-record blocks and tiny databases fails only at the edges.",
 ["pir/dense_dpf_pir_client.cc","pir/dense_dpf_pir_server.cc","pir/dense_dpf_pir_database.cc","pir/dpf_pir_server.cc"],
 [("request","DenseDpfPirClient::CreateRequest"),("answer","DenseDpfPirServer::HandlePlainRequest")],None,["HandleResponse"])
p("P02","Cuckoo-hashed retrieval returns a stored value exactly for stored keys",
 "For every set of key-value records and every list of queried keys, the client obtains for each key the value stored under it (up to zero padding) and nothing for a key that is not stored, in the order asked. This includes keys that extend or shorten stored keys, values of different lengths and databases of any size; only keys that differ in nothing but trailing zero bytes are not told apart, and of a key inserted twice the first value counts.",
 ["inputs","configurations"],"all record sets and query lists (non-empty keys without trailing zero bytes), all roles",
 "Tests query a few keys of a regular database; keys that are prefixes of one another, differing lengths, tiny databases and unlucky bucket layouts are not sampled.",
 ["pir/cuckoo_hashing_sparse_dpf_pir_client.cc","pir/cuckoo_hashing_sparse_dpf_pir_server.cc","pir/cuckoo_hashed_dpf_pir_database.cc"],
 [("query","CuckooHashingSparseDpfPirClient::CreateRequest"),("matching","HandleResponse"),("server","HandlePlainRequest")],None,["HandleResponse"])
p("P03","Simple-hashed retrieval returns a stored value exactly for stored keys",
 "For every set of records with distinct keys, held in the same order by both servers, and every list of queried keys, the simple-hashing client obtains exactly the value stored under each key, and nothing for a key that is not stored, in the order asked. Buckets holding several records, keys that are prefixes of one another, and values of any bytes and length are included.",
 ["inputs","configurations"],"all record sets, bucket counts and query lists, all roles",
 "Tests query a regular database with light buckets; crowded or empty buckets and binary keys and values are not sampled.",
 ["pir/simple_hashing_sparse_dpf_pir_client.cc","pir/simple_hashing_sparse_dpf_pir_server.cc","pir/simple_hashed_dpf_pir_database.cc"],
 [("bucket parsing","HandleResponse"),("server","HandlePlainRequest")],None,["HandleResponse"])
p("L01","Leader and helper together give the client the same result, or an error",
 "In the two-server protocol the leader forwards the encrypted helper request unchanged, evaluates its own part while waiting, and returns the combination of both answers; the client, removing the helper's mask, obtains exactly what the two plain servers would give. A helper that fails, answers with the wrong number or size of items, or is never contacted makes the leader return an error and never a wrong result, and without the client's mask seed the leader's view of the helper's answer is masked.",
 ["fault_sequences","histories","schedules"],"all fault choices of the sender/helper/decrypter, all callback orders, concurrent requests",
 "Tests script one failure per test with one request at a time; combinations of roles, faults and repeated or concurrent requests are not explored.",
 ["pir/dpf_pir_server.cc","pir/dpf_pir_server.h","pir/dpf_pir_client.h"],
 [("leader","DpfPirServer::HandleLeaderRequest"),("helper","HandleHelperRequest"),("mask","Aes128CtrSeededPrng")],None,["HandleRequest"])
p("S01","Requests tell each server the number of queries and nothing else",
 "For every two lists of queries of the same length - indices or keywords, stored or not, repeated, or hashing to the same places - what the leader is given is distributed alike for both, and so is what the helper is given. Every position asked for gets a key pair of its own from fresh seeds, in the order of the queries, with as many positions per query as the public parameters say and parties that do not follow the query; each request has a fresh, independent pad seed that only the helper and the client know, and all the leader sees of the helper's answers is masked with that pad's stream, item after item, never twice.",
 ["inputs","histories"],"all pairs of lists of queries of equal length, all databases' parameters, all repetitions of requests",
 "Tests check that the right records come back, which stays so when keys are reused for repeated queries, coinciding positions are asked once, pads repeat or follow from keys, or the roles of the keys follow the query.",
 ["pir/dense_dpf_pir_client.cc","pir/cuckoo_hashing_sparse_dpf_pir_client.cc","pir/simple_hashing_sparse_dpf_pir_client.cc","pir/dpf_pir_client.h","pir/dpf_pir_server.cc","pir/prng/aes_128_ctr_seeded_prng.cc"],
 [("request creation","CreatePlainRequests and CreateRequest of the clients"),("masking","DpfPirServer::HandleHelperRequest")],None,["CreateRequest","CreatePlainRequests","HandleRequest"])
p("W01","Retrieval messages and saved client states are those the formats document",
 "Every request, forwarded request, decrypted helper request, response, client state and set of public parameters is exactly the documented message encoding of its parts - keys in the order of the queries, the seed fingerprint, the ciphertext as the encrypter gave it, the answers in order, the hashing parameters - and nothing else, and what a client or server reads from such bytes is the same. So clients and servers of different builds that follow the formats understand each other, and a client state can be stored and read back.",
 ["inputs","configurations"],"all requests, responses, states and parameters, of every kind and size",
 "Tests pass messages as objects within one build and compare them field by field for a few requests; a field filled or read differently on both sides, or something extra in a message, passes them.",
 ["pir/private_information_retrieval.proto","pir/dense_dpf_pir_client.cc","pir/cuckoo_hashing_sparse_dpf_pir_client.cc","pir/simple_hashing_sparse_dpf_pir_client.cc","pir/dpf_pir_client.h","pir/dpf_pir_server.cc","pir/cuckoo_hashing_sparse_dpf_pir_server.cc","pir/simple_hashing_sparse_dpf_pir_server.cc"],
 [("messages","CreateRequest, HandleRequest, HandleResponse, GetPublicParams")],None,["CreateRequest","HandleRequest","HandleResponse","GetPublicParams"])
p("V01","Malformed retrieval messages and configurations are refused",
 "Servers refuse requests of the wrong kind or role, with missing, excess or malformed keys, or with another hashing seed than theirs, and clients refuse responses that do not fit the request; factories refuse unusable configurations. All of them say so with an error (invalid-argument for what the caller could have checked) instead of crashing or answering, and well-formed ones are accepted.",
 ["inputs","configurations","fault_sequences"],"all single-field departures from valid requests, responses and configurations",
 "Tests try one representative per rule on one server kind; each kind of client and server has its own checks and none is tried against every departure.",
 ["pir/dense_dpf_pir_client.cc","pir/dense_dpf_pir_server.cc","pir/cuckoo_hashing_sparse_dpf_pir_client.cc","pir/cuckoo_hashing_sparse_dpf_pir_server.cc","pir/simple_hashing_sparse_dpf_pir_client.cc","pir/simple_hashing_sparse_dpf_pir_server.cc","pir/dpf_pir_server.cc"],
 [("checks","Create, HandleRequest, HandleResponse of every client and server")],None,["status codes"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
from jsonschema import validate
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: validate(x,s)
print(len(P))
