"""Which module decides which property, and what assurance it gives."""
import importlib

MODULES = ["c_hash", "c_prim", "c_dpf", "c_dcf", "c_pir"]


def owners():
    r = {}
    for m in MODULES:
        r.update(importlib.import_module(m).CHECKS)
    return r


NA = {}
BASE = (" Trusted: TLC, the driver's recording, the compiler. Coverage on the code is by replayed and recorded "
        "behaviours, not proof.")
NOTES = {
    "T01": "The eviction walk is model-checked exhaustively for small tables; every recorded insertion must be an outcome "
           "of the specified walk (exact for walks up to 8 steps, necessary conditions beyond)." + BASE,
    "T02": "Outcome of every recorded insertion must equal the specified one; all configurations of 2 buckets and 2-3 "
           "functions are replayed exhaustively or sampled." + BASE,
    "F01": "Bounded exhaustive check of the reduction and of derived seeds; every recorded call must return the specified value, "
           "with SHA-256 computed by the specification itself and the Farm fingerprint taken from the library." + BASE,
    "H01": "All placements of up to 9 cells and all interleavings of two users are model-checked; recorded calls are recomputed "
           "block by block with AES as specified." + BASE,
    "R01": "All chunkings of short streams are model-checked and replayed; every byte drawn is recomputed with AES-CTR." + BASE,
    "R02": "Recorded draws must be distinct, of full affine rank, and errors must be reported when the source fails." + BASE,
    "D01": "The construction is model-checked over a toy PRG for all points, values and hierarchies of small trees; recorded key pairs of "
           "many parameter lists are evaluated by the code and every share sum must be the point function." + BASE,
    "D02": "All histories of the context state machine of small depth are model-checked and simulated into scripts; each recorded output "
           "must be the share the specification computes from the key itself." + BASE,
    "D03": "Every recorded evaluation, by whichever interface, is recomputed from the key by the specification." + BASE,
    "D04": "Validity of parameters, keys, contexts and arguments is specified and checked exhaustively for short parameter lists; every "
           "recorded refusal or acceptance must be the specified one." + BASE,
    "D05": "Correction words and shares are recomputed from the recorded seeds with AES as specified." + BASE,
    "D06": "Group laws are model-checked for small groups; each recorded operation, encoding and sampling is recomputed." + BASE,
    "D07": "With ideal hashes each key is shown to be uniform whatever alpha and the values are (one step, exhaustively over small words). Key seeds recorded in runs must all differ and be of full rank, the messages of one parameter list must have one layout." + BASE,
    "H02": "The batching is model-checked for all counts up to 36 (80); recorded calls on every instruction set of the machine are "
           "recomputed seed by seed with AES as specified." + BASE,
    "C01": "The walk is model-checked over ideal level shares for all points and values of small domains; recorded key pairs must add up to "
           "the comparison, batches equal single evaluations, keys recorded in full are recomputed with AES." + BASE,
    "M01": "Figure 14's gate is model-checked for every interval, mask and input of small groups; recorded outputs must add up to the "
           "specified values for all group sizes." + BASE,
    "M02": "Figure 14's gate is model-checked for small groups; correction words, mask sums, wire format and each party's share of recorded "
           "keys are recomputed with AES as specified." + BASE,
    "I01": "The lane-by-lane algorithm is model-checked for all small records; every recorded product, on every instruction set of the "
           "machine, must be the specified XOR or the specified refusal." + BASE,
    "B01": "All builder histories of small depth are model-checked and simulated into scripts; every database built on the real code is read out "
           "entry by entry and must hold exactly the records of the history, at admissible places." + BASE,
    "P01": "The protocol is model-checked for small databases; recorded retrievals must return the records asked for and each server's answer "
           "is recomputed from its key by the specification." + BASE,
    "P02": "Keyword queries are model-checked end to end for all small tables, keys and placements; recorded retrievals must return the stored "
           "values, requests and answers are recomputed with SHA-256 and AES as specified." + BASE,
    "P03": "As P02, with the buckets' serialisation specified byte by byte." + BASE,
    "L01": "All interleavings and faults of one and two requests are model-checked; recorded runs with scripted faults, callbacks, nesting and "
           "threads must be runs of the specified leader and helper." + BASE,
    "D08": "What a context remembers is model-checked over all short histories; recorded contexts, laid open after every call of generated "
           "histories, must hold the seeds and bits that the specification computes with AES, in the specified bytes." + BASE,
    "S01": "Server views are compared as sets over all draws for small tables, with wrong ways shown to tell; recorded requests are recomputed "
           "key by key, and repeated requests for two lists in turn must show no dependence (ranks, distinctness, parties)." + BASE,
    "W01": "The protocol is model-checked for a small database; recorded messages must be, byte for byte, the encoding that the specification "
           "computes from their parts." + BASE,
    "V01": "Each recorded verdict on a request, response, state or configuration with departures of many kinds must be one the specification "
           "allows." + BASE,
}
