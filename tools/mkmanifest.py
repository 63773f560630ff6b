#!/usr/bin/env python3
"""MANIFEST.json and props.json from one table."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOISE = "tuples (circuit depth, level, ciphertext size, noise bits, encoding) of verified ciphertexts"
SREAL = ["client key generation, encryption, decryption and every server-side operation are the real library; own reference model for plaintexts, phase and noise"]
SSTUB = ["message transport, server disk (byte maps and an operation log), clock, OS entropy and the caller's RNG are simulated"]
MREAL = ["every party's share computation, every aggregation, evaluation and decryption are the real library; own phase arithmetic over the summed secret"]
MSTUB = ["message transport between parties and coordinator, party storage, clock, OS entropy and the caller's RNG are simulated"]
T3 = ["checked", "shipped", "tfhe"]
P = {}
def add(id, note, builds=("checked",), share=None, real=SREAL, stub=SSTUB, state=NOISE, secs=40, thorough=T3, **kw):
    P[id] = dict(builds=list(builds), thorough_builds=thorough, secs=secs, thorough_secs=780, level="exploration", real=real, stub=stub, state=state, note=note, **kw)
    if share: P[id]["share"] = share
BASE = "Seeded search: random parameter sets, programs, schedules and faults; every failure replays exactly from its seed. Trusts the simulator, the reference model and its worst-case noise bounds; "
add("C01", BASE + "covers degrees 8 to 8192 (most up to 256) and one to twelve moduli (most up to five).", ("checked", "tfhe"), [3, 1])
add("C02", BASE + "covers moduli chains of two to six primes of 14 to 62 bits.")
add("C03", BASE + "covers degrees up to 1024.", ("checked", "tfhe"), [3, 1])
add("C04", BASE + "covers degrees up to 1024.")
add("C05", BASE + "durable state is whole-record (a lost log tail, not a half record).")
MS = "tuples (number of parties, level, noise bits) of completed threshold decryptions"
for i, t in (("C08", "one to six parties (nine in the thorough tier), rarely a crowd of up to 70."), ("C09", "one to six parties, rarely up to 70, both rounds, crashes between them."), ("C10", "one to six parties, rarely up to 70, shared-key and public-key receivers."), ("C11", "permutations and subsets of one to six shares, rarely up to 70.")):
    add(i, BASE + t, real=MREAL, stub=MSTUB, state=MS)
add("C16", BASE + "noise is recomputed from the secret key with own big-integer arithmetic.")
add("C18", BASE + "replicas differ in entropy, heap contents, order of independent requests and crashes; two build profiles are compared seed by seed.", ("checked", "shipped"), cross=True, strict_determinism=True)
XREAL = ["two tenants hold every kind of object; every refused, failed and correct call is the real library"]
XSTUB = ["OS entropy, the caller's RNG and the request router are simulated; there is no network or disk"]
XS = "tuples (operation or mismatch, difference between the tenants)"
add("C07", BASE + "covers 86 families of mismatched calls and 13 of refused parameter sets between tenants differing in one parameter.", real=XREAL, stub=XSTUB, state=XS)
add("C13", BASE + "a generator failure is an unwinding panic at a chosen word of the caller's generator.", real=XREAL, stub=XSTUB, state=XS)
add("C06", BASE + "byte faults, protobuf field-level crafting over every message type, degrees up to 128; the size of a restored parameter set counts as its own.", ("checked", "shipped"), [3, 1],
    real=["every restore, every later use of a restored object and every held object are the real library; own protobuf tree editor, phase arithmetic and heap accounting"], stub=["the disk and the network are a byte-damaging store; OS entropy and the caller's RNG are simulated"], state="tuples (kind of object, kind of damage or reason of refusal)")
add("C12", BASE + "threads run one at a time under the simulator's scheduler, switching at instrumented memory accesses, atomics, allocations, futex calls and generator draws of the Rust code; sequentially consistent interleavings only, no weak memory orderings.", ("instr",), thorough=["instr"], real=["every call of every thread is the real library, compiled with memory-access instrumentation"], stub=["thread scheduling, futexes, OS entropy and the caller's RNG are simulated"], state="distinct schedules (hash of every switch point) and distinct lists of concurrent operations")
add("C14", BASE + "every heap block of 256 bytes or more freed inside a call is searched for word windows of the secrets handled; degrees 64 and 128; blocks on the stack and arbitrary-precision integers are not searched.", ("checked", "shipped"), [2, 1], real=["every call, drop and unwinding path is the real library"], stub=["the allocator keeps a copy of what is freed; OS entropy and the caller's RNG are simulated"], state="tuples (operation, failure injected, refusals, number of moduli)")
add("C15", BASE + "an observer who knows the secret keys recovers masks and errors; degrees 64 and 128, one to three moduli; statistics at eight standard deviations. Errors of a public-key encryption are separated under a public key the observer made, and only up to linear combinations under an honest one.", ("checked", "shipped"), [2, 1], real=["every key generation, encryption and share computation is the real library; own recovery of masks, errors and ephemeral secrets"], stub=["OS entropy and the caller's RNG are simulated"], state="tuples (operation, failure injected, number of moduli, level)")
add("C17", BASE + "every operation of polynomials and ciphertexts runs twice, on operands with random permissions and on copies with none; results, bytes and permissions are compared with the permission derivable from what was declared public. Degrees up to 64, one to four moduli; received ciphertexts count as public. What machine code a permission selects is outside.", ("checked", "shipped"), [3, 1], real=["polynomial and ciphertext operations, conversions, switching, scaling, keys and shares are the real library; own bookkeeping of what was declared public"], stub=["OS entropy and the caller's RNG are simulated"], state="tuples (operation, number of moduli, whether any result is permitted)")
add("C19", BASE + "every result of every operation is compared with schoolbook arithmetic on the residues; roundings of scalings may be off by 2^-40 of a unit next to a half. Degrees up to 64 mostly and up to 65536 at times, one to five moduli and their extensions.", ("checked", "tfhe"), [3, 1], real=["every polynomial operation, conversion, serialisation, scaler and switcher is the real library; own ring arithmetic"], stub=["there is no network or disk: crashed workers restart from bytes in memory; the caller's RNG is simulated"], state="tuples (operation, degree, number of moduli)")
add("C20", BASE + "two executions forked from one state differ in secrets only; every edge and every load and store address of the instrumented Rust code is compared, and the release build's own machine code instruction by instruction (in the quick tier only its arithmetic). Word-size plaintext moduli, degrees up to 256, up to 64 when stepped. A hardware multiplier or divider with data-dependent latency is outside.", ("traced", "released"), [3, 1], thorough=["traced", "released"], real=["every call is the real library, compiled with edge and address recording, and as released under the processor's trap flag"], stub=["OS entropy, the caller's RNG and the heap's layout are simulated and equal in both executions; libc and the standard library are not recorded"], state="distinct pairs (call, sequence of branches it executed)")
exec(open(os.path.join(H, "tools", "more.py")).read()) if os.path.exists(os.path.join(H, "tools", "more.py")) else None
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {
 "N01": "Pure functions of two words: no schedule, time, I/O, party or history they depend on, so seeded simulation of executions decides nothing an input sampler would not; needs proof or bounded model checking. Exercised indirectly by C01, C16 and C18.",
 "N02": "Pure function of a byte or word sequence; no nondeterminism for a simulator to own. Exercised indirectly by C05 and C06.",
 "N04": "Pure function of one polynomial; exercised indirectly by C01, C03 and C18 on both backends, but simulation adds nothing to deciding it.",
 "N05": "Pure function of three integers, no execution environment to simulate.",
}
json.dump(P, open(os.path.join(H, "props.json"), "w"), indent=1)
ids = [p["id"] for p in props]
m = dict(version=1, setup_cmd="python3 check.py --setup",
  checks=[dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, technique="deterministic simulation with fault injection" + P[i].get("tech", ""), level=P[i]["level"], level_note=P[i]["note"]) for i in ids if i in P],
  not_applicable=[dict(property=i, reason=NA.get(i, "not built yet")) for i in ids if i not in P],
  notes="No hooks in /repo: entropy, the caller's generator, the allocator, thread scheduling, transport and disk are reached through existing seams or at link level. Every violation names a replay file: python3 check.py --replay FILE.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
