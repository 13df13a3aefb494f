#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is edited in one place)."""
import json
REF="Reference_Implementation_KEM/"; AVX="AVX_Implementation_KEM/"; X4="Variants/SaberX4_avx2/"
UR="Variants/uSaber-90s/ref/"; UA="Variants/uSaber-90s/avx2/"
M4="Cortex-M_Implementation_KEM/Cortex-M4/src/"; M0="Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/"
HOST=[REF,AVX,UR,UA]
def fs(names, dirs=HOST): return [d+n for d in dirs for n in names]
def P(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook))
L=[]
L.append(P("C01","Both ends of an intact key exchange derive the same secret",
 "Whenever an encapsulator's ciphertext reaches the holder of the matching secret key unmodified, decapsulation yields exactly the encapsulator's 32-byte shared secret, for every parameter set and every pairing of implementations of that set. This holds however messages are delayed, duplicated, reordered or lost, however many sessions and keys are in flight, and across crashes and restarts in which only the stored key bytes survive. Once faults stop, every retried session completes with an agreed secret within a bounded number of deliveries.",
 ["schedules","crash_points","histories","fault_sequences","configurations"],
 "every delivery order, loss/duplication pattern, crash point and pairing of implementations, over every key and every random stream",
 "The tests run keygen, encapsulate, decapsulate in lockstep in one process with one implementation; no message is ever delayed or repeated, no node restarts, and no two implementations talk to each other.",
 fs(["kem.c","SABER_indcpa.c","pack_unpack.c","cbd.c"])+[REF+"poly.c",REF+"poly_mul.c",AVX+"polymul/toom-cook_4way.c",X4+"kem.c",M4+"saber/m4-striding/kem.c",M4+"saber/m4-tc4kara/kem.c"],
 [("KEM keypair / encapsulate / decapsulate",REF+"kem.c"),("rounding constants and reconciliation",REF+"SABER_indcpa.c")],
 [("secret key bytes","the only durable state of a node","caller")],["shared secrets returned by encapsulate and decapsulate"]))
L.append(P("C02","A ciphertext altered in any way is implicitly rejected",
 "If the ciphertext handed to decapsulation differs in any bit from what the encapsulator produced for that key (bit flips anywhere, torn or spliced messages, bytes exchanged, ciphertexts of another session or key, arbitrary garbage), decapsulation still reports success and returns exactly the pseudo-random secret the specification prescribes for rejection: the hash of the stored rejection value together with the hash of the received ciphertext. It never returns the honest secret, an error, or anything else, and the same bytes always give the same secret.",
 ["inputs","fault_sequences","histories","configurations"],
 "every corruption of every ciphertext in transit, in every session history, for every implementation and parameter set",
 "No existing test ever decapsulates a modified ciphertext: the comparison, the selection of the rejection value and the ciphertext hash on that path are not executed with a mismatch.",
 fs(["kem.c","verify.c"])+[X4+"kem.c",X4+"verify.c",M4+"saber/m4-striding/pack_unpack.c",M4+"saber/m4-striding/SABER_indcpa.c",M0+"src/verify.c"],
 [("re-encryption comparison",REF+"verify.c"),("constant-time selection of the rejection value",REF+"verify.c"),("in-place comparison of the re-encryption",M4+"saber/m4-striding/pack_unpack.c")],
 [("rejection value","last 32 bytes of the secret key",REF+"kem.c")],["shared secret and return value of decapsulate"]))
L.append(P("C03","Damaged or hostile keys give only the specified result",
 "Decapsulating with a secret key whose stored bytes were damaged (bit rot, torn or misplaced writes mixing an old and a new key, zeroed or erased sectors) and encapsulating to an arbitrary public key return exactly what the specification computes from those very bytes. They never crash, hang, touch other memory, or reach an outcome in which a damaged comparison accepts or a damaged rejection value is replaced by the real secret.",
 ["inputs","crash_points","fault_sequences","configurations"],
 "every torn write, bit flip or erased block of stored key material and every byte string used as a public key",
 "Tests only use keys freshly produced by the same program; coefficients outside the honest range and inconsistent key parts never occur.",
 fs(["kem.c","pack_unpack.c","SABER_indcpa.c"])+[REF+"poly_mul.c",AVX+"polymul/toom-cook_4way.c",X4+"kem.c",M4+"saber/m4-striding/poly.c",M4+"saber/m4-tc4kara/poly.c"],
 [("unpacking and arithmetic modulo powers of two for any coefficient",REF+"pack_unpack.c"),("stored hash of the public key is used as stored",REF+"kem.c")],
 [("secret key layout: secret vector, public key, hash, rejection value","",REF+"kem.c")],["outputs of encapsulate/decapsulate"]))
L.append(P("C04","Implementations of one parameter set are interchangeable at any point",
 "Given the same random stream and the same arguments, every implementation of a parameter set (portable, vectorised, variant tree, four-way batch, Cortex-M4) produces byte-for-byte the same public key, secret key, ciphertext and shared secret, consuming the same amount of randomness in the same order. Replacing one implementation by another at any crash or restart in the middle of a history is therefore invisible to every party.",
 ["histories","crash_points","configurations","fault_sequences"],
 "every history of operations and every assignment of implementations to the steps of that history",
 "Test vectors compare each host implementation with 100 fixed honest runs; the batch implementation and all microcontroller code have no vectors at all, and rejected ciphertexts, foreign keys and mixed histories are never compared.",
 fs(["kem.c","SABER_indcpa.c","pack_unpack.c","cbd.c","fips202.c"])+[X4+"kem.c",X4+"fips202x4.c",M4+"saber/m4-tc4kara/poly.c",M4+"firesaber/m4-striding/poly_mul.c"],
 [("common wire format and randomness order",REF+"kem.c")],[],["all outputs of the three operations"]))
L.append(P("C05","Concurrent and re-entrant callers do not disturb each other",
 "Any number of key generations, encapsulations and decapsulations that run concurrently in one process, preempted and interleaved at arbitrary instants or nested inside one another (as from a signal handler), each with its own buffers and random bytes, return exactly what they return when run alone one after another. (Hosts and Cortex-M4; the Cortex-M0 firmware is single threaded by design and keeps working state in static variables.)",
 ["schedules","configurations"],
 "every interleaving and nesting of the memory accesses of two or more operations",
 "All tests are single threaded; hidden shared state (static buffers, lazily initialised tables, globals) is invisible to them.",
 fs(["kem.c","SABER_indcpa.c","fips202.c","verify.c","cbd.c"])+[REF+"poly_mul.c",AVX+"polymul/consts.h",AVX+"polymul/toom-cook_4way.c",X4+"SABER_indcpa.c",X4+"kem.c",UR+"aes256ctr.c",UR+"sha256.c",UR+"sha512.c",UA+"crypto_stream_aes256ctr.c"],
 [("all working state lives in the caller's frame; globals only ever hold the same constants",AVX+"SABER_indcpa.c")],
 [("vector constants","process-wide, rewritten with equal values",AVX+"polymul/consts.h")],["outputs of each caller against the serial run"]))
L.append(P("C06","An operation abandoned midway leaves every later operation correct",
 "If an operation is cut off at an arbitrary instant (its thread is killed, a signal handler jumps out of it, its process crashes and restarts with only stored keys), every operation that starts afterwards in any caller returns exactly the result the specification prescribes.",
 ["crash_points","histories","schedules","configurations"],
 "every instant at which an operation can be abandoned and every operation that follows",
 "Tests always run every operation to completion.",
 fs(["kem.c","SABER_indcpa.c","fips202.c"])+[REF+"poly_mul.c",AVX+"polymul/scm_avx.c",X4+"SABER_indcpa.c",M0+"src/SABER_indcpa.c"],
 [("no operation carries state over to the next one",REF+"SABER_indcpa.c")],[],["outputs of operations after the abandoned one"]))
L.append(P("C07","Results depend on nothing but the arguments and the random stream",
 "The outputs of every operation are a function of its input bytes and of the random bytes it draws, and of nothing else: not of stale stack, heap, register or output-buffer contents, not of the addresses or alignment of the buffers, not of how input and unrelated buffers are laid out, and not of what was computed before.",
 ["histories","inputs","configurations","fault_sequences"],
 "every initial content of uninitialised memory, every buffer placement, every preceding history",
 "Tests run in freshly zeroed process memory with the compiler's favourite alignment and the same history each time.",
 fs(["kem.c","SABER_indcpa.c","pack_unpack.c","fips202.c"])+[AVX+"polymul/matrix.c",X4+"fips202x4.c",X4+"kem.c",M4+"saber/m4-striding/poly_mul.c"],
 [("every buffer is written before it is read",REF+"SABER_indcpa.c")],[],["outputs under different memory contents and placements"]))
L.append(P("C08","Operations touch only the memory they are given",
 "No operation ever writes outside its declared output buffers, reads outside its declared inputs, changes any input byte, or overruns its own working storage, whatever the contents of its inputs. Placing buffers flush against inaccessible memory, or inputs in read-only memory, never faults.",
 ["inputs","configurations","fault_sequences"],
 "every input, every implementation and every buffer placement",
 "Tests use ordinary stack arrays with slack around them, so an overrun of a few bytes is silent.",
 fs(["kem.c","pack_unpack.c","SABER_indcpa.c","fips202.c"])+[X4+"fips202x4.c",X4+"kem.c",M0+"src/SABER_indcpa.c",M0+"src/encode.c",M4+"saber/m4-striding/kara.s"],
 [("fixed sizes declared in the public interface",REF+"api.h"),("tail buffers of the extendable-output functions",X4+"fips202x4.c")],[],["memory protection faults, guard bytes, address sanitiser"]))
L.append(P("C09","Failing resources stop an operation, they never weaken its result",
 "If memory allocation or a call into the cryptographic library fails at any point inside key generation, encapsulation, decapsulation or random generation, the process stops before the operation reports success. No operation ever reports success with keys, ciphertexts, secrets or random bytes that differ from what it returns when nothing fails, no failure leaves memory leaked by later successful operations, and a successful run releases everything it allocated.",
 ["fault_sequences","configurations","histories"],
 "every single or repeated failure of every allocation and library call, at every point of every operation",
 "No test makes an allocation or a library call fail.",
 fs(["rng.c"])+[X4+"rng.c",UA+"symmetric.h",UA+"kem.c"],
 [("errors from the library abort the process",REF+"rng.c")],[("library contexts","allocated per block",REF+"rng.c")],["outputs of operations that report success while a fault fired; allocation balance"]))
L.append(P("C10","Random generator output is a function of its complete call history",
 "After seeding, the bytes the deterministic random generator returns are exactly those of the AES-256 counter-mode generator of SP 800-90A for that seed, personalisation and that sequence of request sizes, for any sequence of seedings and requests of any length, including counters about to carry over any number of bytes. Seeding again restarts the stream from the new seed alone; no output block is ever repeated within a stream.",
 ["histories","inputs","configurations"],
 "every history of seedings and requests, every internal key and counter value",
 "Tests draw only 32- and 48-byte requests from streams seeded by 100 fixed seeds; long or odd requests and counter carries never happen.",
 [REF+"rng.c",AVX+"rng.c",X4+"rng.c",UR+"rng.c",UA+"rng.c"],
 [("counter increment with carry, update after every request",REF+"rng.c")],[("generator state","key, counter, reseed count",REF+"rng.c")],["bytes returned by the generator"]))
L.append(P("C11","Seed expander streams are chunk-independent, bounded and safe to retry",
 "The bytes a seed expander hands out depend only on its seed, diversifier and maximum length and on the offset in the stream: any way of cutting the requests into pieces yields the same stream, interleaved streams never affect each other, and no more than the declared maximum is ever handed out. A request or an initialisation that is refused reports the documented error and changes neither the output nor the position of the stream.",
 ["histories","inputs","configurations"],
 "every sequence of request sizes (also refused ones) over any number of interleaved streams",
 "No existing test calls the seed expander at all.",
 [REF+"rng.c",AVX+"rng.c",X4+"rng.c",UR+"rng.c",UA+"rng.c"],
 [("block buffer and position, remaining length check",REF+"rng.c")],[("stream state","key, counter, buffered block, remaining length",REF+"rng.h")],["bytes and return codes of the expander"]))
L.append(P("C12","Fresh randomness for every key and secret, and never a raw random byte out",
 "Every key generation draws three and every encapsulation one fresh 32-byte value per key, in a fixed order, from the system generator at the time of the call; decapsulation draws none and all of the drawn bits matter. The public key, ciphertext and shared secret never contain output of the generator as drawn, and no value drawn once is used again by a later operation, whatever the history of completed, abandoned or crashed operations.",
 ["histories","crash_points","inputs","configurations"],
 "every history of operations, including abandoned ones, and every random stream (also degenerate ones)",
 "Tests look at final outputs for fixed seeds; drawing a value early, caching it, drawing too much, or dropping some of its bits goes unnoticed where no vector exists, and reuse across abandoned operations is never exercised.",
 fs(["kem.c","SABER_indcpa.c"])+[X4+"kem.c",M4+"saber/m4-striding/SABER_indcpa.c",M0+"src/prng.c"],
 [("random message and seed are hashed before use",REF+"kem.c"),("order of draws",REF+"SABER_indcpa.c")],[],["log of draws at the generator seam; outputs"]))
L.append(P("C13","Lanes of the four-way batch are isolated and equal to single runs",
 "Each of the four exchanges handled together by the batch implementation behaves exactly as if it had been run alone with the same key, ciphertext and random bytes, whatever the other three lanes contain: corrupted or hostile inputs in any subset of lanes leave the results of the other lanes unchanged, and permuting the lanes permutes the results.",
 ["inputs","fault_sequences","histories"],
 "every assignment of honest, corrupted, replayed and hostile inputs to the four lanes",
 "The only test runs four honest exchanges together and compares each with itself; there are no vectors and no lane is ever corrupted.",
 [X4+"kem.c",X4+"SABER_indcpa.c",X4+"fips202x4.c",X4+"pack_unpack.c",X4+"verify.c",X4+"cbd.c"],
 [("four-way hashing",X4+"fips202x4.c"),("per-lane comparison and selection",X4+"kem.c")],[],["per-lane outputs against single runs"]))
L.append(P("C14","The course of execution reveals nothing about secrets",
 "The sequence of code blocks executed and memory locations touched by key generation, encapsulation and decapsulation is the same for every secret key, every random value and every ciphertext; in particular an observer of timing or access patterns cannot tell a valid from an altered ciphertext, nor where it was altered.",
 ["inputs","fault_sequences","configurations"],
 "every pair of inputs that differ in secrets or in the validity of the ciphertext",
 "Functional tests look at outputs only; an early exit or a secret-dependent branch or index changes none of them.",
 fs(["verify.c","kem.c","cbd.c","SABER_indcpa.c"])+[REF+"poly_mul.c",X4+"verify.c",UR+"aes256ctr.c",M4+"saber/m4-striding/pack_unpack.c",M4+"saber/m4-tc4kara/asm_funcs.S"],
 [("branch-free comparison and selection",REF+"verify.c"),("branch-free sampler",REF+"cbd.c")],[],["instruction/branch/address trace of each operation in the simulator"]))
L.append(P("C15","Cortex-M4 code is correct under interrupts, stack and memory pressure",
 "Every Cortex-M4 implementation computes exactly the specified keys, ciphertexts and secrets (including rejection of altered ciphertexts) when it is interrupted between any two instructions by handlers that use the stack, for any initial register, flag and stack contents and for buffers at any address its interface allows, and it returns with the stack pointer and all callee-saved registers restored.",
 ["schedules","inputs","configurations","fault_sequences"],
 "every instant of interruption and every machine state at entry, for all six M4 implementations",
 "The tests only assemble some of these files; not one M4 instruction is ever executed.",
 [M4+s+"/"+v+"/"+f for s in("lightsaber","saber","firesaber") for v,fl in(("m4-striding",["poly_mul.c","kara.s","poly.c","pack_unpack.c","kem.c"]),("m4-tc4kara",["asm_funcs.S","mult_toom4_256_16.s","poly.c","pack_unpack.c","kem.c"])) for f in fl],
 [("assembly multipliers keep to the procedure call standard and never use memory below the stack pointer",M4+"saber/m4-tc4kara/asm_funcs.S")],[],["memory and registers of the simulated processor after each call"]))
L.append(P("C16","Cortex-M0 firmware exchanges keys correctly through any board disturbance",
 "On the Cortex-M0 board, key generation, encapsulation and decapsulation agree on the shared secret and reject altered ciphertexts as specified, whenever timer interrupts arrive, however long peripherals stall, and whatever memory contains at power-up. After a power loss at any instant the restarted firmware completes the same exchange, never runs its stack into its data, and uses every random bit the hardware generator delivers.",
 ["schedules","crash_points","fault_sequences","inputs"],
 "every interrupt time, stall, power-loss instant and power-up memory content",
 "The firmware is only linked by the build; it is never executed and no test covers its key exchange.",
 [M0+"src/"+f for f in("SABER_indcpa.c","kem.c","encode.c","poly.c","cbd.c","poly_mul.c","pack_unpack.c","fips202.c","asm_KeccakF-1600.S","init.c","prng.c","main.c")]+[M0+"linker_script.ld"],
 [("start-up copy of initialised data and zeroing",M0+"src/init.c"),("random bytes from the hardware generator",M0+"src/prng.c"),("decoding of the message",M0+"src/encode.c")],
 [("static working state of the matrix expansion","",M0+"src/SABER_indcpa.c")],["RAM of the simulated board; shared secrets"]))
L.append(P("C17","Cortex-M0 firmware reports complete lines, true elapsed time and true stack use",
 "Every report the firmware sends over the serial line arrives complete, in order and exactly once, however slowly the line drains, and the tick counts it reports equal the elapsed processor cycles to within a fixed small overhead per timer wrap, wherever the timer interrupt falls. The stack use it reports when built to measure the stack is what the operations used, to within the frame of the main program. Once peripherals respond, the whole report appears within a bounded number of cycles.",
 ["schedules","fault_sequences","crash_points"],
 "every drain speed of the serial line, every content of a report and every alignment of the timer wrap with the measured code",
 "The firmware is never executed by the tests.",
 [M0+"src/uart.c",M0+"src/benchmark.c",M0+"src/main.c",M0+"src/init.c"],
 [("wait for the transmit buffer to drain before a report",M0+"src/uart.c"),("timer overflow counting",M0+"src/benchmark.c")],
 [("overflow counter","shared with the interrupt handler",M0+"src/benchmark.c")],["bytes on the serial line; reported tick counts and stack use"]))
L.append(P("C18","Polynomial multiplication is exact for every pair of operands",
 "Each multiplier returns the product of any two polynomials in the quotient ring modulo the working power of two.",
 ["inputs"],"every pair of operand polynomials","Tests reach it only through 100 fixed vectors and random honest runs.",
 [REF+"poly_mul.c",AVX+"polymul/toom-cook_4way.c"],[("Toom-Cook with Karatsuba",REF+"poly_mul.c")]))
L.append(P("C19","Decryption failure probability stays below the claimed bound",
 "Over all keys and messages the probability that an honest exchange disagrees is at most the bound claimed by the parameter selection scripts.",
 ["inputs"],"the joint distribution of keys, messages and noise","No sample reaches probabilities of 2^-120 and below.",
 ["Scripts/Python_Scripts/select_params/select_params.py","Scripts/Python_Scripts/select_params/proba_util.py"],[("parameter choice","Scripts/Python_Scripts/select_params/select_params.py")]))
L.append(P("C20","Hash, XOF and keystream functions match their standards in any sequence of calls",
 "The hash, extendable-output and keystream functions the implementations are built on (SHA-3, SHAKE, cSHAKE, SHA-2, AES-256 in counter mode; single, four-way and incremental forms, and the Keccak state functions beneath them, on hosts and on the Cortex-M0) return what their standards define for every message, every message and output length, customisation, nonce and counter value (counters that carry over included), also when the output is written over the input, however output is split over calls on a context, whatever was computed before, and when calls on other data or contexts come in between, interrupt them or are abandoned midway. They change nothing but their outputs and their own context.",
 ["inputs","schedules","crash_points","histories"],
 "every message, length, counter value, split of the output over calls, interleaving of contexts and point of interruption",
 "The tests reach these functions only through the fixed lengths, zero nonces and single contexts of the key exchange; the Cortex-M0 ones not at all.",
 [REF+"fips202.c",AVX+"fips202.c",X4+"fips202x4.c",X4+"keccak4x/KeccakP-1600-times4-SIMD256.c",UR+"aes256ctr.c",UR+"sha256.c",UR+"sha512.c",UA+"crypto_stream_aes256ctr.c",M0+"src/fips202.c",M0+"src/asm_KeccakF-1600.S"],
 [("customisation is absorbed before the message",M0+"src/fips202.c"),("counter of 128 bits carries over",  UA+"crypto_stream_aes256ctr.c")],
 [("Keccak state of a context","handed over between calls",M0+"src/fips202.c")],["outputs of each function; contents of contexts and inputs after a call"]))
open(__file__.replace("mkprops.py","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in L))
