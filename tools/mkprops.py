#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"), s)) for s in state],
                     mechanism=[dict(zip(("name","where"), m)) for m in mechanism],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every replica computes the same gas and the same result for a call",
 "For any sequence of ENI calls, every node that executes it reports the same outcome for each call: the same gas, the same accept/reject decision and byte-for-byte the same result text. "
 "The outcome of a call depends only on the operation and its argument text, never on what else is in the process: contents and placement of heap and stack memory, wall clock, process id, entropy, environment variables, locale, or the calls made before. "
 "A node that is killed in the middle of a call and restarted reports the same outcomes when it executes the sequence again.",
 ["histories","configurations","crash_points","inputs"],
 "all call sequences over all shipped operations, all pairs of node environments (memory placement, memory contents, clock, pid, entropy, environment, locale), all crash points inside a call",
 "test/consensus repeats one call 3 times on one machine, in one memory layout, one locale and with fresh zeroed memory; a disagreement needs two environments that differ in the one thing the code depends on.",
 ["lib/eni.cpp","include/eni/eni.h","include/eni/json/Parser.h","lib/json/Value.cpp","lib/json/Object.cpp","tools/eni_crypto/eni_crypto.cpp","tools/eni_scrypt/eni_scrypt.cpp","tools/eni_scrypt/scrypt.cpp","examples/eni/reverse/eni_reverse.cpp","examples/eni/json/eni_json.cpp"],
 [("argument text is parsed into an immutable value before anything is computed","lib/eni.cpp"),("results printed from a value tree whose member order is fixed by the key hash","lib/json/Object.cpp"),("raw RSA without padding, so no randomness enters the ciphertext","tools/eni_crypto/eni_crypto.cpp")],
 observe=["<op>_gas and <op>_run return values"])

prop("C02", "One operation object answers the same whatever is asked of it, in any order",
 "On one operation object any sequence of gas queries and executions, in any order and number, gives for each kind of request the same answer every time, equal to that of a fresh object; the arguments are examined once, before anything else. "
 "When the operation rejects its arguments, every gas query answers 1500, every execution returns no result, and neither the operation's gas nor its run routine is ever invoked. "
 "When the operation's run routine reports failure no result is returned, and an accepted execution returns exactly the results that one run appended, in order, as one JSON array in a C string that the caller can release with free().",
 ["histories","inputs","programs","fault_sequences"],
 "all sequences of getGas()/start() on one object, for every operation, argument list, accept/reject/fail decision of the operation, with memory failures in between",
 "The unit tests call getGas() or start() once per object; the second start() on one object, or a start() after a failed one, is never made.",
 ["include/eni/eni.h","lib/eni.cpp"],
 [("parse result cached on first use","include/eni/eni.h"),("results rendered by printing a JSON array","include/eni/eni.h")],
 state=[("m_Parsed/m_ParseSuccess","whether arguments were examined and accepted","include/eni/eni.h"),("m_RetVals","results appended by run","include/eni/eni.h")],
 observe=["EniBase::getGas","EniBase::start"])

prop("C03", "Concurrent callers each get the result they would get alone",
 "When several threads of one process make ENI calls at the same time (any mix of operations, on distinct operation objects), every call ends with exactly the outcome it has when it is made alone. "
 "This holds for every interleaving of the threads; no interleaving crashes, hangs, or mixes one call's data into another's.",
 ["schedules","histories","inputs"],
 "all interleavings at memory-access granularity of 2-4 caller threads each making 1-4 calls over the shipped and test operations",
 "No test starts a second thread, and even a threaded test would sample a handful of the interleavings the OS happens to choose.",
 ["lib/eni.cpp","include/eni/eni.h","include/eni/adt/bits/HashBase.tcc","include/eni/json/Parser.h","lib/json/Value.cpp","tools/eni_crypto/eni_crypto.cpp","tools/eni_scrypt/scrypt.cpp"],
 [("no mutable state is shared between operation objects; sentinels are function-local statics initialised once","include/eni/adt/bits/HashBase.tcc")],
 observe=["<op>_gas and <op>_run return values per thread"])

prop("C04", "Memory exhaustion never produces a wrong answer",
 "If any memory allocation made on behalf of an ENI call fails, the call either still delivers its exact answer, or ends with an out-of-memory exception, or returns a null pointer. "
 "It never returns different gas or a different or truncated result, never reports well-formed arguments as malformed or rejected, never touches memory it does not own, and never terminates the process. "
 "Once memory is available again the same call on the same process gives its exact answer.",
 ["fault_sequences","inputs","histories"],
 "all calls over all shipped operations x every allocation point inside the call x single, repeated and lasting failure",
 "No test makes an allocation fail; each failure point is a separate path through library and operation code.",
 ["include/eni/eni.h","lib/eni.cpp","include/eni/adt/bits/Vector.tcc","include/eni/adt/bits/HashBase.tcc","include/eni/adt/bits/HashTable.tcc","include/eni/adt/StringHashTable.h","include/eni/support/MallocAllocator.h","include/eni/json/Parser.h","lib/json/Value.cpp","tools/eni_crypto/eni_crypto.cpp","tools/eni_scrypt/eni_scrypt.cpp"],
 [("BadAlloc<NoMemory> thrown by the containers","include/eni/adt/bits/Vector.tcc"),("std::bad_alloc from operator new","lib/json/Value.cpp")],
 observe=["<op>_gas and <op>_run return values or exception"])

prop("C05", "Damaged or unsuitable arguments are refused cleanly",
 "Argument text that does not begin with one complete JSON value of the supported kinds (boolean, integer, string, array, object) makes the call end the process with exit status 87 and produces no result. "
 "A complete JSON value that is not an array, or is an array that lacks a required argument or has one of the wrong type, is answered with gas 1500 and no result by every shipped operation. "
 "No argument text whatever, truncated or corrupted at any byte and lying anywhere in memory, makes a call crash, hang, throw, or touch memory it does not own.",
 ["inputs","fault_sequences","crash_points"],
 "all argument texts, all truncation points and byte corruptions of them, all placements of the text in memory, all shipped operations",
 "The malformed-argument tests hold a dozen fixed strings run in one memory layout where reading past the end happens to find zeroes.",
 ["include/eni/json/Parser.h","lib/eni.cpp","include/eni/eni.h","lib/json/Value.cpp","tools/eni_crypto/eni_crypto.cpp","tools/eni_scrypt/eni_scrypt.cpp","examples/eni/reverse/eni_reverse.cpp","examples/eni/json/eni_json.cpp"],
 [("ParserError turned into a false parser, then exit(87)","lib/eni.cpp"),("argument check before gas or run","include/eni/eni.h")],
 observe=["exit status","<op>_gas and <op>_run return values"])

prop("C06", "Arguments reach the operation, and results the caller, unchanged",
 "An operation sees exactly the argument values that the JSON text denotes: booleans, integers of up to 256 bits and either sign, strings of arbitrary bytes with every escape form, and arrays and objects of any shape, in order and without loss, whatever the whitespace. "
 "The result text is valid JSON that denotes exactly the values the operation returned, so that feeding a result back as arguments reproduces the same values, including strings with quotes, backslashes, control and high bytes, and object members with arbitrary keys. "
 "Integers convert to exact decimal text, and all this holds in every memory layout, locale and history of earlier and failed calls.",
 ["inputs","histories","configurations","fault_sequences"],
 "all JSON argument values up to nesting depth 100 and all their spellings, all node environments, histories with failed allocations in between",
 "The tests feed a few dozen values in one memory layout; fidelity must hold for every value, spelling, placement and history.",
 ["include/eni/json/Parser.h","include/eni/json/Callbacks.h","lib/json/Value.cpp","lib/json/Object.cpp","lib/json/Array.cpp","lib/eni_types.cpp","lib/eni.cpp"],
 [("recursive-descent parser driving a value builder","include/eni/json/Parser.h"),("value printer with escaping","lib/json/Value.cpp")],
 observe=["values seen by an operation's parse()","<op>_run result text"])

prop("C07", "A string map behaves as a map through any history, failures included",
 "After any sequence of insertions, overwrites, removals, lookups, copies, assignments and iterations, a string map (and a JSON object) holds exactly the keys and latest values a mathematical map would hold: lookups find all and only those, iteration visits each exactly once, and size and emptiness agree; keys may be any byte strings of any length, and copies are independent. "
 "A new key starts with a value-initialised value, and looking up a missing key through the checked or read-only accessor raises an out-of-range error without changing the map. "
 "If memory runs out during a step, the step may fail with an out-of-memory exception, but the map stays usable, no other key's value is lost or changed, and a failed copy or assignment leaves both maps as they were. A map that is destroyed gives back all memory it took.",
 ["histories","fault_sequences","inputs"],
 "all operation histories over adversarial key sets (colliding, long, binary, empty), all allocation failures inside them",
 "The tests perform one fixed history per feature; growth, tombstone recycling, collisions and failure in the middle of growth interact only over long mixed histories.",
 ["include/eni/adt/StringMap.h","include/eni/adt/StringHashTable.h","include/eni/adt/bits/HashBase.tcc","include/eni/adt/bits/HashTable.tcc","include/eni/adt/bits/HashIterator.tcc","lib/json/Object.cpp"],
 [("open addressing with tombstones and rehash thresholds","include/eni/adt/bits/HashBase.tcc")],
 state=[("m_NumOfEntries/m_NumOfTombstones","occupancy that triggers growth","include/eni/adt/HashBase.h")],
 observe=["StringMap and json::Object public methods"])

prop("C08", "A vector behaves as a sequence through any history, failures included",
 "After any sequence of appends, insertions, removals, resizes, assignments, copies, swaps and clears, by index or by iterator, a vector (and a JSON array) holds exactly the elements in the order a mathematical sequence would hold, even when an inserted value or an assigned source is an element of the vector itself; capacity never falls below size and its iterators walk exactly the elements. "
 "Every element is constructed once and destroyed once, and an index out of range raises an out-of-range error without changing the vector. "
 "If memory runs out during a step, the step fails with an out-of-memory exception and the vector remains valid and usable, with its earlier elements intact when the step was an append, a reserve or a copy from it. A vector that is destroyed gives back all memory it took.",
 ["histories","fault_sequences","inputs"],
 "all operation histories over trivially copyable, string, JSON-value and self-referential element types, all allocation failures, in-place and moving reallocation, dirty and clean memory",
 "The tests use integer elements and an allocator that mostly extends in place over zeroed memory; element lifetime, aliasing and moved blocks only show otherwise.",
 ["include/eni/adt/Vector.h","include/eni/adt/bits/Vector.tcc","include/eni/adt/bits/PointerIterator.tcc","lib/json/Array.cpp"],
 [("geometric growth in reserve()","include/eni/adt/bits/Vector.tcc")],
 state=[("m_DataSize/m_AllocSize","elements held and room allocated","include/eni/adt/Vector.h")],
 observe=["Vector and json::Array public methods"])

prop("C09", "JSON values are independent values",
 "Copying, assigning or moving a JSON value, array or object of any shape yields a value equal to the source, and from then on changing or destroying either one never affects the other; this includes assigning a value to itself and assigning a nested part of a value to the whole. "
 "Each value reports exactly one kind and gives back exactly the content it was given; looking up a missing member, or a member or element of a value that is not an object or array, yields an undefined value and changes nothing, an element index out of range raises an out-of-range error, and giving new content to a value that already has some is refused with a logic error and changes nothing. "
 "A failed allocation during any of these steps raises an out-of-memory exception and leaves every other value unchanged, and a value that is destroyed gives back all memory it took.",
 ["histories","fault_sequences","inputs"],
 "all histories of construct, copy, assign, move, delegate, mutate and destroy over a pool of nested values, all allocation failures",
 "The tests build a value and read it back; sharing, double release and self-assignment need longer histories and memory that is reused.",
 ["include/eni/json/Value.h","lib/json/Value.cpp","lib/json/Notation.cpp","lib/json/Array.cpp","lib/json/Object.cpp"],
 [("tagged union owning a heap object per kind","lib/json/Value.cpp")],
 observe=["json::Value, Array, Object public methods"])

prop("C10", "Serving calls does not use up memory",
 "A process that serves the same calls over and over, whether they succeed, are rejected, fail inside the operation or run out of memory, settles at a constant amount of memory once their results are released. "
 "Every block obtained on behalf of a call is released exactly once and by the matching release function.",
 ["histories","inputs","fault_sequences"],
 "all repeating call sequences over all shipped operations and argument shapes, including rejected calls and calls ended by an out-of-memory exception",
 "Every test exits after one call, so what a call leaves behind is never seen.",
 ["include/eni/eni.h","lib/eni.cpp","lib/json/Value.cpp","include/eni/json/Callbacks.h","include/eni/adt/bits/Vector.tcc","include/eni/adt/bits/HashTable.tcc","tools/eni_crypto/eni_crypto.cpp"],
 [("destructors of operation, value and container classes","lib/json/Value.cpp"),("RSA and BIO handles released","tools/eni_crypto/eni_crypto.cpp")],
 observe=["live bytes in the process heap between calls"])

prop("C11", "RSA operations are exact and depend on nothing but key and message",
 "Encrypting a message of at most the modulus length, right-padded with zero bytes and smaller than the modulus, yields the lowercase hex of message^e mod n in full modulus length; decrypting hex of either letter case yields the bytes of c^d mod n up to the first zero byte, so decryption undoes encryption for messages without zero bytes; the raw encrypt/decrypt helpers of either key agree with this, and gas is ten per modulus byte. "
 "A message longer than the modulus or not smaller than it, text that is not hex, a ciphertext longer than the modulus or not smaller than it, and a key that cannot be read, is of the wrong kind or is protected by a pass phrase are all refused (no result), with gas 1500 when the arguments cannot be used. "
 "The outcome never depends on the entropy source, not even on a failing one or with a key whose parts do not fit together, and no key ever makes the operation wait for a terminal.",
 ["inputs","configurations","fault_sequences","histories"],
 "all keys (512-2048 bit, several exponents, PKCS#1 and PKCS#8), all messages and ciphertexts, all entropy streams, dirty memory",
 "The tests use one key pair and one message; boundary messages, high-entropy blinding, unusual keys and dirty buffers are not reached.",
 ["tools/eni_crypto/eni_crypto.cpp","tools/eni_crypto/eni_crypto.h"],
 [("raw RSA through libcrypto, zero padding, hex conversion","tools/eni_crypto/eni_crypto.cpp")],
 observe=["rsa_encrypt_gas/_run, rsa_decrypt_gas/_run, eni_crypto::rsa::* helpers"])

prop("C12", "The scrypt operation computes exactly scrypt(1024,1,1) of its input",
 "For every hex string of at most 160 digits, in either letter case and of odd or even length, the result is the lowercase hex of the 32-byte scrypt(N=1024, r=1, p=1) digest with password and salt both equal to the decoded bytes (odd lengths get a leading zero digit) padded on the right with zeros to 80 bytes; gas is 10 per started byte. "
 "Longer or non-hex strings are rejected. "
 "The digest does not depend on stack contents, alignment, earlier calls or concurrent calls.",
 ["inputs","configurations","histories","schedules"],
 "all hex inputs, all stack contents and alignments of the caller, all call histories",
 "The tests compare a few fixed vectors; uninitialised scratch memory, misalignment and carry-over between calls only show in other environments.",
 ["tools/eni_scrypt/eni_scrypt.cpp","tools/eni_scrypt/scrypt.cpp"],
 [("PBKDF2-SHA256, Salsa20/8 mixing over a 128 KiB stack scratchpad","tools/eni_scrypt/scrypt.cpp")],
 observe=["scrypt_gas/_run, PBKDF2_SHA256"])

prop("C13", "The command line tools report success exactly when the answer was delivered",
 "eni_gas and eni_run exit with status 0 only if the complete answer followed by one newline was written to standard output, and write nothing else there. "
 "When the library cannot be loaded, the operation is missing, or the operation gives no answer, they exit with 3, 4 or 5 respectively and write nothing to standard output; with missing or surplus arguments they exit with another nonzero status, other arguments beginning with '-' are options and never one of the three, until '--' ends option processing. "
 "Partial writes are carried through, an output failure (interruption, full disk, closed pipe, I/O error) at any byte gives a nonzero status unless the whole answer was delivered, and what was delivered is always a beginning of the answer.",
 ["fault_sequences","inputs","crash_points"],
 "all command lines, all loader failures, all failure points and kinds of the output stream, all argument texts",
 "The tests run the tools with a healthy standard output and compare text; no write, load or lookup failure is injected.",
 ["tools/eni_cli/eni_gas.cpp","tools/eni_cli/eni_run.cpp","tools/eni_cli/optParser.cpp","tools/eni_cli/ceni.h"],
 [("one exit status per failing step","tools/eni_cli/ceni.h")],
 observe=["process exit status, bytes accepted by standard output"])

prop("C14", "A hash table behaves as a map for any hash function and any history",
 "For any hash function, even a constant one, a hash table agrees with a mathematical map after any history of insert, erase, find, clear, rehash, copy, move and assignment (including to itself): inserting reports whether the key was already there, erasing whether it was, and iteration visits each entry exactly once; a moved-from or cleared table is empty and usable again. "
 "The entry, bucket and tombstone counts are consistent with the content, an absent key has count zero, a present key at least one, and walking the entries that share a key's hash starts at that key, visits each of them once and terminates. "
 "If memory runs out during a step, the step may fail with an out-of-memory exception but the table stays consistent and keeps every other entry, and a failed assignment leaves its target as it was. An iterator at the end refuses to be read with a logic error, and a table that is destroyed gives back all memory it took.",
 ["histories","fault_sequences","inputs","configurations"],
 "all histories over key sets with constant, few-valued, identity and extreme-valued hash functions, all allocation failures",
 "The tests use one fixed history per feature with a well-behaved hash; clustering, wrap-around, tombstone-only tables and failed growth need adversarial hashes and long histories.",
 ["include/eni/adt/HashTable.h","include/eni/adt/HashBase.h","include/eni/adt/HashIterator.h","include/eni/adt/bits/HashBase.tcc","include/eni/adt/bits/HashTable.tcc","include/eni/adt/bits/HashIterator.tcc"],
 [("linear probing, tombstones, rehash at 3/4 load or 1/8 empty","include/eni/adt/bits/HashBase.tcc")],
 observe=["HashTable public methods"])

prop("C15", "String hash functions compute their published formulas in every environment",
 "Each named string hash (RS, JS, PJW, ELF, BKDR, SDBM, DJB, DEK, BP, FNV, AP and the ES characteristic) returns the value of its formula for every byte string of any length, including embedded NUL bytes and bytes above 127. "
 "The same string always gives the same hash: on every node, in every thread, whatever the process's locale, however the string was made and whatever was hashed before. "
 "The ES characteristic's may_include(rule, string) answers true exactly when the string's characteristic has every character class and at least as many counted dots as the rule's. The string comparison functors beside the hashes answer true exactly for equal byte strings, or for C strings equal up to their terminator.",
 ["inputs","configurations","schedules"], "all byte strings, all locales and memory contents, all interleavings of hashing threads",
 "The tests compare a few fixed ASCII strings in one process with the classic locale.",
 ["include/eni/adt/StringHasher.h"], [("one loop per formula","include/eni/adt/StringHasher.h")], observe=["StringHasher<...>::operator()"])

prop("C16", "Published checksum files match the libraries they accompany",
 "After a build, the checksum file beside each operation library is the SHA-512 of that library's current content.",
 ["configurations"], "all build orders and incremental rebuilds", "The tests check the files after one full build.",
 ["examples/CMakeLists.txt","CMakeLists.txt"], [("custom command depending on the library target","CMakeLists.txt")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
