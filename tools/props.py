#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is readable)."""
import json, os, sys
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

KEY = "pkg/key/extendedkey.go"
p("C01", "Parties deriving the same key-tree node agree, whoever derives it and how",
  "Every party that reaches the same node of a key tree - from the seed, from a stored or transmitted ancestor, through private keys, through public keys only, step by step or by path, before or after a restart, and in any interleaving with other parties - holds the same public key, chain code, depth, child number and parent fingerprint, and every party that reaches it privately holds the same private key. These are the values the published derivation scheme (BIP32 with the ndau master key and 3-byte fingerprints) prescribes, including nodes whose private key has leading zero bytes, and the children at the depth limit. Taking the public half of a node and deriving a normal child commute.",
  ["schedules", "inputs", "histories", "crash_points"],
  "for every seed, every tree of derivation steps, every mix of private and public holders, every interleaving and every restart point",
  "tests check a handful of fixed vectors derived in one goroutine from one seed; agreement quantifies over all nodes, all routes and all histories, and the leading-zero case occurs once in 256 nodes",
  [KEY, "pkg/bip32/bip32.go", "pkg/key/path.go", "pkg/keyaddr/key.go"],
  [("child derivation", KEY), ("master key", "pkg/bip32/bip32.go"), ("left padding of short keys", KEY), ("string facade", "pkg/keyaddr/key.go")],
  [("extended key", "key, chain code, depth, parent fingerprint, child number", KEY), ("memoised public key", "computed on first use", KEY)],
  ["PubKeyBytes", "Bytes", "MarshalText", "Depth", "ParentFingerprint"])
p("C02", "The hardened boundary and the depth limit hold",
  "A hardened child can be obtained only from a private key, a normal child index and a hardened child index never denote the same child, and no request silently turns into a different one: a raw child number of 2^31 or more (also inside a path) always denotes the hardened child 2^31 lower and a smaller one never does, and an index outside the range of a call is refused rather than wrapped. A holder of public keys only never comes to hold a private key: everything derived from a public key is public, and public data never contains private key bytes. A chain of derivations never exceeds depth 255: the step beyond is refused and the depth recorded in a key always equals the number of steps taken.",
  ["inputs", "histories", "schedules"],
  "for every key, every child index 0..2^32-1 (through every call that takes one), every depth, every sequence of requests by several parties",
  "tests use a few small indices and short chains; the boundary cases are at 2^31, 2^32-1 and depth 255, and the secrecy claim quantifies over all histories",
  [KEY, "pkg/key/path.go", "pkg/keyaddr/key.go"],
  [("hardened check", KEY), ("depth check", KEY), ("index conversion", "pkg/keyaddr/key.go")],
  [("depth", "steps from the root", KEY), ("private flag", "whether the key is private", KEY)],
  ["Child", "HardenedChild", "DeriveFrom", "Public", "IsPrivate", "Depth"])
p("C03", "Deriving in stages along a path equals deriving directly",
  "Deriving a descendant by path in any number of stages, by any chain of parties each holding only its own ancestor and that ancestor's path, with keys travelling as text between them, gives the same key as deriving step by step. A request whose child path does not strictly extend the parent path, or whose paths are not well formed (empty, missing slash, bad number, number too big, trailing characters), is refused and changes nothing. The key a derivation started from is unchanged by it.",
  ["inputs", "histories", "fault_sequences"],
  "for every path, every way of cutting it into stages, every assignment of stages to parties, every malformed or non-descendant path, with lost, duplicated and reordered messages",
  "tests derive a dozen fixed paths in one stage; composition quantifies over all cuts and all paths",
  ["pkg/key/path.go", "pkg/keyaddr/key.go", KEY],
  [("path parser", "pkg/key/path.go"), ("prefix check", "pkg/key/path.go")], [], ["DeriveFrom"])
p("C04", "Stored keys survive crashes and restarts unchanged",
  "A key or signature written to storage or sent to a peer in any of its serial forms (text, binary message, streamed binary message, or the pre-October-2018 text form for keys) is read back as exactly the same key by any process, any number of times, also when it is read into an object that was used before, and writing it again gives the same bytes. The forms themselves do not change: text written by an older version is understood, and the same key always has the same text, whatever its length class; a key too long for the format is refused rather than written wrongly, the shorthand shown to people is the beginning and the end of the text, and the quick test for private keys never says no to the text of one.",
  ["crash_points", "histories", "inputs", "fault_sequences"],
  "for every key (all algorithms, with and without extra data), every serial form, every crash point while writing, every sequence of saves, restarts and reloads, fresh and reused objects",
  "tests round-trip a few keys in one process into fresh objects; durability quantifies over all keys, crash points and histories of reuse",
  [KEY, "pkg/signature/keybase.go", "pkg/signature/signature.go", "pkg/signature/public_key.go", "pkg/signature/private_key.go", "pkg/signature/checksum.go", "pkg/key/convert_serialization.go", "pkg/keyaddr/key_conv.go", "pkg/b32/b32.go"],
  [("key packing", "pkg/signature/keybase.go"), ("checksum frame", "pkg/signature/checksum.go"), ("old format", "pkg/key/convert_serialization.go")],
  [], ["MarshalText", "UnmarshalText", "Marshal", "Unmarshal", "MarshalMsg", "UnmarshalMsg"])
p("C05", "Damaged key and signature text is refused, never read as another key",
  "Text of a key, signature or old-format key that was damaged in storage or on the way - characters replaced, swapped, dropped, inserted, repeated, cut off, or torn between two versions - is refused with an error, unless it still spells the original value (letter case of the body is insignificant). It is never accepted as a different value, no frame with a checksum shorter than the documented minimum of three bytes is accepted, an old-format text whose payload cannot be a key (a private key of zero or beyond the group order, a public key off the curve) is refused although its checksum is right, and a refused text leaves a usable program behind.",
  ["fault_sequences", "inputs", "crash_points"],
  "for every key and signature, every pattern of damage that storage or a channel can cause, including damage to the checksum-width byte, and torn overwrites of one key by another",
  "tests try a few hand-made bad strings; the claim is about every damage pattern, including those that hit the length and checksum-width bytes together",
  ["pkg/signature/checksum.go", "pkg/signature/keybase.go", "pkg/signature/signature.go", "pkg/key/convert_serialization.go", "pkg/b32/b32.go", "pkg/keyaddr/key.go"],
  [("checksum frame", "pkg/signature/checksum.go"), ("size checks", "pkg/signature/public_key.go"), ("old-format checksum", "pkg/key/convert_serialization.go")],
  [], ["UnmarshalText", "ParseKey", "ParseSignature", "FromString", "FromOldSerialization", "CheckChecksum"])
p("C06", "A key object changes only by operations on that object",
  "Deriving from a key, taking its public half, converting it to or from a signature key, serialising it, signing with it, erasing another key (Zero, Zeroize, Truncate) or loading new content into another object never changes what any other key object means. Erasing one key leaves every key derived or converted from it earlier intact, an erased or reloaded object never shows old content, an erased one is empty and the private bytes of an erased extended key are overwritten, and a caller that reuses the buffers it passed to a parser does not change the parsed value. No call writes to, or behind, a buffer the caller passed to it (other than MarshalMsg, which appends to the buffer it is given), and a caller that appends to the bytes an object handed out changes no object that the library parsed, derived or converted.",
  ["histories", "schedules"],
  "for every history of operations over any set of keys, in any order and interleaving",
  "tests look at one operation at a time; sharing of memory between objects shows only in histories that erase or reload one object and then use another",
  [KEY, "pkg/signature/keybase.go", "pkg/signature/public_key.go", "pkg/signature/private_key.go"],
  [("copying of key material", KEY), ("erasure", KEY)],
  [("key bytes", "slices inside keys", KEY)], ["Zero", "Zeroize", "Truncate", "Public", "AsSignatureKey", "FromSignatureKey", "UnmarshalText"])
p("C07", "Signatures verify for exactly the key and message that made them",
  "For every signing algorithm, a signature made by a private key on a message verifies at every party that holds the matching public key, however key, message and signature travelled, were stored or were re-encoded, in any delivery order. A signature never verifies against a different message, a different key, a different algorithm or a damaged signature. Key pairs generated together match, keys of different pairs do not, signing changes neither key nor message, and garbled message text is not signed.",
  ["inputs", "fault_sequences", "histories", "schedules"],
  "for every key pair of every algorithm, every message (including empty and very long ones), every sequence of deliveries with loss, duplication, reordering and tampering",
  "tests sign a few random messages and flip one byte; authenticity quantifies over keys, messages and tampering, through every serial form",
  ["pkg/signature/private_key.go", "pkg/signature/public_key.go", "pkg/signature/signature.go", "pkg/signature/algorithms/ed25519/ed25519.go", "pkg/signature/algorithms/secp256k1/secp256k1.go", "pkg/keyaddr/key.go"],
  [("sign", "pkg/signature/private_key.go"), ("verify", "pkg/signature/public_key.go"), ("algorithm dispatch", "pkg/signature/id_map.go")],
  [], ["Sign", "Verify", "Match", "Generate"])
p("C08", "Untrusted bytes never crash a process",
  "Whatever bytes or text arrive from a peer, a file or a user - random, empty, truncated, over-long, wrong type, unknown algorithm, hostile lengths or widths - every parser and validator of keys, signatures, addresses, phrases, paths and bit sets returns a value or an error; none of them panics or loops. What a parser accepts can then be used (verified with, serialised, printed, derived from) without a panic.",
  ["inputs", "fault_sequences"],
  "for every byte string and text delivered to every parsing entry point, produced by mutation of valid values as well as from nothing",
  "tests pass a small number of malformed inputs to a few entry points",
  ["pkg/signature/algorithm.go", "pkg/signature/signature.go", "pkg/signature/public_key.go", "pkg/signature/private_key.go", "pkg/signature/keybase.go", "pkg/signature/checksum.go", "pkg/address/address_impl.go", "pkg/address/address.go", "pkg/words/words.go", KEY, "pkg/key/convert_serialization.go", "pkg/bitset256/bitset256.go", "pkg/keyaddr/key.go"],
  [("algorithm lookup", "pkg/signature/algorithm.go"), ("length checks", "pkg/signature/checksum.go")], [],
  ["Unmarshal", "UnmarshalText", "UnmarshalMsg", "DecodeMsg", "Validate", "ToBytes", "FromOldSerialization"])
p("C09", "Streamed binary messages survive chunking; torn ones are errors",
  "A sequence of keys, signatures and other values written to a stream as binary messages is read back as the same sequence whatever the sizes of the chunks in which bytes arrive, one message never consuming bytes of the next (and bytes that must hold exactly one message being refused when more follow it), a message of another shape, or a message or raw bytes with a key or signature of a size its algorithm does not have, is refused, and the bytes are the same whether produced by streaming or in memory. A stream that is cut or fails part way yields exactly the complete messages before the cut and then an error; the size estimate given for a value is never less than its encoding needs where it promises an upper bound.",
  ["fault_sequences", "inputs", "crash_points"],
  "for every sequence of values, every chunking, every cut position and every failing read or write",
  "tests encode and decode one value in one buffer",
  ["pkg/signature/container_gen.go", "pkg/signature/keybase.go", "pkg/signature/signature.go", "pkg/address/address_gen.go"],
  [("generated codecs", "pkg/signature/container_gen.go"), ("leftover handling", "pkg/signature/keybase.go")], [],
  ["EncodeMsg", "DecodeMsg", "MarshalMsg", "UnmarshalMsg", "Msgsize"])
p("C10", "Key material is made only from entropy that was delivered in full",
  "Seeds and key pairs are generated only when the entropy source delivered every byte asked for: a source that fails or ends early produces an error and no usable key, a source that does neither is never given up on, and a source that delivers its bytes in small pieces, slowly or with empty reads gives exactly the same result as one that delivers them at once. A seed has exactly the requested length, which must be 16 to 64 bytes, and consists of the delivered bytes; a caller's source is used instead of the system's when given.",
  ["fault_sequences", "inputs"],
  "for every requested length and every behaviour of the entropy source: short reads, failure or end after any number of bytes, empty reads",
  "tests use a working source; the failures are faults of the environment",
  ["pkg/bip32/bip32.go", "pkg/key/extendedkey.go", "pkg/signature/algorithm.go", "pkg/signature/algorithms/secp256k1/secp256k1.go", "pkg/signature/algorithms/ed25519/ed25519.go"],
  [("full read", "pkg/bip32/bip32.go"), ("generation", "pkg/signature/algorithms/secp256k1/secp256k1.go")], [],
  ["GenerateSeed", "Generate"])
p("C11", "Concurrent callers get the results of some sequential execution",
  "Callers in different goroutines that work on their own objects - deriving, signing, verifying, encoding, decoding, validating addresses, converting phrases, also with the same key text or the same parsed immutable values - get exactly the results they would get alone, under every interleaving. Callers that only read one shared key (verify, serialise, derive, take the public half, convert) get sequential results under every interleaving of whole library statements.",
  ["schedules", "inputs"],
  "for every interleaving, at statement granularity, of every set of concurrent calls",
  "tests run one goroutine",
  [KEY, "pkg/signature/id_map.go", "pkg/words/words.go", "pkg/b32/b32.go", "pkg/address/address_impl.go", "pkg/keyaddr/key.go"],
  [("memoised public key", KEY), ("package-level tables", "pkg/signature/id_map.go")],
  [("package state", "algorithm maps, encodings, word lists", "pkg/signature/id_map.go")], ["all exported calls"])
p("C12", "The algorithm registry decides the same way in every process",
  "The identifier under which an algorithm's values are written, and the algorithm an identifier is read as, depend only on the successful registrations and not on map iteration order, registration order of distinct algorithms, restarts or the moment of the call; built-in identifiers never change, two algorithms are the same exactly when both are registered and their values are written with the same identifier, and reserved or occupied identifiers are refused. A value written with a registered algorithm is read back with the same algorithm, and a refused registration changes nothing.",
  ["histories", "schedules", "configurations"],
  "for every sequence of registrations (of value and pointer algorithms, repeated, conflicting, under several identifiers) and every internal iteration order",
  "tests register at most one algorithm in one process, and Go's map order is random on each run",
  ["pkg/signature/id_map.go", "pkg/signature/algorithm.go"],
  [("registration", "pkg/signature/id_map.go"), ("inverse map", "pkg/signature/id_map.go")],
  [("registry", "identifier to algorithm and back", "pkg/signature/id_map.go")], ["RegisterAlgorithm", "Marshal", "Unmarshal", "SameAlgorithm"])
p("C13", "All parties compute the same address for a key and kind",
  "The address of a public key and kind is one well-formed 48-character string 'nd', kind, body, with a valid checksum, identical at every party and after every restart, whether computed from the private key, the public key or their text, and always equal to the published construction. Addresses of different kinds or of different keys differ, generated addresses validate, and the kind read from an address is the kind it was made with; kinds outside the known set and data shorter than 12 bytes are refused.",
  ["inputs", "histories", "schedules"],
  "for every key, kind and route to the key, every party and restart",
  "tests check a few fixed addresses",
  ["pkg/address/address_impl.go", "pkg/address/address.go", "pkg/b32/checksum.go", "pkg/b32/b32.go", "pkg/keyaddr/key.go"],
  [("address construction", "pkg/address/address_impl.go"), ("checksum", "pkg/b32/checksum.go")], [], ["Generate", "Validate", "NdauAddress", "Kind", "ParseKind"])
p("C14", "A mistyped or damaged address is never accepted as another address",
  "An address in which one character was replaced, two adjacent characters were swapped, or characters were dropped, added or cut off on the way is refused; letter case is insignificant and an accepted address is always stored, printed and compared in its canonical lower-case form, whether it entered by validation or as text. What is accepted has exactly the fixed length, a known kind and a matching checksum, and revalidating or re-reading an accepted address gives the same address.",
  ["fault_sequences", "inputs"],
  "for every address and every damage of the described kinds, through every entry point",
  "tests try a few wrong addresses; the guarantee is about every single-character error at every position, and about foreign characters that a decoder may skip",
  ["pkg/address/address_impl.go", "pkg/address/address.go", "pkg/b32/b32.go", "pkg/b32/checksum.go"],
  [("validation", "pkg/address/address_impl.go"), ("text form", "pkg/address/address.go")], [], ["Validate", "Revalidate", "UnmarshalText", "DecodeMsg", "String"])
p("C15", "A recovery phrase gives back exactly the bytes it was made from",
  "Bytes turned into a recovery phrase, and the phrase kept, sent or typed in again after any number of restarts, give back exactly the same bytes, so that the same wallet keys are restored; the phrase for given bytes is the same in every process and consists of listed words only, as many as the format prescribes; text that is not well-formed base64 gives neither a phrase nor a key. The only exception is a phrase that is also the phrase of a byte string one byte shorter, and then the result is one of the byte strings whose phrase it is.",
  ["inputs", "histories", "crash_points"],
  "for every byte string (every length from 0 up, every bit pattern), every restart point between writing the phrase and recovering",
  "tests round-trip a few lengths; the exactness claim is about every length class (the checksum is 4 to 14 bits depending on length) and every word of the list",
  ["pkg/words/words.go", "pkg/words/english.go", "pkg/keyaddr/words.go"],
  [("padding and checksum", "pkg/words/words.go"), ("word lookup", "pkg/words/words.go")], [], ["FromBytes", "ToBytes", "WordsFromBytes", "WordsToBytes"])
p("C16", "A wrong recovery phrase is refused unless it is a phrase of what it yields",
  "A phrase that is accepted is exactly the phrase of the bytes it yields: words that are not listed, wrong words, swapped, missing, repeated or added words are refused unless the changed list happens to be a correct phrase of some byte string with a checksum of at least four bits. In particular no phrase is accepted without a checksum, whatever its number of words, and unknown languages are refused.",
  ["fault_sequences", "inputs"],
  "for every phrase and every transcription error",
  "tests try a few wrong phrases of common lengths; some word counts leave no room for a checksum in one of the two readings",
  ["pkg/words/words.go", "pkg/keyaddr/words.go"],
  [("checksum check", "pkg/words/words.go")], [], ["ToBytes", "WordsToBytes"])
p("C17", "Every call to the key service is answered exactly once, with the right answer",
  "Every call that a host page makes to the WebAssembly key service with a callback is answered through that callback exactly once - with an error or with the same result the library gives for the same arguments - whatever the number, types and values of the arguments and however calls overlap; a call without a usable callback is reported to the error handler. No call, and no repeated or overlapping shutdown request, crashes the service; after shutdown no call is answered twice.",
  ["schedules", "inputs", "fault_sequences", "histories"],
  "for every interleaving of any number of overlapping calls, all argument shapes including none at all, failing callbacks, and shutdown at any point",
  "there are no tests of the service; answers are delivered from goroutines whose order the tests do not control",
  ["cmd/keyaddr/main.go", "cmd/keyaddr/handlers.go", "cmd/keyaddr/helpers.go"],
  [("argument check", "cmd/keyaddr/helpers.go"), ("handlers", "cmd/keyaddr/handlers.go"), ("shutdown channel", "cmd/keyaddr/main.go")],
  [("wait channel", "closed on shutdown", "cmd/keyaddr/main.go")], ["callbacks", "KeyaddrErrorHandler"])
p("C18", "Replicated bit sets agree with a set model and survive serialisation",
  "A bit set behaves as a set of the numbers 0..255 under any history of set, clear, toggle, union, intersection, clone and comparison by several parties that exchange copies; a clone or operation result is independent of its sources, ordering is a strict total order consistent with equality, and counts, listings, bytes and hex agree with the membership. A set sent or stored as bytes or hex is read back equal; malformed bytes or hex are refused.",
  ["histories", "inputs", "fault_sequences", "schedules"],
  "for every history of operations over any number of sets, with messages lost, duplicated, reordered and damaged",
  "tests apply single operations to a few sets",
  ["pkg/bitset256/bitset256.go"],
  [("bit operations", "pkg/bitset256/bitset256.go"), ("hex and bytes", "pkg/bitset256/bitset256.go")],
  [("words", "four 64-bit words", "pkg/bitset256/bitset256.go")], ["Get", "Count", "Indices", "AsHex", "AsBytes", "Less", "Equals"])

EAI = "pkg/eai/eai.go"; RATE = "pkg/eai/rate.go"; DUR = "pkg/types/duration.go"
p("C20", "EAI earned does not depend on how often or when EAI is calculated",
  "The total EAI earned by an account over a period is, up to rounding of a few napu per calculation, the continuously compounded amount its rate history prescribes, whichever instants it is calculated at: calculated once, at every block, or at irregular times with missed and late calculations, unlocked, locked, notified during the period, or unlocking in the middle of it. A calculation and its repetition at the same instants on any replica give the same amount.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "for every rate table, balance, account age, lock state and every schedule of calculation instants",
  "tests compare a few fixed schedules against an exact value",
  [EAI, RATE, "pkg/eai/lock.go", "pkg/unsigned/exp.go"],
  [("factor over rate slices", EAI), ("slicing with freeze", RATE)],
  [("last EAI calculation", "instant of the last calculation", EAI)], ["Calculate"])
p("C21", "The advertised EAI rate is the rate that is credited",
  "The EAI rate reported for an account at an instant is the rate at which EAI is credited over an interval that starts at that instant and contains no rate change, for unlocked, locked and notified accounts and after the unlock time; a lock's bonus and its frozen rate period are the same in both.",
  ["inputs", "histories"],
  "for every rate table, account age, lock, notification and instant",
  "tests check the two calculations separately on fixed points",
  [EAI, RATE], [("rate lookup", EAI), ("factor", EAI)], [], ["CalculateEAIRate", "Calculate"])
p("C22", "EAI is zero for no time and never decreases with time, balance or bonus",
  "No EAI is credited over an empty period or on a zero balance, so duplicate calculations credit nothing; EAI is never negative, never decreases when the period is longer, the balance larger or the lock bonus higher, and amounts that do not fit are reported as errors rather than wrapped. Under a frozen rate the credited rate is never above what the same account would reach unfrozen at the end of the lock.",
  ["inputs", "histories", "fault_sequences"],
  "for all accounts, locks, tables and sequences of duplicate, late and out-of-order calculations",
  "tests check fixed points only",
  [EAI, RATE], [("factor", EAI), ("overflow checks", "pkg/unsigned/math.go")], [], ["Calculate"])
p("C23", "Weighted average age is conserved by transfers",
  "For an account receiving, spending and waiting in any order, balance times weighted average age equals the accumulated coin-age up to rounding of one balance unit per transfer: incoming amounts dilute the age exactly in proportion, outgoing amounts leave it unchanged, and waiting adds the elapsed time. The age stays between zero and the age of the account and is the same on every replica that applies the same updates; updates that would overflow are errors that change nothing.",
  ["histories", "inputs", "schedules"],
  "for every history of transfers and waits on any number of accounts and replicas",
  "tests apply a few fixed updates",
  [DUR, "pkg/signed/math.go"], [("update", DUR)], [("weighted average age", "microseconds", DUR)], ["UpdateWeightedAverageAge"])
p("C24", "Amounts never overflow silently and are conserved by transfers",
  "Adding, subtracting, multiplying and dividing amounts and other 64-bit quantities gives the mathematically exact (truncated, for division) result or an error, never a wrapped value, for all operands including the extremes; a ledger that moves amounts between accounts with these operations keeps the total constant on every history, a refused transfer changing nothing.",
  ["inputs", "histories", "schedules"],
  "for all operands and all histories of transfers among accounts, with concurrent clients and retried or duplicated requests",
  "tests check a table of operands",
  ["pkg/signed/math.go", "pkg/unsigned/math.go", "pkg/types/ndau.go", "pkg/ndauerr/errors.go"],
  [("overflow detection", "pkg/signed/math.go")], [], ["Add", "Sub", "Mul", "Div", "Mod", "DivMod", "MulDiv"])
p("C25", "Timestamps stay in range and ordered when the clock misbehaves",
  "A timestamp taken from a clock that jumps, stalls, runs backwards, drifts or lies before the epoch is either refused or the number of whole microseconds since the epoch: it is never negative and preserves the order of instants. Adding and subtracting durations saturates at the two ends of the range instead of wrapping, adding the difference of two timestamps to the earlier gives the later, and comparison agrees with differences.",
  ["fault_sequences", "inputs", "histories"],
  "for every sequence of clock readings within the representable range and every duration",
  "tests check fixed instants",
  ["pkg/types/timestamp.go", DUR, "pkg/constants/constants.go"],
  [("saturation", "pkg/types/timestamp.go"), ("epoch check", "pkg/types/timestamp.go")], [], ["TimestampFrom", "AsTime", "Add", "Sub", "Since", "Compare"])
p("C26", "Amounts, durations, instants and rates survive text checkpoints",
  "An amount, duration, timestamp (of a four-digit year), rate or rate-table row written as text and read back after a restart is the same value, and any text that is accepted denotes the value it spells (for an instant, down to the microsecond): digits that do not fit are an error, never a wrapped or truncated value, and a sign is never lost.",
  ["inputs", "crash_points", "histories"],
  "for every value of each type and every accepted text",
  "tests round-trip a few values",
  ["pkg/types/ndau.go", DUR, "pkg/types/timestamp.go", RATE, "pkg/pricecurve/nanocent.go"],
  [("formatting and parsing", "pkg/types/ndau.go")], [], ["String", "ParseNdau", "ParseDuration", "ParseTimestamp", "ParseRate", "MarshalText", "UnmarshalText"])
p("C27", "Ledger values survive binary streams, chunking and torn writes",
  "Amounts, durations, timestamps, rates, rate-table rows and rate slices written to a binary log are read back identical under any chunking of the stream, in every supported integer width; a log cut or failing part way yields exactly the complete values before the cut and then an error.",
  ["fault_sequences", "inputs", "crash_points"],
  "for every sequence of values, every chunking, cut and failing read or write",
  "tests encode single values in memory",
  ["pkg/types/ndau_gen.go", "pkg/types/duration_gen.go", "pkg/types/timestamp_gen.go", "pkg/eai/rate_gen.go"],
  [("generated codecs", "pkg/eai/rate_gen.go")], [], ["EncodeMsg", "DecodeMsg", "MarshalMsg", "UnmarshalMsg"])
p("C33", "Waits set from durations end neither early nor never",
  "A duration handed to the host's timers, and a stretch of time measured by the host's clock and turned into a duration, keeps its sign, is never longer and less than a millisecond shorter than it was, and keeps its order among others; a duration too long for the host becomes the longest the host can hold, never a wrapped or negative one. A party that waits for a deadline with such timers, crashing and waking late on the way, never finds itself a millisecond early, and is done a bounded number of waits after its last crash.",
  ["fault_sequences", "inputs", "histories"],
  "for every duration and host duration, and every sequence of waits, crashes and late timers",
  "no test converts a duration beyond a few days",
  [DUR, "pkg/types/timestamp.go"], [("conversion", DUR)], [("duration", "microseconds", DUR)], ["TimeDuration", "DurationFrom"])
p("C30", "The price curve is monotone and matches its published formula",
  "Over every history of issuance the price of the next unit follows the published curve, is the same on every replica that applied the same sales whatever order their messages came in, and never falls as more units are issued. The total price of a sale, from any starting point and of any size including fractions of a unit, is the sum over the sale blocks it touches of the amount bought in the block times the published price, and selling the same amount in several orders makes a difference of at most the price step within one sale block.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "for every number of units issued, every amount and every split of it into orders, delivered late, twice or out of order",
  "tests check fixed points",
  ["pkg/pricecurve/pricecurve.go"], [("phases", "pkg/pricecurve/pricecurve.go"), ("sale blocks", "pkg/pricecurve/pricecurve.go")], [], ["PriceAtUnit", "ApproxPriceAtUnit", "ApproxTotalPriceFor", "ApproxUnitAtPrice"])
p("C31", "Fixed-point exponential and integer logarithm are accurate",
  "The fixed-point exponential is within one unit in the last place of e^x for every fraction it accepts, and the integer logarithm is the exact floor for every input.",
  ["inputs"], "for every numerator and denominator", "tests sample",
  ["pkg/unsigned/exp.go", "pkg/unsigned/log.go", "pkg/signed/exp.go"], [("series", "pkg/unsigned/exp.go")], [], ["ExpFrac", "LnInt"])
p("C32", "Prefix search lists exactly the matching words in order",
  "Searching the word list by prefix returns, in order, exactly the listed words that start with the prefix, at most the requested number, for every prefix and limit and whatever other lookups are in progress; so a phrase typed letter by letter and completed from the lists, with answers late, repeated or lost, is the phrase meant.",
  ["inputs", "schedules", "histories"], "for every prefix and limit and every order in which the answers to key presses arrive", "tests check a few prefixes",
  ["pkg/words/words.go", "pkg/keyaddr/words.go"], [("scan", "pkg/words/words.go")], [], ["FromPrefix", "WordsFromPrefix"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
