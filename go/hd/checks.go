package hd

import "verif/core"

var (
	hdReal = []string{"pkg/key", "pkg/bip32", "pkg/keyaddr", "pkg/signature and its algorithms", "pkg/b32", "the generated message codecs", "btcec, x/crypto/ed25519 and msgp (dependencies, not instrumented)"}
	hdStub = []string{"storage (in-memory files written piece by piece)", "network between parties", "crypto/rand.Reader", "clock", "goroutine scheduling"}
)

// reinit restarts the library's package-level state.
var reinit func()

// Checks are the checks of this binary.
func Checks(re func()) []*core.Check {
	reinit = re
	return []*core.Check{
		{Prop: "C01", Quick: 12000, Thorough: 60000,
			Rule: "Several parties derive, publish, exchange, store and recompute key-tree nodes by every route; each node is compared with an independent model of the derivation scheme.",
			Real: hdReal, Stub: hdStub, Faults: []string{"crash", "restart", "drop", "dup", "delay"},
			Assume:    []string{"the secp256k1 group law of btcec and SHA-2/HMAC of the Go library are right (the reference uses them too)", "indices whose derivation is undefined (probability 2^-127) are not exercised"},
			Scenarios: []*core.Scenario{{Name: "tree", Weight: 1, Gen: genC01, Exec: execC01, Fixed: fixedC01}}},
		{Prop: "C02", Quick: 15000, Thorough: 80000,
			Rule: "Parties ask for normal and hardened children over the whole index range, through every call, from private and public keys, down to the depth limit; a model says which requests must be refused.",
			Real: hdReal, Stub: hdStub, Faults: []string{"drop", "dup", "delay"},
			Assume:    []string{"as C01"},
			Scenarios: []*core.Scenario{{Name: "boundary", Weight: 1, Gen: genC02, Exec: execC02, Fixed: fixedC02}}},
		{Prop: "C03", Quick: 6000, Thorough: 80000,
			Rule: "Paths are cut into stages carried out by different parties with the key text travelling between them; the result is compared with single steps; malformed and unrelated paths must be refused.",
			Real: hdReal, Stub: hdStub, Faults: []string{"drop", "dup", "delay"},
			Assume:    []string{"as C01"},
			Scenarios: []*core.Scenario{{Name: "stages", Weight: 1, Gen: genC03, Exec: execC03, Fixed: fixedC03}}},
		{Prop: "C04", Quick: 24000, Thorough: 120000,
			Rule: "Parties make keys and signatures of all algorithms and lengths, write them in every serial form to storage that is replaced atomically, crash while writing, restart, reload into fresh and used objects, and exchange them; every form is compared with an independent encoder.",
			Real: hdReal, Stub: hdStub, Faults: []string{"crash", "restart", "drop", "dup", "delay"},
			Assume:    []string{"storage replaces files atomically (rename); torn files are C05"},
			Scenarios: []*core.Scenario{{Name: "store", Weight: 1, Gen: genC04, Exec: execC04}}},
		{Prop: "C05", Quick: 30000, Thorough: 300000,
			Rule: "Key and signature text is damaged (replaced, swapped, dropped, inserted, repeated, moved, cut, torn, zeroed, bit-flipped) and read; accepted text must still spell the original. Frames of every width and length class with the right checksum for their width are read as well.",
			Real: hdReal, Stub: hdStub, Faults: append([]string{"frame"}, damageKinds...),
			Assume:    []string{"damage that hits a 24-bit checksum by chance (checked independently) is not a violation", "values of the Null algorithm, which carry no key, are left out"},
			Scenarios: []*core.Scenario{{Name: "damage", Weight: 1, Gen: genC05, Exec: execC05, Fixed: fixedC05}}},
		{Prop: "C06", Quick: 30000, Thorough: 200000,
			Rule: "Parties make, derive, convert, erase, reload and use key objects whose buffers are reused by the caller; after every operation every other object must still mean what a model says, and erased objects must not show old content.",
			Real: hdReal, Stub: hdStub, Faults: []string{"erase", "reload"},
			Assume:    []string{"objects made by the Raw constructors may keep the slices they were given (documented by use)"},
			Scenarios: []*core.Scenario{{Name: "objects", Weight: 1, Gen: genC06, Exec: execC06}}},
		{Prop: "C07", Quick: 6000, Thorough: 60000,
			Rule: "Pairs of both algorithms sign messages; key, message and signature travel separately in every serial form with loss, duplication and delay; wrong and damaged messages, keys, algorithms and signatures must not verify; an independent verifier checks every signature.",
			Real: hdReal, Stub: hdStub, Faults: []string{"drop", "dup", "delay", "wrong message", "wrong key", "wrong algorithm", "damaged signature", "swapped signature"},
			Assume:    []string{"no forgery happens by chance", "the mathematical twin (r,n-s) of an ECDSA signature and other spellings of the same (r,s) are not damage"},
			Scenarios: []*core.Scenario{{Name: "signatures", Weight: 1, Gen: genC07, Exec: execC07, Fixed: fixedC07}}},
		{Prop: "C11", Quick: 6000, Thorough: 60000,
			Rule: "Several tasks work on own and shared read-only values, preempted at statement granularity; every result is compared with the sequential model.",
			Real: hdReal, Stub: hdStub, Faults: []string{"preempt"},
			Assume:    []string{"interleavings are sequentially consistent at statement granularity; torn word reads are not simulated"},
			Scenarios: []*core.Scenario{{Name: "concurrent", Weight: 1, Race: true, Gen: genC11, Exec: execC11}}},
		{Prop: "C08", Quick: 900, Thorough: 40000,
			Rule: "Every parser and validator is fed bytes that grammars, mutations of good values and pure chance produce; what is accepted is then used in every way open to a program, and every call must come back without a panic within a step budget.",
			Real: hdReal, Stub: hdStub, Faults: []string{"untrusted input"},
			Assume:    []string{"an object whose loading was refused is not used further", "streams that declare a length above 512 KB are left out (the dependency msgp allocates what is declared)", "dependencies are not instrumented, so loops inside them are caught by the wall clock only"},
			Scenarios: []*core.Scenario{{Name: "hostile", Weight: 1, Budget: 100_000_000, Gen: genC08, Exec: execC08, Fixed: fixedC08}}},
		{Prop: "C09", Quick: 50000, Thorough: 300000,
			Rule: "Writers append values to a stream through full or failing disks; readers get the bytes in chunks of every size, cut or failing part way; the sequence read must be exactly the complete messages, then an error.",
			Real: hdReal, Stub: hdStub, Faults: []string{"short read", "torn write", "cut", "readerr"},
			Assume:    []string{"message framing of msgp is right for its primitive types", "a source never returns bytes together with an error other than EOF (the dependency fwd drops them)"},
			Scenarios: []*core.Scenario{{Name: "stream", Weight: 1, Gen: genC09, Exec: execC09}}},
		{Prop: "C10", Quick: 50000, Thorough: 300000,
			Rule: "Seeds and key pairs are made from simulated entropy sources that are slow, deliver piecewise, return data together with the end, fail or end early; results are compared with those of a perfect source delivering the same bytes.",
			Real: hdReal, Stub: append([]string{"entropy sources"}, hdStub...), Faults: []string{"slow", "data with EOF", "short read", "fails", "one byte at a time", "ends early", "empty reads"},
			Assume:    []string{"x/crypto/ed25519 key generation honours the reader it is given"},
			Scenarios: []*core.Scenario{{Name: "entropy", Weight: 1, Gen: genC10, Exec: execC10, Fixed: fixedC10}}},
		{Prop: "C12", Quick: 2000, Thorough: 60000,
			Rule: "Processes register toy algorithms in different orders, some registrations being illegal, restart with fresh package state, and exchange values of the registered algorithms; a model of the registry says what every call must answer, whatever order maps are walked in.",
			Real: hdReal, Stub: hdStub, Faults: []string{"restart"},
			Assume:    []string{"registration happens at start-up, before concurrent use"},
			Scenarios: []*core.Scenario{{Name: "registry", Weight: 1, Budget: 300_000_000, Gen: genC12, Exec: execC12}}},
		{Prop: "C13", Quick: 20000, Thorough: 120000,
			Rule: "Parties compute addresses of keys and kinds by every route, publish and store them, crash and restart; every address is compared with an independent construction.",
			Real: hdReal, Stub: hdStub, Faults: []string{"crash", "restart", "drop", "dup", "delay", "bad request"},
			Assume:    []string{"no SHA-256 collision by chance"},
			Scenarios: []*core.Scenario{{Name: "addresses", Weight: 1, Gen: genC13, Exec: execC13, Fixed: fixedC13}}},
		{Prop: "C14", Quick: 30000, Thorough: 300000,
			Rule: "Addresses are mistyped or damaged on the way and enter by every route; an independent checker says which must be refused, and what is accepted must be the canonical form.",
			Real: hdReal, Stub: hdStub, Faults: []string{"substitution", "transposition", "loss", "addition", "cut", "scramble", "forged"},
			Assume:    []string{"damage of several characters that passes the 16-bit checksum by chance (checked independently) is not a violation"},
			Scenarios: []*core.Scenario{{Name: "mistyped", Weight: 1, Gen: genC14, Exec: execC14}}},
		{Prop: "C15", Quick: 8000, Thorough: 80000,
			Rule: "Wallets turn bytes into phrases, keep, send and retype them over crashes and restarts, and restore keys from them; an independent encoder says which words are right.",
			Real: hdReal, Stub: hdStub, Faults: []string{"crash", "restart", "drop", "dup", "delay"},
			Assume:    []string{"the word list itself is the published one (its digest is checked)"},
			Scenarios: []*core.Scenario{{Name: "phrases", Weight: 1, Budget: 600_000_000, Gen: genC15, Exec: execC15, Fixed: fixedC15}}},
		{Prop: "C16", Quick: 5000, Thorough: 100000,
			Rule: "Phrases are remembered wrongly: wrong, unlisted, swapped, missing, repeated and added words and pure chance; an independent decoder lists every correct reading, and anything accepted must be one of them.",
			Real: hdReal, Stub: hdStub, Faults: []string{"wrong word", "unlisted word", "swapped words", "missing word", "repeated word", "added word", "random words"},
			Assume:    []string{"a wrong phrase that carries a right checksum by chance (found by the independent decoder) may be accepted"},
			Scenarios: []*core.Scenario{{Name: "misremembered", Weight: 1, Budget: 500_000_000, Gen: genC16, Exec: execC16, Fixed: fixedC16}}},
		{Prop: "C18", Quick: 12000, Thorough: 120000,
			Rule: "Parties hold bit sets, change and combine them, and exchange copies as bytes and hex over a lossy network; after every operation all sets are compared with a model.",
			Real: hdReal, Stub: hdStub, Faults: []string{"cut", "grow", "foreign", "drop", "dup", "delay"},
			Assume:    nil,
			Scenarios: []*core.Scenario{{Name: "bitsets", Weight: 1, Gen: genC18, Exec: execC18}}},
		{Prop: "C32", Quick: 6000, Thorough: 20000,
			Rule: "People type phrases letter by letter while the lookups of several key presses are on their way, answered late, twice or not at all; every list is compared with the published list; lists of all prefixes and of odd prefixes and limits are asked for.",
			Real: hdReal, Stub: hdStub, Faults: []string{"drop", "dup", "delay"},
			Assume:    []string{"the published list is that of go/ref/data"},
			Scenarios: []*core.Scenario{{Name: "typing", Weight: 1, Budget: 200_000_000, Gen: genC32, Exec: execC32, Fixed: fixedC32}}},
	}
}
