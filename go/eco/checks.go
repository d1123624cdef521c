package eco

import "verif/core"

var (
	ecoReal = []string{"pkg/eai", "pkg/types", "pkg/signed", "pkg/unsigned", "pkg/pricecurve", "pkg/constants", "the generated message codecs", "msgp (dependency, not instrumented)"}
	ecoStub = []string{"ericlagergren/decimal (not available here: an exact stand-in with the operations used)", "storage (in memory)", "network between parties", "clock", "goroutine scheduling"}
)

var reinit func()

// Checks are the checks of this binary.
func Checks(re func()) []*core.Check {
	reinit = re
	return []*core.Check{
		{Prop: "C20", Quick: 120000, Thorough: 1500000,
			Rule: "Replicas of one account calculate and credit EAI at their own instants (missed, late, duplicated, at every change of rate), crash and restart between and during calculations; every credit and the final balance are compared with the continuously compounded amount of the account's rate history.",
			Real: ecoReal, Stub: ecoStub, Faults: []string{"crash", "late", "duplicate calculation", "rates changed"},
			Assume:    []string{"calculations are credited in full and the weighted average age is brought up to date at the same instants", "an account is calculated when it is locked, as the chain does", "no single calculation exceeds an exponent of 0.95, the range of the fixed-point exponential"},
			Scenarios: []*core.Scenario{{Name: "account", Weight: 1, Gen: genC20, Exec: execC20}}},
		{Prop: "C21", Quick: 160000, Thorough: 2000000,
			Rule: "The advertised rate is asked for at instants around every change of an account's history, and compared with the model and with what is credited from then until the next change.",
			Real: ecoReal, Stub: ecoStub, Faults: []string{"late", "rates changed"},
			Assume:    []string{"as C20"},
			Scenarios: []*core.Scenario{{Name: "rates", Weight: 1, Gen: genC21, Exec: execC21}}},
		{Prop: "C22", Quick: 140000, Thorough: 1500000,
			Rule: "Pairs of accounts that differ in one respect (time, balance, bonus, frozen or not) are calculated and compared; replayed and duplicate calculations must credit nothing; extreme balances, rates and periods must give the exact amount or an error.",
			Real: ecoReal, Stub: ecoStub, Faults: []string{"replayed block", "rates changed"},
			Assume:    []string{"rate tables do not decrease with age"},
			Scenarios: []*core.Scenario{{Name: "pairs", Weight: 1, Gen: genC22, Exec: execC22}}},
		{Prop: "C23", Quick: 240000, Thorough: 3000000,
			Rule: "Replicas apply the same blocks of waits, transfers and issues to several accounts at their own pace, one of them crashing and restarting from its store; ages are compared with exact coin-age and among replicas.",
			Real: ecoReal, Stub: ecoStub, Faults: []string{"crash", "late", "broken clock"},
			Scenarios: []*core.Scenario{{Name: "ages", Weight: 1, Gen: genC23, Exec: execC23}}},
		{Prop: "C24", Quick: 240000, Thorough: 3000000,
			Rule: "Tellers move amounts and shares in one ledger with requests lost, repeated and delayed, and crash between debit and credit, finishing from a journal; the total is audited after every transfer; every operation is compared with exact integers.",
			Real: ecoReal, Stub: ecoStub, Faults: []string{"crash", "drop", "dup", "delay"},
			Scenarios: []*core.Scenario{{Name: "ledger", Weight: 1, Gen: genC24, Exec: execC24}}},
		{Prop: "C25", Quick: 300000, Thorough: 4000000,
			Rule: "Parties read clocks that jump, drift, stall, run backwards and lie before the epoch or beyond the last timestamp; readings are compared with exact microseconds, ordered against each other, and shifted and subtracted up to the ends of the range.",
			Real: ecoReal, Stub: ecoStub, Faults: []string{"clock jump", "clock set", "clock drift", "clock stall"},
			Scenarios: []*core.Scenario{{Name: "clocks", Weight: 1, Gen: genC25, Exec: execC25}}},
		{Prop: "C26", Quick: 200000, Thorough: 2000000,
			Rule: "Parties checkpoint values as lines of text and as JSON, crash while writing, restart and read them back, and exchange them; texts from outside must be refused or read as what an independent reader says they spell.",
			Real: ecoReal, Stub: ecoStub, Faults: []string{"crash", "restart", "drop", "dup", "delay", "text from outside"},
			Assume:    []string{"timestamps are written for four-digit years only", "digits of an instant beyond the microsecond are dropped"},
			Scenarios: []*core.Scenario{{Name: "texts", Weight: 1, Gen: genC26, Exec: execC26}}},
		{Prop: "C27", Quick: 160000, Thorough: 1500000,
			Rule: "Values of all types are written to logs on full and failing disks and read back in chunks of every size, cut, failing, and in other integer widths; what is read must be exactly the complete values, then an error.",
			Real: ecoReal, Stub: ecoStub, Faults: []string{"full", "torn write", "short read", "cut", "readerr", "torn value", "foreign value"},
			Assume:    []string{"message framing of msgp is right for its primitive types"},
			Scenarios: []*core.Scenario{{Name: "logs", Weight: 1, Gen: genC27, Exec: execC27, Budget: 200_000_000, Fixed: fixedC27}}},
		{Prop: "C33", Quick: 200000, Thorough: 3000000,
			Rule: "Parties set timers from durations and sleep until stored deadlines, crashing on the way and waking late, and measure stretches of time by the host's clock and by timestamps; no wait ends a millisecond early, and every conversion is compared with exact integers, around the longest duration the host can hold too.",
			Real: ecoReal, Stub: ecoStub, Faults: []string{"crash", "late"},
			Scenarios: []*core.Scenario{{Name: "timers", Weight: 1, Gen: genC33, Exec: execC33}}},
		{Prop: "C30", Quick: 20000, Thorough: 300000,
			Rule: "Two replicas sell the same sequence of orders, delivered late, repeatedly and out of order, one crashing and restarting; the price after every order is compared with the published curve, with the price before and with the other replica; totals are compared with the price block by block, unit by unit, and among splits of the same amount.",
			Real: ecoReal, Stub: ecoStub, Faults: []string{"crash", "drop", "dup", "delay"},
			Scenarios: []*core.Scenario{{Name: "sale", Weight: 1, Budget: 200_000_000, Gen: genC30, Exec: execC30}}},
	}
}
