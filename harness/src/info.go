//go:build go1.22

package main

func init() {
	ref := "the reference serializers in harness/src are the chain's wire format"
	refHash := "hash primitives of the Go standard library and golang.org/x/crypto are right"
	propInfo["C07"] = PropInfo{
		Rule:        "A case is one random request to one UTXO driver (networks, address kinds, counts, boundary amounts, lock times, chain-specific payloads); the transaction text it returns is compared byte by byte with an independent serializer. The -refuse suites make requests that cannot be encoded faithfully and demand an error. Distinct = distinct returned transactions or refused requests.",
		Assumptions: []string{ref},
	}
	propInfo["C08"] = PropInfo{
		Rule:        "A case is one random request to one account-chain driver; the transaction it returns is compared byte by byte with an independent serializer; requests outside the wire format's range must be refused. Distinct = distinct requests.",
		Assumptions: []string{ref, "timestamps a driver takes from the clock are read back from the result and must lie in the window of the call"},
	}
	propInfo["C09"] = PropInfo{
		Rule:        "A case creates a random transaction with random spent outputs through the real API and compares every digest it hands out, and its label, with an independent digest implementation. Distinct = distinct transactions.",
		Assumptions: []string{ref, refHash},
	}
	propInfo["C10"] = PropInfo{
		Rule:        "A case creates a random transaction through the real API and compares the digest or message handed out for signing with an independent implementation. Distinct = distinct transactions.",
		Assumptions: []string{ref, refHash},
	}
	propInfo["C11"] = PropInfo{
		Rule:        "A case runs create, hash, sign (by the driver or by an independent signer with chosen byte shapes), combine and verify; the combined bytes are compared with an independent serializer, and, for Bitcoin script chains, every input is executed by btcd's script interpreter. Distinct = distinct transactions.",
		Assumptions: []string{ref, refHash, "btcd's script interpreter is right"},
	}
	propInfo["C12"] = PropInfo{
		Rule:        "A case runs create, sign (by the driver or by an independent signer), combine and verify; the combined bytes are compared with an independent serializer and the embedded signature is checked by independent code. Distinct = distinct transactions.",
		Assumptions: []string{ref, refHash},
	}
	propInfo["C13"] = PropInfo{
		Rule:        "A case makes a valid signed transaction, checks that it verifies, and presents altered ones: changed bytes anywhere, foreign keys with their own valid signatures, signatures over other digests, swapped, duplicated, missing or reordered signatures, other amounts or spent outputs. None may verify. Distinct = distinct transactions.",
		Assumptions: []string{"an alteration of a signature that is again a valid one is found with negligible probability"},
	}
	propInfo["C14"] = propInfo["C13"]
	propInfo["C15"] = PropInfo{
		Rule:        "A case is a random threshold and key list, allowed or not; script and address are compared with an independent construction, disallowed combinations must be refused. Distinct = distinct requests.",
		Assumptions: []string{ref},
	}
	propInfo["C16"] = PropInfo{
		Rule:        "Every call made by the driver flows is recorded with its arguments and repeated with malformed variants: texts and byte strings truncated, extended, emptied, bit-flipped, with hostile lengths; lists shortened, lengthened, emptied, nil; numbers set to boundary values; pointers nil. A panic, a fatal error or a call that does not return is a violation. Distinct = distinct malformed argument lists.",
		Assumptions: []string{"a nil pointer where the API documents no pointer as optional is a programming error and not presented unless the field is a pointer in a data structure"},
	}
	propInfo["C17"] = PropInfo{
		Rule:        "Every call of a driver flow runs with all its arguments dumped before and after (including memory behind each slice up to its capacity); afterwards all deterministic calls are repeated in another order and must give the same results, and the results handed out first must still be what they were. Distinct = distinct recorded histories.",
		Assumptions: []string{"signatures and current-time fields are exempt from repeatability"},
	}
	propInfo["C18"] = PropInfo{
		Rule:        "The library is built with the race detector; recorded calls of several driver flows are repeated by many goroutines at the same time, on shared arguments, with random yields; every result must equal the sequential one and the race detector must stay silent. Distinct = distinct sets of concurrent calls.",
		Assumptions: []string{"the race detector sees races of executed code only", "code in cgo-free dependencies is observed as well; assembly is not"},
	}
	propInfo["C19"] = PropInfo{
		Rule:        "Every signature produced in a case is checked with independent curve code: it verifies, r and s are in range, s is low, the recovery identifier recovers the signer, and the embedded form is strictly encoded. Externally made signatures with chosen byte shapes (short r or s, top bit set) pass through the same embedding. Distinct = distinct signatures.",
		Assumptions: []string{"independent signatures: btcec and harness/src/ref_curve.go are right"},
	}
	propInfo["C20"] = PropInfo{
		Rule:        "Transactions made by the flows are decoded by the driver and every field is compared with what was requested; forms with bytes missing or added must be refused. Distinct = distinct transactions.",
		Assumptions: []string{ref},
	}
}
