#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so the text stays reviewable).
import json
UT=["btcTransaction","omniTransaction","hcTransaction","zencashTransaction","cxcTransaction","bitcoincashTransaction","bitcoinsvTransaction","btcLikeTxDriver","aliencoinTransaction","vergeTransaction","vollarTransaction","hypercashTransaction","mateverseTransaction","bytomTransaction","elastosTransaction","fiiiTransaction","filenetTransaction","bigbangTransaction"]
AC=["rippleTransaction","polkadotTransaction","cosmosTransaction","evaioTransaction","binancechainTransaction","ontologyTransaction","waykichainTransaction","virtualeconomyTransaction","moacchainTransaction"]
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None,**({"state":state} if state else {}))))
p("C01","Address encoding is canonical and reversible for every coin",
 "For every supported address type and every payload of that type's length (public key, key hash, script hash), encoding yields exactly the text the coin's network defines for that payload: its alphabet, prefix, payload hash, checksum and letter case. Decoding that text under the same type returns the payload that was encoded, and validation accepts it.",
 ["inputs","configurations"],"all payloads x all exported address types (base58check, bech32, bech32m, cashaddr, ss58, EIP-55, ICAP-like, crockford base32, Stellar strkey and the coin specific ones)",
 "Tests encode one or two fixed payloads per coin; leading zero bytes, carries, payload dependent checksums and length branches depend on the payload value.",
 ["addressEncoder/"],[("type dispatch of encode/decode","addressEncoder/addressEncoder.go"),("address type table","addressEncoder/addressType.go")],
 ["return values of the encode, decode and validate entry points"])
p("C02","Address decoding refuses anything that is not a valid address of the type",
 "Decoding text under an address type succeeds only when the text is a well formed address of that type: alphabet, prefix, payload length and checksum all right. A valid address with characters changed, dropped, inserted or swapped, a truncated one, or one that belongs to another network prefix, is refused with an error and never decodes to a payload; the validation call agrees with decoding.",
 ["inputs","configurations"],"all texts within a few edits of valid addresses, all truncations, all cross-type pairs, all address types",
 "Tests decode valid addresses; a wrong checksum window, a skipped prefix or a partial comparison only shows on particular corruptions.",
 ["addressEncoder/"],[("checksum and prefix verification","addressEncoder/addressEncoder.go"),("bech32/cashaddr polymod","addressEncoder/bech32.go, addressEncoder/base32PolyMod.go")],
 ["error result of decode and validate calls"])
p("C03","Private and public HD derivation agree",
 "On every supported curve, the public key of a child derived from an extended private key equals the child derived from the corresponding extended public key, with the same chain code, depth, parent fingerprint and index, for every sequence of non-hardened indices. Deriving along a path equals deriving its steps one by one, and serialising between steps changes nothing.",
 ["inputs","histories","configurations"],"all seeds, curves, index sequences and interleavings of private/public steps and serialisation",
 "Tests compare a few fixed seeds; carry, reduction and leading-zero cases of the scalar arithmetic need particular keys.",
 ["owkeychain/"],[("child derivation","owkeychain/owkeychain.go"),("curve point addition","go-owcrypt point operations")],["extended key fields and public key bytes returned by derivation calls"])
p("C04","HD derivation is the specified deterministic function of the seed",
 "The root key, each private child, each public child and the coin root are exactly the specified function of seed, curve, parent key, parent chain code and index (keyed hash with fixed-width big-endian encodings, curve-specific clamping and reduction), and the parent fingerprint, depth and index fields are those of the derivation step. The same seed and path therefore give the same key in every run and every release.",
 ["inputs","histories","configurations"],"all seeds, curves, paths",
 "Tests pin a few vectors or only print; keys with leading zero bytes, hash retries and reductions occur for a minority of seeds.",
 ["owkeychain/"],[("root and child computation","owkeychain/owkeychain.go"),("coin root path","owkeychain/owkeychain.go")],["key, chain code, fingerprint, depth, index fields"])
p("C05","HD derivation refuses what it cannot do",
 "Hardened derivation from a public key, derivation below the maximum depth, indices outside the index range, malformed path text, unknown curves, and requests for private material from a public key are refused with an error, never answered with a key. A key of one kind is never accepted where the other is required.",
 ["inputs","histories","configurations"],"all keys, depths 0..255, index values, path strings, curve identifiers",
 "Tests only walk valid short paths.",
 ["owkeychain/"],[("hardened/private guards","owkeychain/owkeychain.go"),("path parser","owkeychain/")],["error result of derivation calls"])
p("C06","Extended keys survive text form and tampering is detected",
 "For every extended key of every curve, private or public, the text form decodes to an equal key (curve, kind, depth, fingerprint, index, chain code, key bytes), and equal keys have equal text. Altered, truncated, extended or re-prefixed text is refused with an error.",
 ["inputs","histories","configurations"],"all extended keys; all small edits of their text forms",
 "Tests round-trip a handful of keys and never corrupt one.",
 ["owkeychain/"],[("text encoding with double-hash checksum","owkeychain/")],["decoded key fields, error result"])
p("C07","UTXO-chain unsigned transactions encode exactly what was asked",
 "For every request a UTXO-chain driver accepts, the unsigned transaction carries exactly the requested inputs and outputs: each output identifier and index, each amount, each recipient's locking condition for its address and network, in order, plus the requested lock time, replaceability and chain-specific fields, in the chain's wire format. A request that cannot be encoded faithfully (bad identifier, foreign address, too many items) is refused with an error.",
 ["inputs","configurations"],"all input/output lists, amounts, addresses of each supported kind, lock times and chain options of every UTXO-chain driver",
 "Tests build one or two fixed transactions per chain; boundary values of counts, amounts, indices, address kinds and options are unbounded.",
 UT,[("unsigned transaction assembly","<driver>/transaction.go, <driver>/txIn.go, <driver>/txOut.go")],["hex/JSON text returned by the create call, parsed by an independent parser"])
p("C08","Account-chain unsigned transactions encode exactly what was asked",
 "For every request an account-chain driver accepts, the unsigned transaction carries exactly the requested sender, recipient, amount, fee, sequence or nonce, memo and chain-specific fields in the chain's wire format, with no field truncated, wrapped or dropped. A request that cannot be encoded faithfully is refused with an error.",
 ["inputs","configurations"],"all request values of every account-chain driver and transaction kind",
 "Tests build one or two fixed transactions per chain; width boundaries of integers and lengths of memos are unbounded.",
 AC,[("unsigned transaction assembly","<driver>/")],["text returned by the create call, parsed by an independent parser"])
p("C09","UTXO-chain signing digests are the chain's digests",
 "For every unsigned transaction and set of spent outputs, each digest a UTXO-chain driver hands out for signing equals the digest the chain's rules define for that input, hash type, script kind, amount and position, and is labelled with the key or script that must sign it. Changing any committed part of the transaction changes the digest.",
 ["inputs","configurations"],"all transactions, spent-output kinds and amounts, hash types, input positions",
 "Tests compare one digest at most; position, count and amount dependence need many shapes.",
 UT,[("signature hash computation","<driver>/")],["digests returned by the hash-for-signing call vs an independent implementation"])
p("C10","Account-chain signing digests are the chain's digests",
 "For every unsigned transaction, the digest (or byte string) an account-chain driver hands out for signing equals the one the chain's rules define for it, and changes whenever any committed field changes.",
 ["inputs","configurations"],"all transactions of every account-chain driver",
 "Tests compare one digest at most.",
 AC,[("signing digest computation","<driver>/")],["digests returned by create/hash calls vs an independent implementation"])
p("C11","UTXO-chain sign-combine-verify is complete and network-valid",
 "For every transaction a UTXO-chain driver creates and every set of matching private keys, signing the digests, inserting the signatures and verifying succeeds, and the combined transaction is byte-exactly the network encoding of the same inputs and outputs with each input's unlocking data satisfying its spent output. Signatures made elsewhere over the same digests work as well as the driver's own.",
 ["inputs","histories","configurations"],"all transactions x keys x script kinds (single, nested, native, multi-signature) x valid signatures, including ones with short or high-bit components",
 "Tests sign fixed keys; signature shape depends on random nonces, counts and script kinds.",
 UT,[("signature insertion and verification","<driver>/")],["combined transaction, judged by an independent parser and script/signature checker"])
p("C12","Account-chain sign-combine-verify is complete and network-valid",
 "For every transaction an account-chain driver creates and every matching private key, signing, combining and verifying succeeds, and the combined transaction is byte-exactly the network encoding of the same fields with a signature that verifies over the chain's digest. Signatures made elsewhere over the same digest work as well as the driver's own.",
 ["inputs","histories","configurations"],"all transactions x keys x valid signatures",
 "Tests sign fixed keys; signature shape depends on random nonces.",
 AC,[("signature insertion and verification","<driver>/")],["combined transaction, judged by an independent parser and signature checker"])
p("C13","UTXO-chain verification never accepts an altered or forged transaction",
 "A UTXO-chain driver's verification accepts a transaction only if every input carries enough distinct valid signatures, by the keys its spent output names, over this transaction's digest. A missing, duplicated, swapped, foreign or altered signature or key, or any change to a signed field or to the spent-output data, makes verification fail.",
 ["inputs","fault_sequences","configurations"],"all alterations of correctly signed transactions and all forgeries by keys that do not own the spent outputs",
 "Tests verify correct transactions only; acceptance of wrong ones depends on which byte, input or signature is wrong.",
 UT,[("verification","<driver>/")],["verdict of the verify/combine calls"])
p("C14","Account-chain verification never accepts an altered or forged transaction",
 "An account-chain driver's verification accepts a transaction only if it carries a valid signature by the sender's key over this transaction's digest. A missing, foreign or altered signature or key, or any change to a signed field, makes verification fail.",
 ["inputs","fault_sequences","configurations"],"all alterations of correctly signed transactions and all forgeries by other keys",
 "Tests verify correct transactions only.",
 AC,[("verification","<driver>/")],["verdict of the verify/combine calls"])
p("C15","Multi-signature scripts commit to exactly the given keys and threshold",
 "For every threshold and list of public keys a driver accepts, the multi-signature script contains exactly that threshold, those keys in that order and their count, and the address is the network's address of that script. Thresholds and key lists the chain does not allow (zero, above the key count, above the limit, malformed keys) are refused with an error.",
 ["inputs","configurations"],"all thresholds and key lists up to and beyond the limits, every driver with multi-signature support",
 "Tests build one 2-of-3 script.",
 ["btcTransaction","omniTransaction","hcTransaction","cxcTransaction","bitcoincashTransaction","bitcoinsvTransaction","btcLikeTxDriver","bytomTransaction","ontologyTransaction"],[("multi-signature creation","<driver>/")],["script and address returned"])
p("C16","Malformed input is answered with an error, never a crash",
 "Every decoding, parsing, verification and signing entry point, given any text or bytes whatever (truncated, corrupted, hostile lengths and counts, wrong types of script, missing lists), returns an error or a refusal in bounded time and memory. It never panics, loops or exhausts memory.",
 ["inputs","fault_sequences"],"all byte strings and texts, in particular truncations and mutations of valid ones, at every decoding, hashing, combining and verifying entry point",
 "Tests feed valid data; crashes need particular truncation points or length bytes.",
 ["addressEncoder/","owkeychain/"]+UT+AC,[("bounds checks before slicing","<package>/")],["panics, time and memory of each call"])
p("C17","Calls are pure: inputs are left alone and history does not matter",
 "No call changes data its caller passed in, and repeating a call with equal arguments gives an equal result whatever calls came before, except for the randomness of signatures and the documented current time. Data returned to one caller is never changed by a later call.",
 ["inputs","histories"],"all calls, all interleavings of calls on shared and re-used arguments and spare slice capacity",
 "Tests use each argument once, so aliasing, in-place reversal and retained state go unnoticed.",
 ["addressEncoder/","owkeychain/"]+UT+AC,[("copying of slices before modification","<package>/")],["deep snapshots of arguments and results before and after later calls"])
p("C18","Concurrent use is race free and gives the sequential results",
 "Any number of goroutines may call any functions of the library at the same time, on their own or on shared read-only arguments. There is no data race, and every call returns what it would have returned alone.",
 ["schedules","histories"],"all interleavings of calls from many goroutines, cold start included",
 "Tests are sequential; package level tables and caches are only safe or unsafe under concurrency.",
 ["addressEncoder/","owkeychain/"]+UT+AC,[("absence of mutable package state","<package>/")],["race detector reports; results compared with a sequential reference run"])
p("C19","Signatures are canonical and fit the chain's wire rules",
 "Every signature a driver produces verifies under the signer's public key, has both components in range with the second in the lower half where the chain requires it, is of the fixed width or strict minimal encoding the chain uses when embedded, and carries a recovery identifier that recovers the signer where the chain uses one. A bad private key or digest is refused.",
 ["inputs","configurations"],"all keys, digests and externally made signatures handed over for embedding, including components with leading zeros, the high bit set or the upper half",
 "Short or high components appear in a small fraction of signatures; tests sign a few times.",
 UT+AC,[("low-half normalisation and DER encoding","<driver>/signature code")],["signature bytes returned and embedded"])
p("C20","Decoding a raw transaction inverts encoding",
 "For every transaction a driver can produce, signed or unsigned, decoding its raw form yields the same versions, inputs, outputs, scripts, witnesses, amounts, lock time and chain-specific fields that were encoded. A raw form with missing or surplus bytes is refused.",
 ["inputs","configurations"],"all transactions of all drivers that expose decoding; all truncations and extensions",
 "Tests decode one transaction; count and length boundaries are unbounded.",
 UT+AC,[("raw transaction decoding","<driver>/")],["decoded structure vs the request"])
p("C21","Text codecs and hash primitives match their specifications",
 "The exported text codecs and hash primitives (base58 and its variants, base32 variants, base64, bech32 families, cashaddr, SCALE compact integers, checksums, BLAKE-256 and the like) compute the specified function for every input and length, decode only what they encode, and a streamed hash equals the one-shot hash for every split and re-use.",
 ["inputs","histories"],"all inputs and lengths, all ways of splitting a stream, re-use after sum and reset",
 "Tests use a few vectors; block-boundary and leading-zero cases are length dependent.",
 ["addressEncoder/","addressEncoder/blake256","addressEncoder/base58","polkadotTransaction/codec"],[("codec loops and padding","addressEncoder/")],["outputs vs independent reference implementations"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
