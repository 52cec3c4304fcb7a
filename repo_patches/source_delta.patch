From 429d1d8c1e598a152b8fbd630218b7f107c4bd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:56 +0000
Subject: [PATCH 01/45] fix: bech32 addresses of another prefix, version or
 padding were accepted, short ones panicked

---
 addressEncoder/addressEncoder.go | 4 ++++
 addressEncoder/bech32/bech32.go  | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 8f279da..6015c09 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -261,6 +261,10 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 		if len(ret) != 20 && len(ret) != 32 {
 			return nil, ErrorInvalidHashLength
 		}
+		//prefix, version and padding have to be those of this address type
+		if !strings.EqualFold(AddressEncode(ret, addresstype), address) {
+			return nil, ErrorInvalidAddress
+		}
 		return ret, nil
 	}
 	if addresstype.EncodeType == "base32PolyMod" {
diff --git a/addressEncoder/bech32/bech32.go b/addressEncoder/bech32/bech32.go
index cb0bcd6..9b9df5a 100644
--- a/addressEncoder/bech32/bech32.go
+++ b/addressEncoder/bech32/bech32.go
@@ -383,6 +383,11 @@ func Decode(address, alphabet string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	// the separator, the six checksum characters and data must be there
+	if prefixSize == 0 || len(address)-prefixSize-1 < 6+2 {
+		return nil, ErrorInvalidAddress
+	}
+
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
-- 
2.43.0


From 228f371391e41e9e62338413339084b6c033c6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:56 +0000
Subject: [PATCH 02/45] fix: cash addresses: checksum skipped for other
 prefixes, script hash version not undone, public keys mis-encoded, short
 input panicked

---
 addressEncoder/addressEncoder.go              |  8 ++++++++
 addressEncoder/base32PolyMod/base32PolyMod.go | 19 ++++++++++++++-----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 6015c09..eee10f4 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -176,6 +176,10 @@ func AddressEncode(hash []byte, addresstype AddressType) string {
 	}
 
 	if addresstype.EncodeType == "base32PolyMod" {
+		if len(hash) == addresstype.HashLen-1 {
+			//hash of a public key: the version byte of P2PKH comes first
+			hash = append([]byte{0x00}, hash...)
+		}
 		return base32PolyMod.Encode(addresstype.ChecksumType, addresstype.Alphabet, hash)
 	}
 	if addresstype.EncodeType == "eip55" {
@@ -275,6 +279,10 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 		if len(ret) != addresstype.HashLen {
 			return nil, ErrorInvalidHashLength
 		}
+		//padding and prefix have to be those of the encoding
+		if !strings.EqualFold(AddressEncode(ret, addresstype), address) {
+			return nil, ErrorInvalidAddress
+		}
 		return ret, nil
 	}
 	if addresstype.EncodeType == "eip55" {
diff --git a/addressEncoder/base32PolyMod/base32PolyMod.go b/addressEncoder/base32PolyMod/base32PolyMod.go
index ffa3e92..9a4be62 100644
--- a/addressEncoder/base32PolyMod/base32PolyMod.go
+++ b/addressEncoder/base32PolyMod/base32PolyMod.go
@@ -198,7 +198,12 @@ func Decode(address, alphabet string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
-	prefixStr := strings.Split(address, ":")[0]
+	// the checksum is only defined here for the bitcoincash prefix, and at
+	// least a version byte has to precede its eight characters
+	prefixStr := strings.ToLower(strings.Split(address, ":")[0])
+	if prefixSize == 0 || prefixStr != "bitcoincash" || len(address)-prefixSize-1 < 8+2 {
+		return nil, ErrorInvalidAddress
+	}
 	prefixSize++
 	valueSize := len(address) - prefixSize
 	value := make([]int8, valueSize)
@@ -210,10 +215,8 @@ func Decode(address, alphabet string) ([]byte, error) {
 		value[i] = charRev[c]
 	}
 
-	if prefixStr == "bitcoincash" {
-		if !verifyChecksum(bitcoincashExpandPrefix, value) {
-			return nil, ErrorInvalidAddress
-		}
+	if !verifyChecksum(bitcoincashExpandPrefix, value) {
+		return nil, ErrorInvalidAddress
 	}
 
 	tmp := make([]int8, len(value)-8)
@@ -226,5 +229,11 @@ func Decode(address, alphabet string) ([]byte, error) {
 	for i := 0; i < len(ret); i++ {
 		bytePayload[i] = byte(ret[i])
 	}
+	// undo the version byte of Encode: the type is in bits 3 to 6, the size
+	// bits of a 160 bit hash are zero
+	if bytePayload[0]&0x87 != 0 {
+		return nil, ErrorInvalidAddress
+	}
+	bytePayload[0] >>= 3
 	return bytePayload, nil
 }
-- 
2.43.0


From cbde0d7fde7b2457800358b036c92e4f70234acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:56 +0000
Subject: [PATCH 03/45] fix: bech32m addresses of another prefix, variant or
 length decoded without error

---
 addressEncoder/addressEncoder.go  | 9 ++++++++-
 addressEncoder/bech32m/bech32m.go | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index eee10f4..505b26d 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -254,7 +254,14 @@ func AddressEncode(hash []byte, addresstype AddressType) string {
 func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 
 	if addresstype.EncodeType == "bech32m" {
-		return bech32m.Bech32mDecode(address, addresstype.ChecksumType, addresstype.Alphabet)
+		ret, err := bech32m.Bech32mDecode(address, addresstype.ChecksumType, addresstype.Alphabet)
+		if err != nil {
+			return nil, ErrorInvalidAddress
+		}
+		if len(ret) != addresstype.HashLen {
+			return nil, ErrorInvalidHashLength
+		}
+		return ret, nil
 	}
 
 	if addresstype.EncodeType == "bech32" {
diff --git a/addressEncoder/bech32m/bech32m.go b/addressEncoder/bech32m/bech32m.go
index e4d2d83..209980a 100644
--- a/addressEncoder/bech32m/bech32m.go
+++ b/addressEncoder/bech32m/bech32m.go
@@ -171,9 +171,12 @@ func Bech32mEncode(prefix string, data []byte, charset string) (string, error) {
 
 func Bech32mDecode(address, prefix string, charset string) ([]byte, error) {
 	prechk, data, spec, err := Decode(address, charset)
-	if err != nil || prechk != prefix || spec != Bech32m {
+	if err != nil {
 		return nil, err
 	}
+	if prechk != prefix || spec != Bech32m {
+		return nil, fmt.Errorf("Invalid prefix or checksum variant")
+	}
 
 	hash, err := Convertbits(data, 5, 8, false)
 	if err != nil {
-- 
2.43.0


From 2a03d4ed66b2c1075bb906a7d3d0bd54397d5caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:56 +0000
Subject: [PATCH 04/45] fix: decoding or checking a short address panicked

---
 addressEncoder/addressCheck.go   | 101 +++++++++++++++----------------
 addressEncoder/addressEncoder.go |   8 ++-
 addressEncoder/eip55/eip55.go    |   3 +-
 3 files changed, 59 insertions(+), 53 deletions(-)

diff --git a/addressEncoder/addressCheck.go b/addressEncoder/addressCheck.go
index e660d61..c10ca74 100644
--- a/addressEncoder/addressCheck.go
+++ b/addressEncoder/addressCheck.go
@@ -2,6 +2,7 @@ package addressEncoder
 
 import (
 	"errors"
+	"strings"
 )
 
 var (
@@ -20,7 +21,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 	var err error
 	switch symbol {
 	case "BTC":
-		if addr[0] == '1' {
+		if strings.HasPrefix(addr, "1") {
 			_, err = AddressDecode(addr, BTC_mainnetAddressP2PKH)
 			if err == nil {
 				return true, err
@@ -28,7 +29,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == '3' {
+		if strings.HasPrefix(addr, "3") {
 			_, err = AddressDecode(addr, BTC_mainnetAddressP2SH)
 			if err == nil {
 				return true, err
@@ -36,7 +37,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'b' && addr[1] == 'c' {
+		if strings.HasPrefix(addr, "bc") {
 			_, err = AddressDecode(addr, BTC_mainnetAddressBech32V0)
 			if err == nil {
 
@@ -45,7 +46,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'm' || addr[0] == 'n' {
+		if strings.HasPrefix(addr, "m") || strings.HasPrefix(addr, "n") {
 			_, err = AddressDecode(addr, BTC_testnetAddressP2PKH)
 			if err == nil {
 				return true, err
@@ -53,7 +54,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == '2' {
+		if strings.HasPrefix(addr, "2") {
 			_, err = AddressDecode(addr, BTC_testnetAddressP2SH)
 			if err == nil {
 				return true, err
@@ -61,7 +62,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 't' && addr[1] == 'b' {
+		if strings.HasPrefix(addr, "tb") {
 			_, err = AddressDecode(addr, BTC_testnetAddressBech32V0)
 			if err == nil {
 				return true, err
@@ -72,7 +73,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 		//other type (TODO)
 
 	case "ZEC":
-		if addr[0] == 't' && addr[1] == '1' {
+		if strings.HasPrefix(addr, "t1") {
 			_, err = AddressDecode(addr, ZEC_mainnet_t_AddressP2PKH)
 			if err == nil {
 				return true, err
@@ -80,7 +81,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 't' && addr[1] == '3' {
+		if strings.HasPrefix(addr, "t3") {
 			_, err = AddressDecode(addr, ZEC_mainnet_t_AddressP2SH)
 			if err == nil {
 				return true, err
@@ -88,7 +89,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 't' && addr[1] == 'm' {
+		if strings.HasPrefix(addr, "tm") {
 			_, err = AddressDecode(addr, ZEC_testnet_t_AddressP2PKH)
 			if err == nil {
 				return true, err
@@ -96,7 +97,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 't' && addr[1] == '2' {
+		if strings.HasPrefix(addr, "t2") {
 			_, err = AddressDecode(addr, ZEC_testnet_t_AddressP2SH)
 			if err == nil {
 				return true, err
@@ -107,7 +108,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 		//other type(TODO)
 
 	case "LTC":
-		if addr[0] == 'L' {
+		if strings.HasPrefix(addr, "L") {
 			_, err = AddressDecode(addr, LTC_mainnetAddressP2PKH)
 			if err == nil {
 				return true, err
@@ -115,7 +116,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == '3' {
+		if strings.HasPrefix(addr, "3") {
 			_, err = AddressDecode(addr, LTC_mainnetAddressP2SH)
 			if err == nil {
 				return true, err
@@ -123,7 +124,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'M' {
+		if strings.HasPrefix(addr, "M") {
 			_, err = AddressDecode(addr, LTC_mainnetAddressP2SH2)
 			if err == nil {
 				return true, err
@@ -131,7 +132,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'l' && addr[1] == 't' && addr[2] == 'c' {
+		if strings.HasPrefix(addr, "ltc") {
 			_, err = AddressDecode(addr, LTC_mainnetAddressBech32V0)
 			if err == nil {
 				return true, err
@@ -139,7 +140,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'm' || addr[0] == 'n' {
+		if strings.HasPrefix(addr, "m") || strings.HasPrefix(addr, "n") {
 			_, err = AddressDecode(addr, LTC_testnetAddressP2PKH)
 			if err == nil {
 				return true, err
@@ -147,7 +148,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == '2' {
+		if strings.HasPrefix(addr, "2") {
 			_, err = AddressDecode(addr, LTC_testnetAddressP2SH)
 			if err == nil {
 				return true, err
@@ -155,7 +156,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 't' && addr[1] == 'l' && addr[2] == 't' && addr[3] == 'c' {
+		if strings.HasPrefix(addr, "tltc") {
 			_, err = AddressDecode(addr, LTC_testnetAddressBech32V0)
 			if err == nil {
 				return true, err
@@ -165,7 +166,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 		}
 		//other type(TODO)
 	case "BCH":
-		if addr[0] == '1' {
+		if strings.HasPrefix(addr, "1") {
 			_, err = AddressDecode(addr, BCH_mainnetAddressLegacy)
 			if err == nil {
 				return true, err
@@ -174,9 +175,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 			}
 		}
 		//other type(TODO)
-		if addr[0] == 'b' && addr[1] == 'i' && addr[2] == 't' && addr[3] == 'c' &&
-			addr[4] == 'o' && addr[5] == 'i' && addr[6] == 'n' && addr[7] == 'c' &&
-			addr[8] == 'a' && addr[9] == 's' && addr[10] == 'h' && addr[11] == ':' {
+		if strings.HasPrefix(addr, "bitcoincash:") {
 			_, err = AddressDecode(addr, BCH_mainnetAddressCash)
 			if err == nil {
 				return true, err
@@ -186,7 +185,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 		}
 		//other type(TODO)
 	case "XTZ":
-		if addr[0] == 't' && addr[1] == 'z' && addr[2] == '1' {
+		if strings.HasPrefix(addr, "tz1") {
 			_, err = AddressDecode(addr, XTZ_mainnetAddress_tz1)
 			if err == nil {
 				return true, err
@@ -194,7 +193,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 't' && addr[1] == 'z' && addr[2] == '2' {
+		if strings.HasPrefix(addr, "tz2") {
 			_, err = AddressDecode(addr, XTZ_mainnetAddress_tz2)
 			if err == nil {
 				return true, err
@@ -202,7 +201,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 't' && addr[1] == 'z' && addr[2] == '3' {
+		if strings.HasPrefix(addr, "tz3") {
 			_, err = AddressDecode(addr, XTZ_mainnetAddress_tz3)
 			if err == nil {
 				return true, err
@@ -212,7 +211,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 		}
 		//other type(TODO)
 	case "HC":
-		if addr[0] == 'H' && addr[1] == 's' {
+		if strings.HasPrefix(addr, "Hs") {
 			_, err = AddressDecode(addr, HC_mainnetPublicAddress)
 			if err == nil {
 				return true, err
@@ -230,7 +229,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 		}
 		//other type(TODO)
 	case "QTUM":
-		if addr[0] == 'Q' {
+		if strings.HasPrefix(addr, "Q") {
 			_, err = AddressDecode(addr, QTUM_mainnetAddressP2PKH)
 			if err == nil {
 				return true, err
@@ -238,7 +237,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'M' {
+		if strings.HasPrefix(addr, "M") {
 			_, err = AddressDecode(addr, QTUM_mainnetAddressP2SH)
 			if err == nil {
 				return true, err
@@ -246,7 +245,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'q' {
+		if strings.HasPrefix(addr, "q") {
 			_, err = AddressDecode(addr, QTUM_testnetAddressP2PKH)
 			if err == nil {
 				return true, err
@@ -254,7 +253,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'm' {
+		if strings.HasPrefix(addr, "m") {
 			_, err = AddressDecode(addr, QTUM_testnetAddressP2SH)
 			if err == nil {
 				return true, err
@@ -264,7 +263,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 		}
 		//other type(TODO)
 	case "DCRD":
-		if addr[0] == 'D' && addr[1] == 's' {
+		if strings.HasPrefix(addr, "Ds") {
 			_, err = AddressDecode(addr, DCRD_mainnetAddressP2PKH)
 			if err == nil {
 				return true, err
@@ -272,7 +271,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'b' && addr[1] == 'g' {
+		if strings.HasPrefix(addr, "bg") {
 			_, err = AddressDecode(addr, DCRD_mainnetAddressP2PK)
 			if err == nil {
 				return true, err
@@ -280,7 +279,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'D' && addr[1] == 'e' {
+		if strings.HasPrefix(addr, "De") {
 			_, err = AddressDecode(addr, DCRD_mainnetAddressPKHEdwards)
 			if err == nil {
 				return true, err
@@ -288,7 +287,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'D' && addr[1] == 'S' {
+		if strings.HasPrefix(addr, "DS") {
 			_, err = AddressDecode(addr, DCRD_mainnetAddressPKHSchnorr)
 			if err == nil {
 				return true, err
@@ -296,7 +295,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'D' && addr[1] == 'c' {
+		if strings.HasPrefix(addr, "Dc") {
 			_, err = AddressDecode(addr, DCRD_mainnetAddressP2SH)
 			if err == nil {
 				return true, err
@@ -304,7 +303,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == '2' && addr[1] == '4' {
+		if strings.HasPrefix(addr, "24") {
 			_, err = AddressDecode(addr, DCRD_mainnetAddressPrivate)
 			if err == nil {
 				return true, err
@@ -312,7 +311,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'T' && addr[1] == 's' {
+		if strings.HasPrefix(addr, "Ts") {
 			_, err = AddressDecode(addr, DCRD_testnetAddressP2PKH)
 			if err == nil {
 				return true, err
@@ -320,7 +319,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == '2' && addr[1] == 'F' {
+		if strings.HasPrefix(addr, "2F") {
 			_, err = AddressDecode(addr, DCRD_testnetAddressP2PK)
 			if err == nil {
 				return true, err
@@ -328,7 +327,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'T' && addr[1] == 'e' {
+		if strings.HasPrefix(addr, "Te") {
 			_, err = AddressDecode(addr, DCRD_testnetAddressPKHEdwards)
 			if err == nil {
 				return true, err
@@ -336,7 +335,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'T' && addr[1] == 'S' {
+		if strings.HasPrefix(addr, "TS") {
 			_, err = AddressDecode(addr, DCRD_testnetAddressP2PKHSchnorr)
 			if err == nil {
 				return true, err
@@ -344,7 +343,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'T' && addr[1] == 'c' {
+		if strings.HasPrefix(addr, "Tc") {
 			_, err = AddressDecode(addr, DCRD_testnetAddressP2SH)
 			if err == nil {
 				return true, err
@@ -352,7 +351,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == '2' && addr[1] == '5' {
+		if strings.HasPrefix(addr, "25") {
 			_, err = AddressDecode(addr, DCRD_testnetAddressPrivate)
 			if err == nil {
 				return true, err
@@ -360,7 +359,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'S' && addr[1] == 's' {
+		if strings.HasPrefix(addr, "Ss") {
 			_, err = AddressDecode(addr, DCRD_simnetAddressP2PKH)
 			if err == nil {
 				return true, err
@@ -368,7 +367,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == '2' && addr[1] == 'D' {
+		if strings.HasPrefix(addr, "2D") {
 			_, err = AddressDecode(addr, DCRD_simnetAddressP2PK)
 			if err == nil {
 				return true, err
@@ -376,7 +375,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'S' && addr[1] == 'e' {
+		if strings.HasPrefix(addr, "Se") {
 			_, err = AddressDecode(addr, DCRD_simnetAddressPKHEdwards)
 			if err == nil {
 				return true, err
@@ -384,7 +383,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'S' && addr[1] == 'S' {
+		if strings.HasPrefix(addr, "SS") {
 			_, err = AddressDecode(addr, DCRD_simnetAddressPKHSchnorr)
 			if err == nil {
 				return true, err
@@ -392,7 +391,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'S' && addr[1] == 'c' {
+		if strings.HasPrefix(addr, "Sc") {
 			_, err = AddressDecode(addr, DCRD_simnetAddressP2SH)
 			if err == nil {
 				return true, err
@@ -402,7 +401,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 		}
 		//other type(TODO)
 	case "NAS":
-		if addr[0] == 'n' && addr[1] == '1' {
+		if strings.HasPrefix(addr, "n1") {
 			_, err = AddressDecode(addr, NAS_AccountAddress)
 			if err == nil {
 				return true, err
@@ -410,7 +409,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 				return false, err
 			}
 		}
-		if addr[0] == 'n' && addr[1] == '2' {
+		if strings.HasPrefix(addr, "n2") {
 			_, err = AddressDecode(addr, NAS_SmartContractAddress)
 			if err == nil {
 				return true, err
@@ -420,7 +419,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 		}
 		//other type(TODO)
 	case "TRX":
-		if addr[0] == 'T' {
+		if strings.HasPrefix(addr, "T") {
 			_, err = AddressDecode(addr, TRON_mainnetAddress)
 			if err == nil {
 				return true, err
@@ -429,7 +428,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 			}
 		}
 	case "ICX":
-		if addr[0] == 'h' && addr[1] == 'x' {
+		if strings.HasPrefix(addr, "hx") {
 			_, err = AddressDecode(addr, ICX_walletAddress)
 			if err == nil {
 				return true, err
@@ -438,7 +437,7 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 			}
 		}
 	case "VSYS":
-		if addr[0] == 'A' {
+		if strings.HasPrefix(addr, "A") {
 			_, err = AddressDecode(addr, VSYS_mainnetAddress)
 			if err == nil {
 				return true, err
diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 505b26d..7537a87 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -56,6 +56,9 @@ func verifyChecksum(data []byte, chkType string) bool {
 		return false
 	}
 	checksum := calcChecksum(data[:len(data)-4], chkType)
+	if len(checksum) != 4 {
+		return false
+	}
 	for i := 0; i < 4; i++ {
 		if checksum[i] != data[len(data)-4+i] {
 			return false
@@ -77,6 +80,9 @@ func catData(data1 []byte, data2 []byte) []byte {
 }
 
 func recoverData(data, prefix, suffix []byte) ([]byte, error) {
+	if len(data) < len(prefix)+len(suffix) {
+		return nil, ErrorInvalidAddress
+	}
 	for i := 0; i < len(prefix); i++ {
 		if data[i] != prefix[i] {
 			return nil, ErrorInvalidAddress
@@ -303,7 +309,7 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 		return ret, nil
 	}
 	if addresstype.EncodeType == "ICX" {
-		if address[0] != 'h' || address[1] != 'x' {
+		if !strings.HasPrefix(address, "hx") {
 			return nil, ErrorInvalidAddress
 		} else {
 			if len(address)-2 != 40 {
diff --git a/addressEncoder/eip55/eip55.go b/addressEncoder/eip55/eip55.go
index 8727322..9116810 100644
--- a/addressEncoder/eip55/eip55.go
+++ b/addressEncoder/eip55/eip55.go
@@ -3,6 +3,7 @@ package eip55
 import(
 	"errors"
 	"encoding/hex"
+	"strings"
 )
 var (
 	ErrorInvalidAddress  = errors.New("Invalid address!")
@@ -92,7 +93,7 @@ func Eip55_decode(encode_addr string)([]byte,error){
 		return nil,ErrorInvalidAddress
 	}
 	*/
-	if encode_addr[0:2] == "0x" {
+	if strings.HasPrefix(encode_addr, "0x") {
 		encode_addr = encode_addr[2:]
 	}
 	decode_addr,err :=hex.DecodeString(encode_addr)
-- 
2.43.0


From fd07808db64db3a5a8f738fef65c9d6f1427b71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:56 +0000
Subject: [PATCH 05/45] fix: address check refused every NAS smart contract
 address

---
 addressEncoder/addressCheck.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/addressEncoder/addressCheck.go b/addressEncoder/addressCheck.go
index c10ca74..9655b1c 100644
--- a/addressEncoder/addressCheck.go
+++ b/addressEncoder/addressCheck.go
@@ -402,7 +402,11 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 		//other type(TODO)
 	case "NAS":
 		if strings.HasPrefix(addr, "n1") {
+			//accounts and most smart contracts start with n1
 			_, err = AddressDecode(addr, NAS_AccountAddress)
+			if err != nil {
+				_, err = AddressDecode(addr, NAS_SmartContractAddress)
+			}
 			if err == nil {
 				return true, err
 			} else {
-- 
2.43.0


From 09a4bb914824edbfcb83d814214417b2863a27c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:56 +0000
Subject: [PATCH 06/45] fix: EOS and AE keys of any length decoded, EOS
 PUB_K1_/PUB_R1_ checksum ignored the curve

---
 addressEncoder/aeternity.go |  4 ++++
 addressEncoder/eos.go       | 16 +++++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/addressEncoder/aeternity.go b/addressEncoder/aeternity.go
index 3149d57..9953290 100644
--- a/addressEncoder/aeternity.go
+++ b/addressEncoder/aeternity.go
@@ -23,6 +23,10 @@ func decodeAE(pubKey string, addresstype AddressType) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if len(ret)-4 != addresstype.HashLen {
+		return nil, ErrorInvalidHashLength
+	}
+
 	return ret[:len(ret)-4], nil
 }
 
diff --git a/addressEncoder/eos.go b/addressEncoder/eos.go
index 8214fb7..2770244 100644
--- a/addressEncoder/eos.go
+++ b/addressEncoder/eos.go
@@ -1,6 +1,7 @@
 package addressEncoder
 
 import (
+	"bytes"
 	"fmt"
 	"strings"
 )
@@ -14,11 +15,13 @@ const (
 
 func decodeEOS(pubKey string, addresstype AddressType) ([]byte, error) {
 
-	var pubKeyMaterial string
+	var pubKeyMaterial, curve string
 	if strings.HasPrefix(pubKey, EOSPublicKeyR1Prefix) {
 		pubKeyMaterial = pubKey[len(EOSPublicKeyR1Prefix):] // strip "PUB_R1_"
+		curve = "R1"
 	} else if strings.HasPrefix(pubKey, EOSPublicKeyK1Prefix) {
 		pubKeyMaterial = pubKey[len(EOSPublicKeyK1Prefix):] // strip "PUB_K1_"
+		curve = "K1"
 	} else if strings.HasPrefix(pubKey, EOSPublicKeyPrefixCompat) { // "EOS"
 		pubKeyMaterial = pubKey[len(EOSPublicKeyPrefixCompat):] // strip "EOS"
 	} else {
@@ -29,11 +32,18 @@ func decodeEOS(pubKey string, addresstype AddressType) ([]byte, error) {
 	if err != nil {
 		return nil, ErrorInvalidAddress
 	}
-	if verifyChecksum(ret, addresstype.ChecksumType) == false {
+	if len(ret)-4 != addresstype.HashLen {
+		return nil, ErrorInvalidHashLength
+	}
+
+	key := ret[:len(ret)-4]
+	//the new formats commit to the curve in the checksum
+	checksum := calcChecksum(append(append([]byte{}, key...), curve...), addresstype.ChecksumType)
+	if !bytes.Equal(checksum, ret[len(ret)-4:]) {
 		return nil, ErrorInvalidAddress
 	}
 
-	return ret[:len(ret)-4], nil
+	return key, nil
 }
 
 func encodeEOS(hash []byte, addresstype AddressType) string {
-- 
2.43.0


From 0c390acf2caed5f45d2394edd2502a30c11fd435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:56 +0000
Subject: [PATCH 07/45] fix: XMR address blocks that overflow eight bytes were
 accepted

---
 addressEncoder/addressEncoder.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 7537a87..975d4dd 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -79,6 +79,15 @@ func catData(data1 []byte, data2 []byte) []byte {
 	return append(data1, data2...)
 }
 
+func allZero(data []byte) bool {
+	for _, b := range data {
+		if b != 0 {
+			return false
+		}
+	}
+	return true
+}
+
 func recoverData(data, prefix, suffix []byte) ([]byte, error) {
 	if len(data) < len(prefix)+len(suffix) {
 		return nil, ErrorInvalidAddress
@@ -344,7 +353,7 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 				fmt.Printf("Base58 decode failed,block:%d,unexpected error:%v", i+1, err)
 				return nil, err
 			}
-			if len(blockDecode) < 8 {
+			if len(blockDecode) < 8 || !allZero(blockDecode[:len(blockDecode)-8]) {
 				return nil, fmt.Errorf("decode result length error,block:%d", i+1)
 			} else {
 				decodeRet = append(decodeRet, blockDecode[len(blockDecode)-8:]...)
@@ -355,7 +364,7 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 			fmt.Printf("The last block decode failed,unexpected error:%v", err)
 			return nil, err
 		}
-		if len(lastBlockDecode) < 5 {
+		if len(lastBlockDecode) < 5 || !allZero(lastBlockDecode[:len(lastBlockDecode)-5]) {
 			return nil, fmt.Errorf("The last block decode result length error!!!")
 		} else {
 			decodeRet = append(decodeRet, lastBlockDecode[len(lastBlockDecode)-5:]...)
-- 
2.43.0


From 8593761d84790ae203c4903460d5e1902984a7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:56 +0000
Subject: [PATCH 08/45] fix: base64 encodings made by NewEncoding could not
 encode or decode

---
 addressEncoder/base64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/addressEncoder/base64.go b/addressEncoder/base64.go
index e82554f..af4e3fc 100644
--- a/addressEncoder/base64.go
+++ b/addressEncoder/base64.go
@@ -31,7 +31,7 @@ func NewEncoding(encoder string) *Encoding {
 
 	e := new(Encoding)
 	e.padChar = StdPadding
-	copy(e.encode[:], encoder)
+	e.encode = []byte(encoder)
 
 	for i := 0; i < len(e.decodeMap); i++ {
 		e.decodeMap[i] = 0xFF
-- 
2.43.0


From ccf108a6e44d1e8439447e484a82792f5922af3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:08 +0000
Subject: [PATCH 09/45] fix: derived private keys with two or more leading zero
 bytes came out short

---
 owkeychain/extendedkey.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index 97f56cd..dc81daf 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -119,10 +119,8 @@ func getPriChildViaPriParent(il, prikey []byte, typeChoose uint32) ([]byte, erro
 			return nil, ErrInvalidChild
 		}
 		priChild = ilNum.Bytes()
-		if len(priChild) < 32 {
-			for i := 0; i < 32-len(priChild); i++ {
-				priChild = append([]byte{0x00}, priChild...)
-			}
+		for len(priChild) < 32 {
+			priChild = append([]byte{0x00}, priChild...)
 		}
 		priChild = inverse(priChild)
 	} else {
@@ -138,10 +136,8 @@ func getPriChildViaPriParent(il, prikey []byte, typeChoose uint32) ([]byte, erro
 			return nil, ErrInvalidChild
 		}
 		priChild = ilNum.Bytes()
-		if len(priChild) < 32 {
-			for i := 0; i < 32-len(priChild); i++ {
-				priChild = append([]byte{0x00}, priChild...)
-			}
+		for len(priChild) < 32 {
+			priChild = append([]byte{0x00}, priChild...)
 		}
 	}
 	return priChild, nil
-- 
2.43.0


From 23d94b982b1e2fec456512a2b73acc23b756c3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:08 +0000
Subject: [PATCH 10/45] fix: HD derivation answered public children beyond
 depth 255, unknown curves and path indices out of range

---
 owkeychain/extendedkey.go | 9 +++++++++
 owkeychain/hdkey.go       | 8 ++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index dc81daf..680876e 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -37,6 +37,9 @@ var (
 	// 种子长度错误
 	ErrInvalidSeedLen = fmt.Errorf("seed length should be between 16 bytes and 64 bytes!")
 
+	// 不支持的曲线类型
+	ErrInvalidCurve = errors.New("unsupported curve type")
+
 	// reserve
 	ErrBadChecksum = errors.New("bad extended key checksum")
 
@@ -245,6 +248,9 @@ func (k *ExtendedKey) GenPublicChild(serializes uint32) (*ExtendedKey, error) {
 		typeChoose = owcrypt.ECC_CURVE_ED25519
 	}
 	if !k.isPrivate {
+		if k.depth == maxUint8 { //越过最大深度限制
+			return nil, ErrDeriveBeyondMaxDepth
+		}
 		if serializes >= HardenedKeyStart { //不能从父公钥强化扩展
 			return nil, ErrDeriveHardFromPublic
 		}
@@ -276,6 +282,9 @@ func InitRootKeyFromSeed(seed []byte, curveType uint32) (*ExtendedKey, error) {
 	if len(seed) < MinRecommendedSeedLen || len(seed) > MAxRecommendedSeedLen {
 		return nil, ErrInvalidSeedLen
 	}
+	if getCurveOrder(curveType) == nil {
+		return nil, ErrInvalidCurve
+	}
 	ctx := sha512.New()
 	ctx.Write(seed)
 	i := ctx.Sum(nil)
diff --git a/owkeychain/hdkey.go b/owkeychain/hdkey.go
index e6ab4d1..8e246b8 100644
--- a/owkeychain/hdkey.go
+++ b/owkeychain/hdkey.go
@@ -43,13 +43,13 @@ func DerivedPrivateKeyWithPath(seed []byte, derivedPath string, curveType uint32
 
 		if strings.Index(elem, "'") == len(elem)-1 {
 			elem = elem[0 : len(elem)-1]
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 31)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index) + HardenedKeyStart
 		} else {
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 32)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
@@ -110,13 +110,13 @@ func (k *ExtendedKey) DerivedPublicKeyFromPath(derivedPath string) (*ExtendedKey
 
 		if strings.Index(elem, "'") == len(elem)-1 {
 			elem = elem[0 : len(elem)-1]
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 31)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index) + HardenedKeyStart
 		} else {
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 32)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
-- 
2.43.0


From f16cfc00fcf7a504c81a030ed2487d93e9c795ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:08 +0000
Subject: [PATCH 11/45] fix: extended key text of a wrong length was accepted
 or panicked

---
 owkeychain/owencode.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/owkeychain/owencode.go b/owkeychain/owencode.go
index cdab5af..9249db4 100644
--- a/owkeychain/owencode.go
+++ b/owkeychain/owencode.go
@@ -35,6 +35,9 @@ func Base58checkDecode(address string, fix []byte) ([]byte, error) {
 	if err != nil {
 		return nil, ErrInvalidAddress
 	}
+	if len(decodeBytes) < len(fix)+4 {
+		return nil, ErrInvalidAddress
+	}
 	for i := 0; i < len(fix); i++ {
 		if fix[i] != decodeBytes[i] {
 			return nil, ErrInvalidAddress
@@ -107,6 +110,9 @@ func OWDecode(data string) (*ExtendedKey, error) {
 			}
 		}
 	}
+	if len(decodeBytes) < 46 {
+		return nil, ErrInvalidAddress
+	}
 	curveType := bytesToUInt32(decodeBytes[:4])
 	depth := decodeBytes[4]
 	parentFP := decodeBytes[5:9]
@@ -117,9 +123,19 @@ func OWDecode(data string) (*ExtendedKey, error) {
 			return nil, ErrInvalidAddress
 		}
 		key := decodeBytes[46:]
+		if len(key) != 32 {
+			return nil, ErrInvalidAddress
+		}
 
 		return NewExtendedKey(key, chainCode, parentFP, depth, serializes, privateFlag, curveType), nil
 	}
 	key := decodeBytes[45:]
+	keyLen := 33
+	if curveType == owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL || curveType == owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG {
+		keyLen = 48
+	}
+	if len(key) != keyLen {
+		return nil, ErrInvalidAddress
+	}
 	return NewExtendedKey(key, chainCode, parentFP, depth, serializes, privateFlag, curveType), nil
 }
-- 
2.43.0


From d9e265858ede04ec0089398cb7aee0dd75d77192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:08 +0000
Subject: [PATCH 12/45] fix: Base58checkEncode wrote behind the caller's prefix
 slice

---
 owkeychain/owencode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/owkeychain/owencode.go b/owkeychain/owencode.go
index 9249db4..941e8e7 100644
--- a/owkeychain/owencode.go
+++ b/owkeychain/owencode.go
@@ -23,7 +23,8 @@ func Base58checkEncode(data []byte, fix []byte) string {
 	hash = ctx.Sum(nil)
 
 	fix_value := []byte{}
-	fix_value = append(fix, data...)
+	fix_value = append(fix_value, fix...)
+	fix_value = append(fix_value, data...)
 	fix_value = append(fix_value, hash[:4]...)
 
 	return Encode(fix_value[:], BitcoinAlphabet)
-- 
2.43.0


From 620be4b18ecffe0709046456bc702440c4e16b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:08 +0000
Subject: [PATCH 13/45] fix: deriving from or decompressing a public key that
 is no curve point panicked

---
 owkeychain/extendedkey.go | 3 +++
 owkeychain/hdkey.go       | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index 680876e..636ef80 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -182,6 +182,9 @@ func getPubChildViaPubParent(il, pubkey []byte, typeChoose uint32) ([]byte, erro
 		return point, nil
 	}
 	parentPubPoint := owcrypt.PointDecompress(pubkey, typeChoose)
+	if parentPubPoint == nil {
+		return nil, ErrInvalidChild
+	}
 	point, isinfinity := owcrypt.Point_mulBaseG_add(parentPubPoint[1:], il, typeChoose)
 	if isinfinity {
 		return nil, ErrInvalidChild
diff --git a/owkeychain/hdkey.go b/owkeychain/hdkey.go
index 8e246b8..4a30935 100644
--- a/owkeychain/hdkey.go
+++ b/owkeychain/hdkey.go
@@ -159,7 +159,11 @@ func (k *ExtendedKey) GetUncompressedPublicKeyBytes() []byte {
 		pubkey = k.key
 	}
 
-	return owcrypt.PointDecompress(pubkey, k.curveType)[1:]
+	point := owcrypt.PointDecompress(pubkey, k.curveType)
+	if point == nil {
+		return nil
+	}
+	return point[1:]
 }
 
 //GePublicKey 获取公钥结构体
-- 
2.43.0


From dfc186de6cc504771cbfb6d36c7efcb3f03d2017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:27 +0000
Subject: [PATCH 14/45] fix: decoding a short base58 address panicked in the
 transaction drivers

---
 aliencoinTransaction/base58.go      | 3 +++
 bitcoincashTransaction/base58.go    | 3 +++
 bitcoinsvTransaction/base58.go      | 3 +++
 btcLikeTxDriver/base58.go           | 3 +++
 btcTransaction/base58.go            | 3 +++
 cxcTransaction/base58.go            | 3 +++
 elastosTransaction/base58.go        | 3 +++
 fiiiTransaction/base58.go           | 3 +++
 hcTransaction/base58.go             | 3 +++
 hypercashTransaction/base58.go      | 3 +++
 omniTransaction/base58.go           | 3 +++
 ontologyTransaction/base58.go       | 3 +++
 vergeTransaction/base58.go          | 3 +++
 virtualeconomyTransaction/base58.go | 3 +++
 vollarTransaction/base58.go         | 3 +++
 waykichainTransaction/base58.go     | 3 +++
 zencashTransaction/base58.go        | 3 +++
 17 files changed, 51 insertions(+)

diff --git a/aliencoinTransaction/base58.go b/aliencoinTransaction/base58.go
index 53908d2..227ccfb 100644
--- a/aliencoinTransaction/base58.go
+++ b/aliencoinTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 5 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/bitcoincashTransaction/base58.go b/bitcoincashTransaction/base58.go
index d518067..334a8fb 100644
--- a/bitcoincashTransaction/base58.go
+++ b/bitcoincashTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/bitcoinsvTransaction/base58.go b/bitcoinsvTransaction/base58.go
index af85206..3209e4b 100644
--- a/bitcoinsvTransaction/base58.go
+++ b/bitcoinsvTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/btcLikeTxDriver/base58.go b/btcLikeTxDriver/base58.go
index a6a9b0d..8881a34 100644
--- a/btcLikeTxDriver/base58.go
+++ b/btcLikeTxDriver/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 5 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/btcTransaction/base58.go b/btcTransaction/base58.go
index 96f8fe2..ebd84fd 100644
--- a/btcTransaction/base58.go
+++ b/btcTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/cxcTransaction/base58.go b/cxcTransaction/base58.go
index ccd7ea2..3bd3c50 100644
--- a/cxcTransaction/base58.go
+++ b/cxcTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/elastosTransaction/base58.go b/elastosTransaction/base58.go
index 04054e6..7fe396b 100644
--- a/elastosTransaction/base58.go
+++ b/elastosTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/fiiiTransaction/base58.go b/fiiiTransaction/base58.go
index 2226867..e351c84 100644
--- a/fiiiTransaction/base58.go
+++ b/fiiiTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string, prefix []byte) ([]byte, error) {
 	if err != nil {
 		return nil, errors.New("Invalid address!")
 	}
+	if len(ret) < len(prefix)+4 {
+		return nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/hcTransaction/base58.go b/hcTransaction/base58.go
index 772572c..cd61066 100644
--- a/hcTransaction/base58.go
+++ b/hcTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/hypercashTransaction/base58.go b/hypercashTransaction/base58.go
index 020220b..3b3b96e 100644
--- a/hypercashTransaction/base58.go
+++ b/hypercashTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_BLAKE256), 0, owcrypt.HASH_ALG_BLAKE256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/omniTransaction/base58.go b/omniTransaction/base58.go
index b080ce9..c2764e8 100644
--- a/omniTransaction/base58.go
+++ b/omniTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/ontologyTransaction/base58.go b/ontologyTransaction/base58.go
index 3f28e8c..2cf7f8f 100644
--- a/ontologyTransaction/base58.go
+++ b/ontologyTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 5 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/vergeTransaction/base58.go b/vergeTransaction/base58.go
index 7b1da8a..d2fb594 100644
--- a/vergeTransaction/base58.go
+++ b/vergeTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 5 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/virtualeconomyTransaction/base58.go b/virtualeconomyTransaction/base58.go
index 999f35b..8a7484f 100644
--- a/virtualeconomyTransaction/base58.go
+++ b/virtualeconomyTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, error) {
 	if err != nil {
 		return nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4 {
+		return nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(owcrypt.Hash(ret[:len(ret)-4], 32, owcrypt.HASH_ALG_BLAKE2B), 0, owcrypt.HASH_ALG_KECCAK256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/vollarTransaction/base58.go b/vollarTransaction/base58.go
index 786201c..6a80f62 100644
--- a/vollarTransaction/base58.go
+++ b/vollarTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/waykichainTransaction/base58.go b/waykichainTransaction/base58.go
index 80d3f60..3b97d58 100644
--- a/waykichainTransaction/base58.go
+++ b/waykichainTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/zencashTransaction/base58.go b/zencashTransaction/base58.go
index 25b462c..7bec569 100644
--- a/zencashTransaction/base58.go
+++ b/zencashTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 4+0x14 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
-- 
2.43.0


From e5341be55ae269e3c751bfb42f6fe8c783876c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:27 +0000
Subject: [PATCH 15/45] fix: EncodeCheck wrote behind the caller's prefix slice

---
 bitcoincashTransaction/base58.go | 2 +-
 bitcoinsvTransaction/base58.go   | 2 +-
 btcTransaction/base58.go         | 2 +-
 cxcTransaction/base58.go         | 2 +-
 elastosTransaction/base58.go     | 2 +-
 fiiiTransaction/base58.go        | 2 +-
 hcTransaction/base58.go          | 2 +-
 hypercashTransaction/base58.go   | 2 +-
 omniTransaction/base58.go        | 2 +-
 vollarTransaction/base58.go      | 2 +-
 waykichainTransaction/base58.go  | 2 +-
 zencashTransaction/base58.go     | 2 +-
 12 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/bitcoincashTransaction/base58.go b/bitcoincashTransaction/base58.go
index 334a8fb..6d2fefb 100644
--- a/bitcoincashTransaction/base58.go
+++ b/bitcoincashTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/bitcoinsvTransaction/base58.go b/bitcoinsvTransaction/base58.go
index 3209e4b..c43bc7f 100644
--- a/bitcoinsvTransaction/base58.go
+++ b/bitcoinsvTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/btcTransaction/base58.go b/btcTransaction/base58.go
index ebd84fd..e0fab09 100644
--- a/btcTransaction/base58.go
+++ b/btcTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/cxcTransaction/base58.go b/cxcTransaction/base58.go
index 3bd3c50..df1e8e0 100644
--- a/cxcTransaction/base58.go
+++ b/cxcTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/elastosTransaction/base58.go b/elastosTransaction/base58.go
index 7fe396b..644ef79 100644
--- a/elastosTransaction/base58.go
+++ b/elastosTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/fiiiTransaction/base58.go b/fiiiTransaction/base58.go
index e351c84..e2cf5c0 100644
--- a/fiiiTransaction/base58.go
+++ b/fiiiTransaction/base58.go
@@ -179,7 +179,7 @@ func DecodeCheck(address string, prefix []byte) ([]byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/hcTransaction/base58.go b/hcTransaction/base58.go
index cd61066..cbb57cf 100644
--- a/hcTransaction/base58.go
+++ b/hcTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/hypercashTransaction/base58.go b/hypercashTransaction/base58.go
index 3b3b96e..6ca7fed 100644
--- a/hypercashTransaction/base58.go
+++ b/hypercashTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(owcrypt.Hash(data, 0, owcrypt.HASH_ALG_BLAKE256), 0, owcrypt.HASH_ALG_BLAKE256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/omniTransaction/base58.go b/omniTransaction/base58.go
index c2764e8..4450514 100644
--- a/omniTransaction/base58.go
+++ b/omniTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/vollarTransaction/base58.go b/vollarTransaction/base58.go
index 6a80f62..156ada9 100644
--- a/vollarTransaction/base58.go
+++ b/vollarTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/waykichainTransaction/base58.go b/waykichainTransaction/base58.go
index 3b97d58..bf79246 100644
--- a/waykichainTransaction/base58.go
+++ b/waykichainTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/zencashTransaction/base58.go b/zencashTransaction/base58.go
index 7bec569..4107926 100644
--- a/zencashTransaction/base58.go
+++ b/zencashTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
-- 
2.43.0


From 593b90cfd168a3063937ca0af345d1648ab84dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:57 +0000
Subject: [PATCH 16/45] fix: bech32 addresses of another version, length or
 padding were paid as version 0, short ones panicked

---
 btcTransaction/bech32.go     | 9 +++++++++
 cxcTransaction/bech32.go     | 9 +++++++++
 hcTransaction/bech32.go      | 9 +++++++++
 omniTransaction/bech32.go    | 9 +++++++++
 zencashTransaction/bech32.go | 9 +++++++++
 5 files changed, 45 insertions(+)

diff --git a/btcTransaction/bech32.go b/btcTransaction/bech32.go
index 61bcae7..eec4aa9 100644
--- a/btcTransaction/bech32.go
+++ b/btcTransaction/bech32.go
@@ -201,10 +201,19 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
+	//only version 0 programs of 20 or 32 bytes, the rest cannot be paid with the scripts made here
+	if len(value) != 1+32+6 && len(value) != 1+52+6 {
+		return nil, ErrorInvalidAddress
+	}
+
 	if !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if value[0] != 0 || (len(value) == 1+52+6 && value[52]&0x0F != 0) {
+		return nil, ErrorInvalidAddress
+	}
+
 	tmp := make([]int8, len(value)-6)
 	copy(tmp, value)
 
diff --git a/cxcTransaction/bech32.go b/cxcTransaction/bech32.go
index 530a591..90f0f76 100644
--- a/cxcTransaction/bech32.go
+++ b/cxcTransaction/bech32.go
@@ -201,10 +201,19 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
+	//only version 0 programs of 20 or 32 bytes, the rest cannot be paid with the scripts made here
+	if len(value) != 1+32+6 && len(value) != 1+52+6 {
+		return nil, ErrorInvalidAddress
+	}
+
 	if !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if value[0] != 0 || (len(value) == 1+52+6 && value[52]&0x0F != 0) {
+		return nil, ErrorInvalidAddress
+	}
+
 	tmp := make([]int8, len(value)-6)
 	copy(tmp, value)
 
diff --git a/hcTransaction/bech32.go b/hcTransaction/bech32.go
index b6cb6e8..007b0ba 100644
--- a/hcTransaction/bech32.go
+++ b/hcTransaction/bech32.go
@@ -201,10 +201,19 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
+	//only version 0 programs of 20 or 32 bytes, the rest cannot be paid with the scripts made here
+	if len(value) != 1+32+6 && len(value) != 1+52+6 {
+		return nil, ErrorInvalidAddress
+	}
+
 	if !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if value[0] != 0 || (len(value) == 1+52+6 && value[52]&0x0F != 0) {
+		return nil, ErrorInvalidAddress
+	}
+
 	tmp := make([]int8, len(value)-6)
 	copy(tmp, value)
 
diff --git a/omniTransaction/bech32.go b/omniTransaction/bech32.go
index 640b491..05f9710 100644
--- a/omniTransaction/bech32.go
+++ b/omniTransaction/bech32.go
@@ -201,10 +201,19 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
+	//only version 0 programs of 20 or 32 bytes, the rest cannot be paid with the scripts made here
+	if len(value) != 1+32+6 && len(value) != 1+52+6 {
+		return nil, ErrorInvalidAddress
+	}
+
 	if !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if value[0] != 0 || (len(value) == 1+52+6 && value[52]&0x0F != 0) {
+		return nil, ErrorInvalidAddress
+	}
+
 	tmp := make([]int8, len(value)-6)
 	copy(tmp, value)
 
diff --git a/zencashTransaction/bech32.go b/zencashTransaction/bech32.go
index c11aebd..e00d0db 100644
--- a/zencashTransaction/bech32.go
+++ b/zencashTransaction/bech32.go
@@ -201,10 +201,19 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
+	//only version 0 programs of 20 or 32 bytes, the rest cannot be paid with the scripts made here
+	if len(value) != 1+32+6 && len(value) != 1+52+6 {
+		return nil, ErrorInvalidAddress
+	}
+
 	if !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if value[0] != 0 || (len(value) == 1+52+6 && value[52]&0x0F != 0) {
+		return nil, ErrorInvalidAddress
+	}
+
 	tmp := make([]int8, len(value)-6)
 	copy(tmp, value)
 
-- 
2.43.0


From 2f5988b652e6951842eb2d35e0abf089ffaf2bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:59 +0000
Subject: [PATCH 17/45] fix: outputs to bech32 addresses were refused, base58
 addresses starting like the bech32 prefix were taken for bech32

---
 btcTransaction/txOut.go     | 2 +-
 cxcTransaction/txAsset.go   | 4 +++-
 cxcTransaction/txOut.go     | 4 +++-
 hcTransaction/txOut.go      | 4 +++-
 omniTransaction/txOut.go    | 4 +++-
 zencashTransaction/txOut.go | 4 +++-
 6 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/btcTransaction/txOut.go b/btcTransaction/txOut.go
index ff18646..b13bde1 100644
--- a/btcTransaction/txOut.go
+++ b/btcTransaction/txOut.go
@@ -27,7 +27,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
diff --git a/cxcTransaction/txAsset.go b/cxcTransaction/txAsset.go
index 43b6f06..5d27645 100644
--- a/cxcTransaction/txAsset.go
+++ b/cxcTransaction/txAsset.go
@@ -30,7 +30,7 @@ func getTransferAssetWithPayload(tos []AssetTransfer, addressPrefix AddressPrefi
 
 	ret := make([]TxOut, 0)
 	for _, to := range tos {
-		if strings.Index(to.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(to.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(to.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
@@ -46,6 +46,8 @@ func getTransferAssetWithPayload(tos []AssetTransfer, addressPrefix AddressPrefi
 			redeem = append(redeem, payload...)
 			redeem = append(redeem, OpDrop)
 			ret = append(ret, TxOut{uint64ToLittleEndianBytes(0), redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(to.Address)
diff --git a/cxcTransaction/txOut.go b/cxcTransaction/txOut.go
index 03088fa..38feefa 100644
--- a/cxcTransaction/txOut.go
+++ b/cxcTransaction/txOut.go
@@ -25,7 +25,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
@@ -35,6 +35,8 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/hcTransaction/txOut.go b/hcTransaction/txOut.go
index 36c4f52..f988475 100644
--- a/hcTransaction/txOut.go
+++ b/hcTransaction/txOut.go
@@ -25,7 +25,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
@@ -35,6 +35,8 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/omniTransaction/txOut.go b/omniTransaction/txOut.go
index 5539515..7515f88 100644
--- a/omniTransaction/txOut.go
+++ b/omniTransaction/txOut.go
@@ -25,7 +25,7 @@ func newTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix Add
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
@@ -35,6 +35,8 @@ func newTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix Add
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index 73ea817..6740825 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -42,7 +42,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.HasPrefix(v.Address, prefixStr+"1") {
 			redeem, err := Bech32Decode(v.Address)
 			if err != nil {
 				return nil, errors.New("Invalid bech32 type address!")
@@ -52,6 +52,8 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount: amount, lockScript: redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
-- 
2.43.0


From f1281e631190a8ced119a91a8a4e72ff41cd3295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:00 +0000
Subject: [PATCH 18/45] fix: cxc asset ids and zencash block hashes of any
 length were accepted

---
 cxcTransaction/txAsset.go   | 2 +-
 zencashTransaction/txOut.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxcTransaction/txAsset.go b/cxcTransaction/txAsset.go
index 5d27645..1cbf331 100644
--- a/cxcTransaction/txAsset.go
+++ b/cxcTransaction/txAsset.go
@@ -9,7 +9,7 @@ func getTransferPayload(to AssetTransfer) []byte {
 	ret := []byte(AssetTransferSign)
 
 	sellfirstBytes, err := reverseHexToBytes(to.FirstSellTxID)
-	if err != nil {
+	if err != nil || len(sellfirstBytes) != 16 {
 		return nil
 	}
 
diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index 6740825..5fa5a15 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -24,7 +24,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 	p2wpkhPrefixByte = addressPrefix.P2WPKHPrefix
 
 	blockHashBytes, err := reverseHexToBytes(blockHash)
-	if err != nil {
+	if err != nil || len(blockHashBytes) != 32 {
 		return nil, errors.New("Invalid block hash!")
 	}
 	tmp := make([]byte, 8)
-- 
2.43.0


From 58a6a7aef8f7bd6dec2d894385ccde71bab4809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:33 +0000
Subject: [PATCH 19/45] fix: omni payloads over 75 bytes made a broken script,
 a bad freeze address an empty payload

---
 bitcoincashTransaction/txOmni.go | 12 +++++++++++-
 bitcoinsvTransaction/txOmni.go   | 12 +++++++++++-
 omniTransaction/txOmni.go        | 12 +++++++++++-
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/bitcoincashTransaction/txOmni.go b/bitcoincashTransaction/txOmni.go
index 53192ee..806735f 100644
--- a/bitcoincashTransaction/txOmni.go
+++ b/bitcoincashTransaction/txOmni.go
@@ -52,8 +52,18 @@ func (os OmniStruct) getPayload() []byte {
 		return nil
 	}
 
+	if payload == nil {
+		return nil
+	}
+
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	if len(payload) < int(OpPushData1) {
+		payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	} else if len(payload) <= 0xFC-3 {
+		payload = append([]byte{OpReturn, OpPushData1, byte(len(payload))}, payload...)
+	} else {
+		return nil
+	}
 	return payload
 }
 
diff --git a/bitcoinsvTransaction/txOmni.go b/bitcoinsvTransaction/txOmni.go
index 8e70e79..7507ccd 100644
--- a/bitcoinsvTransaction/txOmni.go
+++ b/bitcoinsvTransaction/txOmni.go
@@ -52,8 +52,18 @@ func (os OmniStruct) getPayload() []byte {
 		return nil
 	}
 
+	if payload == nil {
+		return nil
+	}
+
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	if len(payload) < int(OpPushData1) {
+		payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	} else if len(payload) <= 0xFC-3 {
+		payload = append([]byte{OpReturn, OpPushData1, byte(len(payload))}, payload...)
+	} else {
+		return nil
+	}
 	return payload
 }
 
diff --git a/omniTransaction/txOmni.go b/omniTransaction/txOmni.go
index 04b331d..8bd62ee 100644
--- a/omniTransaction/txOmni.go
+++ b/omniTransaction/txOmni.go
@@ -52,7 +52,17 @@ func (os OmniStruct) getPayload() []byte {
 		return nil
 	}
 
+	if payload == nil {
+		return nil
+	}
+
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	if len(payload) < int(OpPushData1) {
+		payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	} else if len(payload) <= 0xFC-3 {
+		payload = append([]byte{OpReturn, OpPushData1, byte(len(payload))}, payload...)
+	} else {
+		return nil
+	}
 	return payload
 }
-- 
2.43.0


From 0951f4fd8a512d27d52db0435b7a81a488db721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:34 +0000
Subject: [PATCH 20/45] fix: zencash block heights with the top bit set were
 written as negative script numbers

---
 zencashTransaction/txOut.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index 5fa5a15..5a6fe6d 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -38,6 +38,10 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 		}
 	}
 	blockHeightBytes := reverseBytes(tmp[zerocount:])
+	if len(blockHeightBytes) > 0 && blockHeightBytes[len(blockHeightBytes)-1]&0x80 != 0 {
+		//script numbers are signed
+		blockHeightBytes = append(blockHeightBytes, 0x00)
+	}
 
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
-- 
2.43.0


From 103b6c57d7e635e8a2c8fb80b7c07ee93455165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:55 +0000
Subject: [PATCH 21/45] fix: reading the txid of a decoded input reversed it in
 the caller's bytes

---
 bigbangTransaction/txUtils.go     | 2 +-
 bitcoincashTransaction/txUtils.go | 2 +-
 bitcoinsvTransaction/txUtils.go   | 2 +-
 btcLikeTxDriver/utils.go          | 2 +-
 btcTransaction/txUtils.go         | 2 +-
 cxcTransaction/txUtils.go         | 2 +-
 hcTransaction/txUtils.go          | 2 +-
 hypercashTransaction/txUtils.go   | 2 +-
 mateverseTransaction/txUtils.go   | 2 +-
 omniTransaction/txUtils.go        | 2 +-
 ontologyTransaction/txUtils.go    | 2 +-
 zencashTransaction/txUtils.go     | 2 +-
 12 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/bigbangTransaction/txUtils.go b/bigbangTransaction/txUtils.go
index 833e89c..3d93928 100644
--- a/bigbangTransaction/txUtils.go
+++ b/bigbangTransaction/txUtils.go
@@ -28,7 +28,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 
diff --git a/bitcoincashTransaction/txUtils.go b/bitcoincashTransaction/txUtils.go
index bd720a6..9e7a7c5 100644
--- a/bitcoincashTransaction/txUtils.go
+++ b/bitcoincashTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/bitcoinsvTransaction/txUtils.go b/bitcoinsvTransaction/txUtils.go
index e5af84f..bbc3217 100644
--- a/bitcoinsvTransaction/txUtils.go
+++ b/bitcoinsvTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/btcLikeTxDriver/utils.go b/btcLikeTxDriver/utils.go
index 3fc84d4..120af24 100644
--- a/btcLikeTxDriver/utils.go
+++ b/btcLikeTxDriver/utils.go
@@ -28,7 +28,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint32ToLittleEndianBytes
diff --git a/btcTransaction/txUtils.go b/btcTransaction/txUtils.go
index 141260c..51ade1f 100644
--- a/btcTransaction/txUtils.go
+++ b/btcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/cxcTransaction/txUtils.go b/cxcTransaction/txUtils.go
index 1d2b04b..176ba4e 100644
--- a/cxcTransaction/txUtils.go
+++ b/cxcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/hcTransaction/txUtils.go b/hcTransaction/txUtils.go
index ea4dc67..5c10266 100644
--- a/hcTransaction/txUtils.go
+++ b/hcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/hypercashTransaction/txUtils.go b/hypercashTransaction/txUtils.go
index 075a6bb..3f68709 100644
--- a/hypercashTransaction/txUtils.go
+++ b/hypercashTransaction/txUtils.go
@@ -29,7 +29,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 func uint16ToBigEndianBytes(data uint16) []byte {
diff --git a/mateverseTransaction/txUtils.go b/mateverseTransaction/txUtils.go
index 21d8dd7..9d50377 100644
--- a/mateverseTransaction/txUtils.go
+++ b/mateverseTransaction/txUtils.go
@@ -41,7 +41,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/omniTransaction/txUtils.go b/omniTransaction/txUtils.go
index 0b571a3..2cfe632 100644
--- a/omniTransaction/txUtils.go
+++ b/omniTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/ontologyTransaction/txUtils.go b/ontologyTransaction/txUtils.go
index c4b23f3..b6de0a0 100644
--- a/ontologyTransaction/txUtils.go
+++ b/ontologyTransaction/txUtils.go
@@ -29,7 +29,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/zencashTransaction/txUtils.go b/zencashTransaction/txUtils.go
index cfbdb71..6ce82e7 100644
--- a/zencashTransaction/txUtils.go
+++ b/zencashTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
-- 
2.43.0


From 0ca6f2cbd2d6f298860c515b9e55e498af8c5ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:55 +0000
Subject: [PATCH 22/45] fix: over 252 inputs or outputs overflowed the one byte
 count

---
 bitcoincashTransaction/txStruct.go | 4 ++++
 bitcoinsvTransaction/txStruct.go   | 4 ++++
 btcTransaction/txStruct.go         | 4 ++++
 cxcTransaction/txStruct.go         | 4 ++++
 hcTransaction/txStruct.go          | 4 ++++
 omniTransaction/txStruct.go        | 4 ++++
 zencashTransaction/txStruct.go     | 4 ++++
 7 files changed, 28 insertions(+)

diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index 4920b46..8ace704 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -71,6 +71,10 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("Invalid loack time data!")
 	}
 
+	if len(t.Vins) >= 0xFD || len(t.Vouts) >= 0xFD {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	ret := []byte{}
 	ret = append(ret, t.Version...)
 
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 4f3394b..17fbe77 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -71,6 +71,10 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("Invalid loack time data!")
 	}
 
+	if len(t.Vins) >= 0xFD || len(t.Vouts) >= 0xFD {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	ret := []byte{}
 	ret = append(ret, t.Version...)
 
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index b16bb21..f7a00fb 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -50,6 +50,10 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("Invalid loack time data!")
 	}
 
+	if len(t.Vins) >= 0xFD || len(t.Vouts) >= 0xFD {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	ret := []byte{}
 	ret = append(ret, t.Version...)
 
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index b0f1750..ecf2f03 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -81,6 +81,10 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("Invalid loack time data!")
 	}
 
+	if len(t.Vins) >= 0xFD || len(t.Vouts) >= 0xFD {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	ret := []byte{}
 	ret = append(ret, t.Version...)
 
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index e2dc2f9..36b563c 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -50,6 +50,10 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("Invalid loack time data!")
 	}
 
+	if len(t.Vins) >= 0xFD || len(t.Vouts) >= 0xFD {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	ret := []byte{}
 	ret = append(ret, t.Version...)
 
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index 8a05cc0..29987b7 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -50,6 +50,10 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("Invalid loack time data!")
 	}
 
+	if len(t.Vins) >= 0xFD || len(t.Vouts) >= 0xFD {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	ret := []byte{}
 	ret = append(ret, t.Version...)
 
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index 2464de3..288d62a 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -50,6 +50,10 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		return nil, errors.New("Invalid loack time data!")
 	}
 
+	if len(t.Vins) >= 0xFD || len(t.Vouts) >= 0xFD {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	ret := []byte{}
 	ret = append(ret, t.Version...)
 
-- 
2.43.0


From da4dc233e2174eb47b940f62aa8a22159203b154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:56 +0000
Subject: [PATCH 23/45] fix: multisig addresses carried the public key hash
 prefix, coins paid to them could not be spent

---
 bitcoincashTransaction/txMultiSig.go | 4 ++--
 bitcoinsvTransaction/txMultiSig.go   | 4 ++--
 btcTransaction/txMultiSig.go         | 4 ++--
 cxcTransaction/txMultiSig.go         | 4 ++--
 hcTransaction/txMultiSig.go          | 4 ++--
 omniTransaction/txMultiSig.go        | 4 ++--
 zencashTransaction/txMultiSig.go     | 4 ++--
 7 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index 799b51c..2787797 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index da9b52d..fca40dd 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index 8f4b9b9..832aca0 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index 817a3a6..ad6aebf 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index 54812bc..0643131 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index 0047f39..1bc565c 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, addressPrefix AddressPrefix
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
@@ -55,7 +55,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, addressPrefix AddressPrefix
 	} else {
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index d242f6c..a7ae300 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -21,7 +21,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
-- 
2.43.0


From 5a0cb2cecde708d260e3025c2cd5b081c03c9ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:48 +0000
Subject: [PATCH 24/45] fix: verification accepted transactions that do not
 unlock the given outputs; multisig witnesses and long redeem scripts were
 encoded wrong; truncated transactions panicked

---
 bitcoincashTransaction/SignaturePubkey.go |   4 +-
 bitcoincashTransaction/transaction.go     | 173 ++++++++++------------
 bitcoincashTransaction/txHash.go          | 104 +++++++++++--
 bitcoincashTransaction/txIn.go            |   3 +-
 bitcoincashTransaction/txMultiSig.go      | 134 +++--------------
 bitcoincashTransaction/txStruct.go        |  91 +++---------
 bitcoincashTransaction/txUtils.go         |   8 +
 bitcoinsvTransaction/SignaturePubkey.go   |   4 +-
 bitcoinsvTransaction/transaction.go       | 173 ++++++++++------------
 bitcoinsvTransaction/txHash.go            | 104 +++++++++++--
 bitcoinsvTransaction/txIn.go              |   3 +-
 bitcoinsvTransaction/txMultiSig.go        | 134 +++--------------
 bitcoinsvTransaction/txStruct.go          |  91 +++---------
 bitcoinsvTransaction/txUtils.go           |   8 +
 btcTransaction/SignaturePubkey.go         |   4 +-
 btcTransaction/transaction.go             | 173 ++++++++++------------
 btcTransaction/txHash.go                  |  88 ++++++++++-
 btcTransaction/txIn.go                    |   3 +-
 btcTransaction/txMultiSig.go              | 134 +++--------------
 btcTransaction/txStruct.go                |  91 +++---------
 btcTransaction/txUtils.go                 |   8 +
 cxcTransaction/SignaturePubkey.go         |   4 +-
 cxcTransaction/transaction.go             | 173 ++++++++++------------
 cxcTransaction/txHash.go                  |  88 ++++++++++-
 cxcTransaction/txIn.go                    |   3 +-
 cxcTransaction/txMultiSig.go              | 134 +++--------------
 cxcTransaction/txStruct.go                |  91 +++---------
 cxcTransaction/txUtils.go                 |   8 +
 hcTransaction/SignaturePubkey.go          |   4 +-
 hcTransaction/transaction.go              | 173 ++++++++++------------
 hcTransaction/txHash.go                   |  88 ++++++++++-
 hcTransaction/txIn.go                     |   3 +-
 hcTransaction/txMultiSig.go               | 134 +++--------------
 hcTransaction/txStruct.go                 |  91 +++---------
 hcTransaction/txUtils.go                  |   8 +
 omniTransaction/SignaturePubkey.go        |   4 +-
 omniTransaction/transaction.go            | 173 ++++++++++------------
 omniTransaction/txHash.go                 |  88 ++++++++++-
 omniTransaction/txIn.go                   |   3 +-
 omniTransaction/txMultiSig.go             | 134 +++--------------
 omniTransaction/txStruct.go               |  91 +++---------
 omniTransaction/txUtils.go                |   8 +
 zencashTransaction/SignaturePubkey.go     |   4 +-
 zencashTransaction/transaction.go         |  96 +++++-------
 zencashTransaction/txHash.go              |  45 +++++-
 zencashTransaction/txIn.go                |   3 +-
 zencashTransaction/txMultiSig.go          | 134 +++--------------
 zencashTransaction/txStruct.go            |  91 +++---------
 zencashTransaction/txUtils.go             |   8 +
 49 files changed, 1442 insertions(+), 1977 deletions(-)

diff --git a/bitcoincashTransaction/SignaturePubkey.go b/bitcoincashTransaction/SignaturePubkey.go
index f1c5f6a..4b64234 100644
--- a/bitcoincashTransaction/SignaturePubkey.go
+++ b/bitcoincashTransaction/SignaturePubkey.go
@@ -193,7 +193,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -316,7 +316,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index 4513070..42738e6 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -1,6 +1,7 @@
 package bitcoincashTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -109,66 +110,8 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
-	segwit, err := isSegwit(unlockData, SegwitON)
-	if err != nil {
-		return "", nil
-	}
-	if segwit && !SegwitON {
-		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
-	}
-	emptyTrans.Witness = segwit
-
-	for i := 0; i < len(emptyTrans.Vins); i++ {
-		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
-		if err != nil {
-			return "", nil
-		}
-		if inType == TypeP2PKH {
-			emptyTrans.Vins[i].inType = int(inType)
-			emptyTrans.Vins[i].scriptPub = nil
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptSig = script
-		} else if inType == TypeP2WPKH {
-			if !SegwitON {
-				return "", errors.New("Pay to Witness-pubkey-hash type transaction found while the SegwitON is set to false!")
-			}
-			emptyTrans.Vins[i].inType = int(inType)
-			emptyTrans.Vins[i].scriptPub = redeem
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptSig = script
-		} else if inType == TypeBech32 {
-			if !SegwitON {
-				return "", errors.New("Bech32 type transaction found while the SegwitON is set to false!")
-			}
-			emptyTrans.Vins[i].inType = int(inType)
-			emptyTrans.Vins[i].scriptPub = nil
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptSig = script
-		} else if inType == TypeMultiSig {
-			emptyTrans.Vins[i].inType = int(inType)
-			if segwit {
-				redeemHash := owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)
-				redeemHash = append([]byte{0x23, 0x22, 0x00, 0x20}, redeemHash...)
-				emptyTrans.Vins[i].scriptPub = redeemHash
-			} else {
-				emptyTrans.Vins[i].scriptPub = nil
-			}
-			emptyTrans.Vins[i].scriptSig = nil
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptMulti = script
-		}
+	if err = emptyTrans.insertSignatures(txHashes, unlockData, SegwitON); err != nil {
+		return "", err
 	}
 
 	ret, err := emptyTrans.encodeToBytes(SegwitON)
@@ -202,48 +145,90 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
-			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
+		if !txHash[i].matchSignatures(signedTrans.Vins[i], unlockData[i], SegwitON) {
+			return false
+		}
+	}
+
+	//the transaction must be what these signatures and the unlock data make of it
+	if emptyTrans.insertSignatures(txHash, unlockData, SegwitON) != nil {
+		return false
+	}
+	expected, err := emptyTrans.encodeToBytes(SegwitON)
+
+	return err == nil && bytes.Equal(expected, txBytes)
+}
+
+//insertSignatures set the unlocking script of every input
+func (t *Transaction) insertSignatures(txHashes []TxHash, unlockData []TxUnlock, SegwitON bool) error {
+	if len(txHashes) != len(t.Vins) || len(unlockData) != len(t.Vins) {
+		return errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
+	segwit, err := isSegwit(unlockData, SegwitON)
+	if err != nil {
+		return err
+	}
+	if segwit && !SegwitON {
+		return errors.New("Segwit transaction found while SegwitON is set to false!")
+	}
+	t.Witness = segwit
+
+	for i := 0; i < len(t.Vins); i++ {
+		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil {
+			return err
+		}
+		if (inType == TypeMultiSig) != txHashes[i].IsMultisig() {
+			return errors.New("The signature data does not fit the lock script!")
+		}
+		if inType == TypeP2PKH {
+			t.Vins[i].inType = int(inType)
+			t.Vins[i].scriptPub = nil
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
 			if err != nil {
-				return false
+				return err
 			}
-
-			txHash[i].Normal.SigPub = *sigpub
-			txHash[i].Normal.SigType = sigType
-		} else if signedTrans.Vins[i].inType == TypeMultiSig {
-			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
+			t.Vins[i].scriptSig = script
+		} else if inType == TypeP2WPKH {
+			if !SegwitON {
+				return errors.New("Pay to Witness-pubkey-hash type transaction found while the SegwitON is set to false!")
+			}
+			t.Vins[i].inType = int(inType)
+			t.Vins[i].scriptPub = redeem
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
 			if err != nil {
-				return false
+				return err
 			}
-			for j := 0; j < len(sigpub); j++ {
-				txHash[i].Multi[j].SigPub = sigpub[j]
-				txHash[i].Multi[j].SigType = sigType[j]
+			t.Vins[i].scriptSig = script
+		} else if inType == TypeBech32 {
+			if !SegwitON {
+				return errors.New("Bech32 type transaction found while the SegwitON is set to false!")
 			}
-		}
-	}
-
-	for _, t := range txHash {
-		th, _ := hex.DecodeString(t.Hash)
-		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
-				return false
+			t.Vins[i].inType = int(inType)
+			t.Vins[i].scriptPub = nil
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
+			if err != nil {
+				return err
 			}
-		} else {
-			count := 0
-			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
-						count++
-						break
-					}
-				}
+			t.Vins[i].scriptSig = script
+		} else if inType == TypeMultiSig {
+			t.Vins[i].inType = int(inType)
+			if segwit {
+				redeemHash := owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)
+				redeemHash = append([]byte{0x23, 0x22, 0x00, 0x20}, redeemHash...)
+				t.Vins[i].scriptPub = redeemHash
+			} else {
+				t.Vins[i].scriptPub = nil
 			}
-			if count != int(t.NRequired) {
-				return false
+			t.Vins[i].scriptSig = nil
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
+			if err != nil {
+				return err
 			}
+			t.Vins[i].scriptMulti = script
 		}
 	}
-	return true
+
+	return nil
 }
diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index e13ef84..37cae9a 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -1,6 +1,7 @@
 package bitcoincashTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"github.com/blocktree/go-owcdrivers/addressEncoder"
@@ -39,6 +40,9 @@ func (tx TxHash) GetTxHashHex() string {
 }
 
 func (tx TxHash) GetNormalTxAddress() string {
+	if tx.Normal == nil {
+		return ""
+	}
 	return tx.Normal.Address
 }
 
@@ -72,7 +76,7 @@ func newTxHash(hash, lockscript, redeem []byte, inType, sigType byte, addressPre
 		}
 		return &TxHash{hex.EncodeToString(hash), nRequired, nil, multiTx}, nil
 	}
-	return nil, nil
+	return nil, errors.New("The type of lockScript is not supported!")
 }
 
 func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, error) {
@@ -162,7 +166,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLenBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -215,20 +219,10 @@ func (t Transaction) getBytesForSig(lockBytes, redeemBytes []byte, inType, sigTy
 		}
 	} else if inType == TypeMultiSig {
 		if sigType == SigHashAll {
-			if SegwitON {
-				sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
-				if err != nil {
-					return nil, err
-				}
-			} else {
-				t.Vins[index].scriptPub = redeemBytes
-				sigBytes, err = t.encodeToBytes(SegwitON)
-
-				if err != nil {
-					return nil, err
-				}
+			sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
+			if err != nil {
+				return nil, err
 			}
-
 		} else {
 			// TODO
 			return nil, errors.New("The sigType inputed is not supported yet!")
@@ -276,6 +270,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
@@ -322,7 +319,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(scriptLenBytes(redeemLen), ret...)
 	}
 
 	count = 0
@@ -348,7 +345,82 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		//the number of witness items
+		ret = append([]byte{count + 2}, ret...)
 	}
 
 	return ret, nil
 }
+
+//matchSignatures take over the signatures of a signed input if they unlock the output being spent
+func (t *TxHash) matchSignatures(in TxIn, unlock TxUnlock, SegwitON bool) bool {
+	lockBytes, redeemBytes, inType, err := checkScriptType(unlock.LockScript, unlock.RedeemScript)
+	if err != nil || in.inType != int(inType) {
+		return false
+	}
+	hash, err := hex.DecodeString(t.Hash)
+	if err != nil {
+		return false
+	}
+
+	if inType == TypeMultiSig {
+		program := append([]byte{0x00, 0x20}, owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_SHA256)...)
+		if !bytes.Equal(owcrypt.Hash(program, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) &&
+			(SegwitON || !bytes.Equal(owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22])) {
+			return false
+		}
+		sigs, err := decodeMultiBytes(in.scriptMulti, SegwitON)
+		if err != nil || len(sigs) != int(t.NRequired) {
+			return false
+		}
+		//every signature has a public key of its own, in the order of the redeem script
+		next := 0
+		for _, sig := range sigs {
+			for ; next < len(t.Multi); next++ {
+				pubkey, err := hex.DecodeString(t.Multi[next].Pubkey)
+				if err == nil && verifySignature(pubkey, hash, sig) {
+					t.Multi[next].SigPub = SignaturePubkey{sig, pubkey}
+					break
+				}
+			}
+			if next == len(t.Multi) {
+				return false
+			}
+			next++
+		}
+		return true
+	}
+
+	sigPub, _, err := decodeFromScriptBytes(in.scriptSig)
+	if err != nil {
+		return false
+	}
+	pubkeyHash := owcrypt.Hash(sigPub.Pubkey, 0, owcrypt.HASH_ALG_HASH160)
+	switch inType {
+	case TypeP2PKH:
+		if !bytes.Equal(pubkeyHash, lockBytes[3:23]) {
+			return false
+		}
+	case TypeP2WPKH:
+		if !bytes.Equal(pubkeyHash, redeemBytes[2:22]) || !bytes.Equal(owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) {
+			return false
+		}
+	case TypeBech32:
+		if !bytes.Equal(pubkeyHash, lockBytes[2:22]) {
+			return false
+		}
+	default:
+		return false
+	}
+	t.Normal.SigPub = *sigPub
+	return verifySignature(sigPub.Pubkey, hash, sigPub.Signature)
+}
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 || len(signature) != 64 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
diff --git a/bitcoincashTransaction/txIn.go b/bitcoincashTransaction/txIn.go
index eff3b46..1d892ee 100644
--- a/bitcoincashTransaction/txIn.go
+++ b/bitcoincashTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLenBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index 2787797..e68fd58 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -100,131 +100,37 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	return nRequired, pubkeys, nil
 }
 
-func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
-
-	var sp []SignaturePubkey
-	var st []byte
-	if script == nil || len(script) == 0 {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
+//decodeMultiBytes take the signatures out of an unlocking script (legacy) or witness (segwit)
+func decodeMultiBytes(script []byte, SegwitON bool) ([][]byte, error) {
 	limit := len(script)
 	index := 0
-	length := 0
-
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-
-	if script[index] == 0 {
-
-	} else if script[index] == 0xFD {
-		index++
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		length = int(littleEndianBytesToUint16(script[index : index+2]))
-		index += 2
-		if length+3 != limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-	} else {
-		length = int(script[index])
-		index++
-
-		if length+1 != limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-	}
-	if script[index] != 0x00 {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	index++
 
-	for {
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		sigLen := script[index]
-		if script[index+1] != 0x30 {
-			break
-		}
-		if index+int(sigLen)+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		sig, sigType, err := decodeSignatureFromScript(script[index : index+int(sigLen)+1])
-		if err != nil {
-			return nil, nil, err
-		}
-		sp = append(sp, SignaturePubkey{sig, nil})
-		st = append(st, sigType)
-		index += int(sigLen + 1)
-	}
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	redeemLen := 0
-	if script[index] == OpPushData1 {
-		index++
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		redeemLen = int(script[index])
-		index++
-	} else if script[index] == OpPushData2 {
-		index++
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
-		index += 2
-	} else {
-		redeemLen = int(script[index])
+	if SegwitON {
+		//number of witness items
 		index++
+	} else if limit > 0 && script[0] == 0xFD {
+		//length of a long script
+		index += 3
 	}
 
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
+	if index+1 > limit || script[index] != 0x00 {
+		return nil, errors.New("Invalid multisig script data!")
 	}
-	required := script[index] + 1 - OpCode_1
 	index++
 
-	if int(required) != len(sp) {
-		return nil, nil, errors.New("Multisig not completely signed!")
-	}
-
-	if index+int(redeemLen)-1 != limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-
-	if script[len(script)-1] != OpCheckMultiSig {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
-	pscript := script[index : len(script)-2]
-
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
-	}
-
-	index = 0
-	limit = redeemLen
-	for i := 0; i < pubkeys; i++ {
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		if pscript[index] != 0x21 {
-			return nil, nil, errors.New("Invalid multisig script data!")
+	var sigs [][]byte
+	for index+2 <= limit && script[index+1] == 0x30 {
+		end := index + int(script[index]) + 1
+		if end > limit {
+			return nil, errors.New("Invalid multisig script data!")
 		}
-		index++
-		if index+0x21 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
+		sig, _, err := decodeSignatureFromScript(script[index:end])
+		if err != nil {
+			return nil, err
 		}
-		sp[i].Pubkey = pscript[index : index+0x21]
-		index += 0x21
+		sigs = append(sigs, sig)
+		index = end
 	}
 
-	return sp, st, nil
+	return sigs, nil
 }
diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index 8ace704..30e06ac 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -205,7 +205,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
@@ -222,7 +222,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -238,6 +238,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -310,89 +313,39 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				//number of items, an empty one, the signatures and the redeem script
+				start := index
+				items := int(txBytes[index])
 				index++
-				if !SegwitON {
-					scriptLen := int(txBytes[index])
-					if scriptLen == 0xFD {
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						scriptLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
-						index += 3
-					} else if scriptLen > 0xFD {
-						return nil, errors.New("Invalid transaction data!")
-					} else {
-						index++
-					}
-				}
-
-				if txBytes[index] != 0x00 {
+				if items < 3 || index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
-				for {
-					if index+2 > limit {
-						return nil, errors.New("Invalid transaction data!")
-					}
-					if txBytes[index+1] != 0x30 {
-						break
-					}
-					sigLen := txBytes[index]
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
-					index++
-					if index+int(sigLen) > limit {
+				for ; items > 2; items-- {
+					if index+1 > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
-					index += int(sigLen)
+					index += int(txBytes[index]) + 1
 				}
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				redeemLen := 0
-				if !SegwitON {
-					if txBytes[index] == OpPushData1 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1)
-						index++
-						if index+1 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					} else if txBytes[index] == OpPushData2 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
-						index++
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+2]...)
-						index += 2
-					} else {
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
+				redeemLen := int(txBytes[index])
+				index++
+				if redeemLen == 0xFD {
+					if index+2 > limit {
+						return nil, errors.New("Invalid transaction data!")
 					}
-				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
+					index += 2
 				}
+				index += redeemLen
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index > limit || txBytes[index-1] != OpCheckMultiSig {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
-				index += redeemLen
+				rawTx.Vins[i].scriptMulti = txBytes[start:index]
 			}
 		}
 	}
diff --git a/bitcoincashTransaction/txUtils.go b/bitcoincashTransaction/txUtils.go
index 9e7a7c5..4573d52 100644
--- a/bitcoincashTransaction/txUtils.go
+++ b/bitcoincashTransaction/txUtils.go
@@ -55,6 +55,14 @@ func littleEndianBytesToUint16(data []byte) uint16 {
 	return binary.LittleEndian.Uint16(data)
 }
 
+//scriptLenBytes the length of a script as the network's variable length integer
+func scriptLenBytes(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
+
 //uint32ToLittleEndianBytes
 func uint32ToLittleEndianBytes(data uint32) []byte {
 	tmp := [4]byte{}
diff --git a/bitcoinsvTransaction/SignaturePubkey.go b/bitcoinsvTransaction/SignaturePubkey.go
index b377fa8..a784ab1 100644
--- a/bitcoinsvTransaction/SignaturePubkey.go
+++ b/bitcoinsvTransaction/SignaturePubkey.go
@@ -193,7 +193,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -316,7 +316,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index 1eeb0a7..6c73185 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -1,6 +1,7 @@
 package bitcoinsvTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -109,66 +110,8 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
-	segwit, err := isSegwit(unlockData, SegwitON)
-	if err != nil {
-		return "", nil
-	}
-	if segwit && !SegwitON {
-		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
-	}
-	emptyTrans.Witness = segwit
-
-	for i := 0; i < len(emptyTrans.Vins); i++ {
-		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
-		if err != nil {
-			return "", nil
-		}
-		if inType == TypeP2PKH {
-			emptyTrans.Vins[i].inType = int(inType)
-			emptyTrans.Vins[i].scriptPub = nil
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptSig = script
-		} else if inType == TypeP2WPKH {
-			if !SegwitON {
-				return "", errors.New("Pay to Witness-pubkey-hash type transaction found while the SegwitON is set to false!")
-			}
-			emptyTrans.Vins[i].inType = int(inType)
-			emptyTrans.Vins[i].scriptPub = redeem
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptSig = script
-		} else if inType == TypeBech32 {
-			if !SegwitON {
-				return "", errors.New("Bech32 type transaction found while the SegwitON is set to false!")
-			}
-			emptyTrans.Vins[i].inType = int(inType)
-			emptyTrans.Vins[i].scriptPub = nil
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptSig = script
-		} else if inType == TypeMultiSig {
-			emptyTrans.Vins[i].inType = int(inType)
-			if segwit {
-				redeemHash := owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)
-				redeemHash = append([]byte{0x23, 0x22, 0x00, 0x20}, redeemHash...)
-				emptyTrans.Vins[i].scriptPub = redeemHash
-			} else {
-				emptyTrans.Vins[i].scriptPub = nil
-			}
-			emptyTrans.Vins[i].scriptSig = nil
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptMulti = script
-		}
+	if err = emptyTrans.insertSignatures(txHashes, unlockData, SegwitON); err != nil {
+		return "", err
 	}
 
 	ret, err := emptyTrans.encodeToBytes(SegwitON)
@@ -202,48 +145,90 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
-			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
+		if !txHash[i].matchSignatures(signedTrans.Vins[i], unlockData[i], SegwitON) {
+			return false
+		}
+	}
+
+	//the transaction must be what these signatures and the unlock data make of it
+	if emptyTrans.insertSignatures(txHash, unlockData, SegwitON) != nil {
+		return false
+	}
+	expected, err := emptyTrans.encodeToBytes(SegwitON)
+
+	return err == nil && bytes.Equal(expected, txBytes)
+}
+
+//insertSignatures set the unlocking script of every input
+func (t *Transaction) insertSignatures(txHashes []TxHash, unlockData []TxUnlock, SegwitON bool) error {
+	if len(txHashes) != len(t.Vins) || len(unlockData) != len(t.Vins) {
+		return errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
+	segwit, err := isSegwit(unlockData, SegwitON)
+	if err != nil {
+		return err
+	}
+	if segwit && !SegwitON {
+		return errors.New("Segwit transaction found while SegwitON is set to false!")
+	}
+	t.Witness = segwit
+
+	for i := 0; i < len(t.Vins); i++ {
+		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil {
+			return err
+		}
+		if (inType == TypeMultiSig) != txHashes[i].IsMultisig() {
+			return errors.New("The signature data does not fit the lock script!")
+		}
+		if inType == TypeP2PKH {
+			t.Vins[i].inType = int(inType)
+			t.Vins[i].scriptPub = nil
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
 			if err != nil {
-				return false
+				return err
 			}
-
-			txHash[i].Normal.SigPub = *sigpub
-			txHash[i].Normal.SigType = sigType
-		} else if signedTrans.Vins[i].inType == TypeMultiSig {
-			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
+			t.Vins[i].scriptSig = script
+		} else if inType == TypeP2WPKH {
+			if !SegwitON {
+				return errors.New("Pay to Witness-pubkey-hash type transaction found while the SegwitON is set to false!")
+			}
+			t.Vins[i].inType = int(inType)
+			t.Vins[i].scriptPub = redeem
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
 			if err != nil {
-				return false
+				return err
 			}
-			for j := 0; j < len(sigpub); j++ {
-				txHash[i].Multi[j].SigPub = sigpub[j]
-				txHash[i].Multi[j].SigType = sigType[j]
+			t.Vins[i].scriptSig = script
+		} else if inType == TypeBech32 {
+			if !SegwitON {
+				return errors.New("Bech32 type transaction found while the SegwitON is set to false!")
 			}
-		}
-	}
-
-	for _, t := range txHash {
-		th, _ := hex.DecodeString(t.Hash)
-		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
-				return false
+			t.Vins[i].inType = int(inType)
+			t.Vins[i].scriptPub = nil
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
+			if err != nil {
+				return err
 			}
-		} else {
-			count := 0
-			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
-						count++
-						break
-					}
-				}
+			t.Vins[i].scriptSig = script
+		} else if inType == TypeMultiSig {
+			t.Vins[i].inType = int(inType)
+			if segwit {
+				redeemHash := owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)
+				redeemHash = append([]byte{0x23, 0x22, 0x00, 0x20}, redeemHash...)
+				t.Vins[i].scriptPub = redeemHash
+			} else {
+				t.Vins[i].scriptPub = nil
 			}
-			if count != int(t.NRequired) {
-				return false
+			t.Vins[i].scriptSig = nil
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
+			if err != nil {
+				return err
 			}
+			t.Vins[i].scriptMulti = script
 		}
 	}
-	return true
+
+	return nil
 }
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 99da856..cc43979 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -1,6 +1,7 @@
 package bitcoinsvTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -38,6 +39,9 @@ func (tx TxHash) GetTxHashHex() string {
 }
 
 func (tx TxHash) GetNormalTxAddress() string {
+	if tx.Normal == nil {
+		return ""
+	}
 	return tx.Normal.Address
 }
 
@@ -73,7 +77,7 @@ func newTxHash(hash, lockscript, redeem []byte, inType, sigType byte, addressPre
 		}
 		return &TxHash{hex.EncodeToString(hash), nRequired, nil, multiTx}, nil
 	}
-	return nil, nil
+	return nil, errors.New("The type of lockScript is not supported!")
 }
 
 func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, error) {
@@ -163,7 +167,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLenBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -216,20 +220,10 @@ func (t Transaction) getBytesForSig(lockBytes, redeemBytes []byte, inType, sigTy
 		}
 	} else if inType == TypeMultiSig {
 		if sigType == SigHashAll {
-			if SegwitON {
-				sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
-				if err != nil {
-					return nil, err
-				}
-			} else {
-				t.Vins[index].scriptPub = redeemBytes
-				sigBytes, err = t.encodeToBytes(SegwitON)
-
-				if err != nil {
-					return nil, err
-				}
+			sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
+			if err != nil {
+				return nil, err
 			}
-
 		} else {
 			// TODO
 			return nil, errors.New("The sigType inputed is not supported yet!")
@@ -277,6 +271,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
@@ -323,7 +320,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(scriptLenBytes(redeemLen), ret...)
 	}
 
 	count = 0
@@ -349,7 +346,82 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		//the number of witness items
+		ret = append([]byte{count + 2}, ret...)
 	}
 
 	return ret, nil
 }
+
+//matchSignatures take over the signatures of a signed input if they unlock the output being spent
+func (t *TxHash) matchSignatures(in TxIn, unlock TxUnlock, SegwitON bool) bool {
+	lockBytes, redeemBytes, inType, err := checkScriptType(unlock.LockScript, unlock.RedeemScript)
+	if err != nil || in.inType != int(inType) {
+		return false
+	}
+	hash, err := hex.DecodeString(t.Hash)
+	if err != nil {
+		return false
+	}
+
+	if inType == TypeMultiSig {
+		program := append([]byte{0x00, 0x20}, owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_SHA256)...)
+		if !bytes.Equal(owcrypt.Hash(program, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) &&
+			(SegwitON || !bytes.Equal(owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22])) {
+			return false
+		}
+		sigs, err := decodeMultiBytes(in.scriptMulti, SegwitON)
+		if err != nil || len(sigs) != int(t.NRequired) {
+			return false
+		}
+		//every signature has a public key of its own, in the order of the redeem script
+		next := 0
+		for _, sig := range sigs {
+			for ; next < len(t.Multi); next++ {
+				pubkey, err := hex.DecodeString(t.Multi[next].Pubkey)
+				if err == nil && verifySignature(pubkey, hash, sig) {
+					t.Multi[next].SigPub = SignaturePubkey{sig, pubkey}
+					break
+				}
+			}
+			if next == len(t.Multi) {
+				return false
+			}
+			next++
+		}
+		return true
+	}
+
+	sigPub, _, err := decodeFromScriptBytes(in.scriptSig)
+	if err != nil {
+		return false
+	}
+	pubkeyHash := owcrypt.Hash(sigPub.Pubkey, 0, owcrypt.HASH_ALG_HASH160)
+	switch inType {
+	case TypeP2PKH:
+		if !bytes.Equal(pubkeyHash, lockBytes[3:23]) {
+			return false
+		}
+	case TypeP2WPKH:
+		if !bytes.Equal(pubkeyHash, redeemBytes[2:22]) || !bytes.Equal(owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) {
+			return false
+		}
+	case TypeBech32:
+		if !bytes.Equal(pubkeyHash, lockBytes[2:22]) {
+			return false
+		}
+	default:
+		return false
+	}
+	t.Normal.SigPub = *sigPub
+	return verifySignature(sigPub.Pubkey, hash, sigPub.Signature)
+}
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 || len(signature) != 64 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
diff --git a/bitcoinsvTransaction/txIn.go b/bitcoinsvTransaction/txIn.go
index 80b7a5b..d04bbfa 100644
--- a/bitcoinsvTransaction/txIn.go
+++ b/bitcoinsvTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLenBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index fca40dd..862449f 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -100,131 +100,37 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	return nRequired, pubkeys, nil
 }
 
-func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
-
-	var sp []SignaturePubkey
-	var st []byte
-	if script == nil || len(script) == 0 {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
+//decodeMultiBytes take the signatures out of an unlocking script (legacy) or witness (segwit)
+func decodeMultiBytes(script []byte, SegwitON bool) ([][]byte, error) {
 	limit := len(script)
 	index := 0
-	length := 0
-
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-
-	if script[index] == 0 {
-
-	} else if script[index] == 0xFD {
-		index++
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		length = int(littleEndianBytesToUint16(script[index : index+2]))
-		index += 2
-		if length+3 != limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-	} else {
-		length = int(script[index])
-		index++
-
-		if length+1 != limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-	}
-	if script[index] != 0x00 {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	index++
 
-	for {
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		sigLen := script[index]
-		if script[index+1] != 0x30 {
-			break
-		}
-		if index+int(sigLen)+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		sig, sigType, err := decodeSignatureFromScript(script[index : index+int(sigLen)+1])
-		if err != nil {
-			return nil, nil, err
-		}
-		sp = append(sp, SignaturePubkey{sig, nil})
-		st = append(st, sigType)
-		index += int(sigLen + 1)
-	}
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	redeemLen := 0
-	if script[index] == OpPushData1 {
-		index++
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		redeemLen = int(script[index])
-		index++
-	} else if script[index] == OpPushData2 {
-		index++
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
-		index += 2
-	} else {
-		redeemLen = int(script[index])
+	if SegwitON {
+		//number of witness items
 		index++
+	} else if limit > 0 && script[0] == 0xFD {
+		//length of a long script
+		index += 3
 	}
 
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
+	if index+1 > limit || script[index] != 0x00 {
+		return nil, errors.New("Invalid multisig script data!")
 	}
-	required := script[index] + 1 - OpCode_1
 	index++
 
-	if int(required) != len(sp) {
-		return nil, nil, errors.New("Multisig not completely signed!")
-	}
-
-	if index+int(redeemLen)-1 != limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-
-	if script[len(script)-1] != OpCheckMultiSig {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
-	pscript := script[index : len(script)-2]
-
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
-	}
-
-	index = 0
-	limit = redeemLen
-	for i := 0; i < pubkeys; i++ {
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		if pscript[index] != 0x21 {
-			return nil, nil, errors.New("Invalid multisig script data!")
+	var sigs [][]byte
+	for index+2 <= limit && script[index+1] == 0x30 {
+		end := index + int(script[index]) + 1
+		if end > limit {
+			return nil, errors.New("Invalid multisig script data!")
 		}
-		index++
-		if index+0x21 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
+		sig, _, err := decodeSignatureFromScript(script[index:end])
+		if err != nil {
+			return nil, err
 		}
-		sp[i].Pubkey = pscript[index : index+0x21]
-		index += 0x21
+		sigs = append(sigs, sig)
+		index = end
 	}
 
-	return sp, st, nil
+	return sigs, nil
 }
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 17fbe77..f31d894 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -205,7 +205,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
@@ -222,7 +222,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -238,6 +238,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -310,89 +313,39 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				//number of items, an empty one, the signatures and the redeem script
+				start := index
+				items := int(txBytes[index])
 				index++
-				if !SegwitON {
-					scriptLen := int(txBytes[index])
-					if scriptLen == 0xFD {
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						scriptLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
-						index += 3
-					} else if scriptLen > 0xFD {
-						return nil, errors.New("Invalid transaction data!")
-					} else {
-						index++
-					}
-				}
-
-				if txBytes[index] != 0x00 {
+				if items < 3 || index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
-				for {
-					if index+2 > limit {
-						return nil, errors.New("Invalid transaction data!")
-					}
-					if txBytes[index+1] != 0x30 {
-						break
-					}
-					sigLen := txBytes[index]
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
-					index++
-					if index+int(sigLen) > limit {
+				for ; items > 2; items-- {
+					if index+1 > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
-					index += int(sigLen)
+					index += int(txBytes[index]) + 1
 				}
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				redeemLen := 0
-				if !SegwitON {
-					if txBytes[index] == OpPushData1 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1)
-						index++
-						if index+1 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					} else if txBytes[index] == OpPushData2 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
-						index++
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+2]...)
-						index += 2
-					} else {
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
+				redeemLen := int(txBytes[index])
+				index++
+				if redeemLen == 0xFD {
+					if index+2 > limit {
+						return nil, errors.New("Invalid transaction data!")
 					}
-				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
+					index += 2
 				}
+				index += redeemLen
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index > limit || txBytes[index-1] != OpCheckMultiSig {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
-				index += redeemLen
+				rawTx.Vins[i].scriptMulti = txBytes[start:index]
 			}
 		}
 	}
diff --git a/bitcoinsvTransaction/txUtils.go b/bitcoinsvTransaction/txUtils.go
index bbc3217..08203b3 100644
--- a/bitcoinsvTransaction/txUtils.go
+++ b/bitcoinsvTransaction/txUtils.go
@@ -55,6 +55,14 @@ func littleEndianBytesToUint16(data []byte) uint16 {
 	return binary.LittleEndian.Uint16(data)
 }
 
+//scriptLenBytes the length of a script as the network's variable length integer
+func scriptLenBytes(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
+
 //uint32ToLittleEndianBytes
 func uint32ToLittleEndianBytes(data uint32) []byte {
 	tmp := [4]byte{}
diff --git a/btcTransaction/SignaturePubkey.go b/btcTransaction/SignaturePubkey.go
index 1a9d48f..79b5ea2 100644
--- a/btcTransaction/SignaturePubkey.go
+++ b/btcTransaction/SignaturePubkey.go
@@ -193,7 +193,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -316,7 +316,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index 09586d4..911992a 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -1,6 +1,7 @@
 package btcTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -95,66 +96,8 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
-	segwit, err := isSegwit(unlockData, SegwitON)
-	if err != nil {
-		return "", nil
-	}
-	if segwit && !SegwitON {
-		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
-	}
-	emptyTrans.Witness = segwit
-
-	for i := 0; i < len(emptyTrans.Vins); i++ {
-		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
-		if err != nil {
-			return "", nil
-		}
-		if inType == TypeP2PKH {
-			emptyTrans.Vins[i].inType = int(inType)
-			emptyTrans.Vins[i].scriptPub = nil
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptSig = script
-		} else if inType == TypeP2WPKH {
-			if !SegwitON {
-				return "", errors.New("Pay to Witness-pubkey-hash type transaction found while the SegwitON is set to false!")
-			}
-			emptyTrans.Vins[i].inType = int(inType)
-			emptyTrans.Vins[i].scriptPub = redeem
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptSig = script
-		} else if inType == TypeBech32 {
-			if !SegwitON {
-				return "", errors.New("Bech32 type transaction found while the SegwitON is set to false!")
-			}
-			emptyTrans.Vins[i].inType = int(inType)
-			emptyTrans.Vins[i].scriptPub = nil
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptSig = script
-		} else if inType == TypeMultiSig {
-			emptyTrans.Vins[i].inType = int(inType)
-			if segwit {
-				redeemHash := owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)
-				redeemHash = append([]byte{0x23, 0x22, 0x00, 0x20}, redeemHash...)
-				emptyTrans.Vins[i].scriptPub = redeemHash
-			} else {
-				emptyTrans.Vins[i].scriptPub = nil
-			}
-			emptyTrans.Vins[i].scriptSig = nil
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptMulti = script
-		}
+	if err = emptyTrans.insertSignatures(txHashes, unlockData, SegwitON); err != nil {
+		return "", err
 	}
 
 	ret, err := emptyTrans.encodeToBytes(SegwitON)
@@ -188,48 +131,90 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
-			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
+		if !txHash[i].matchSignatures(signedTrans.Vins[i], unlockData[i], SegwitON) {
+			return false
+		}
+	}
+
+	//the transaction must be what these signatures and the unlock data make of it
+	if emptyTrans.insertSignatures(txHash, unlockData, SegwitON) != nil {
+		return false
+	}
+	expected, err := emptyTrans.encodeToBytes(SegwitON)
+
+	return err == nil && bytes.Equal(expected, txBytes)
+}
+
+//insertSignatures set the unlocking script of every input
+func (t *Transaction) insertSignatures(txHashes []TxHash, unlockData []TxUnlock, SegwitON bool) error {
+	if len(txHashes) != len(t.Vins) || len(unlockData) != len(t.Vins) {
+		return errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
+	segwit, err := isSegwit(unlockData, SegwitON)
+	if err != nil {
+		return err
+	}
+	if segwit && !SegwitON {
+		return errors.New("Segwit transaction found while SegwitON is set to false!")
+	}
+	t.Witness = segwit
+
+	for i := 0; i < len(t.Vins); i++ {
+		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil {
+			return err
+		}
+		if (inType == TypeMultiSig) != txHashes[i].IsMultisig() {
+			return errors.New("The signature data does not fit the lock script!")
+		}
+		if inType == TypeP2PKH {
+			t.Vins[i].inType = int(inType)
+			t.Vins[i].scriptPub = nil
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
 			if err != nil {
-				return false
+				return err
 			}
-
-			txHash[i].Normal.SigPub = *sigpub
-			txHash[i].Normal.SigType = sigType
-		} else if signedTrans.Vins[i].inType == TypeMultiSig {
-			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
+			t.Vins[i].scriptSig = script
+		} else if inType == TypeP2WPKH {
+			if !SegwitON {
+				return errors.New("Pay to Witness-pubkey-hash type transaction found while the SegwitON is set to false!")
+			}
+			t.Vins[i].inType = int(inType)
+			t.Vins[i].scriptPub = redeem
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
 			if err != nil {
-				return false
+				return err
 			}
-			for j := 0; j < len(sigpub); j++ {
-				txHash[i].Multi[j].SigPub = sigpub[j]
-				txHash[i].Multi[j].SigType = sigType[j]
+			t.Vins[i].scriptSig = script
+		} else if inType == TypeBech32 {
+			if !SegwitON {
+				return errors.New("Bech32 type transaction found while the SegwitON is set to false!")
 			}
-		}
-	}
-
-	for _, t := range txHash {
-		th, _ := hex.DecodeString(t.Hash)
-		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
-				return false
+			t.Vins[i].inType = int(inType)
+			t.Vins[i].scriptPub = nil
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
+			if err != nil {
+				return err
 			}
-		} else {
-			count := 0
-			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
-						count++
-						break
-					}
-				}
+			t.Vins[i].scriptSig = script
+		} else if inType == TypeMultiSig {
+			t.Vins[i].inType = int(inType)
+			if segwit {
+				redeemHash := owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)
+				redeemHash = append([]byte{0x23, 0x22, 0x00, 0x20}, redeemHash...)
+				t.Vins[i].scriptPub = redeemHash
+			} else {
+				t.Vins[i].scriptPub = nil
 			}
-			if count != int(t.NRequired) {
-				return false
+			t.Vins[i].scriptSig = nil
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
+			if err != nil {
+				return err
 			}
+			t.Vins[i].scriptMulti = script
 		}
 	}
-	return true
+
+	return nil
 }
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index edc1edc..4afcc67 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -1,6 +1,7 @@
 package btcTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -38,6 +39,9 @@ func (tx TxHash) GetTxHashHex() string {
 }
 
 func (tx TxHash) GetNormalTxAddress() string {
+	if tx.Normal == nil {
+		return ""
+	}
 	return tx.Normal.Address
 }
 
@@ -76,7 +80,7 @@ func newTxHash(hash, lockscript, redeem []byte, inType, sigType byte, addressPre
 		}
 		return &TxHash{hex.EncodeToString(hash), nRequired, nil, multiTx}, nil
 	}
-	return nil, nil
+	return nil, errors.New("The type of lockScript is not supported!")
 }
 
 func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, error) {
@@ -166,7 +170,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLenBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -280,6 +284,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
@@ -326,7 +333,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(scriptLenBytes(redeemLen), ret...)
 	}
 
 	count = 0
@@ -352,7 +359,82 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		//the number of witness items
+		ret = append([]byte{count + 2}, ret...)
 	}
 
 	return ret, nil
 }
+
+//matchSignatures take over the signatures of a signed input if they unlock the output being spent
+func (t *TxHash) matchSignatures(in TxIn, unlock TxUnlock, SegwitON bool) bool {
+	lockBytes, redeemBytes, inType, err := checkScriptType(unlock.LockScript, unlock.RedeemScript)
+	if err != nil || in.inType != int(inType) {
+		return false
+	}
+	hash, err := hex.DecodeString(t.Hash)
+	if err != nil {
+		return false
+	}
+
+	if inType == TypeMultiSig {
+		program := append([]byte{0x00, 0x20}, owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_SHA256)...)
+		if !bytes.Equal(owcrypt.Hash(program, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) &&
+			(SegwitON || !bytes.Equal(owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22])) {
+			return false
+		}
+		sigs, err := decodeMultiBytes(in.scriptMulti, SegwitON)
+		if err != nil || len(sigs) != int(t.NRequired) {
+			return false
+		}
+		//every signature has a public key of its own, in the order of the redeem script
+		next := 0
+		for _, sig := range sigs {
+			for ; next < len(t.Multi); next++ {
+				pubkey, err := hex.DecodeString(t.Multi[next].Pubkey)
+				if err == nil && verifySignature(pubkey, hash, sig) {
+					t.Multi[next].SigPub = SignaturePubkey{sig, pubkey}
+					break
+				}
+			}
+			if next == len(t.Multi) {
+				return false
+			}
+			next++
+		}
+		return true
+	}
+
+	sigPub, _, err := decodeFromScriptBytes(in.scriptSig)
+	if err != nil {
+		return false
+	}
+	pubkeyHash := owcrypt.Hash(sigPub.Pubkey, 0, owcrypt.HASH_ALG_HASH160)
+	switch inType {
+	case TypeP2PKH:
+		if !bytes.Equal(pubkeyHash, lockBytes[3:23]) {
+			return false
+		}
+	case TypeP2WPKH:
+		if !bytes.Equal(pubkeyHash, redeemBytes[2:22]) || !bytes.Equal(owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) {
+			return false
+		}
+	case TypeBech32:
+		if !bytes.Equal(pubkeyHash, lockBytes[2:22]) {
+			return false
+		}
+	default:
+		return false
+	}
+	t.Normal.SigPub = *sigPub
+	return verifySignature(sigPub.Pubkey, hash, sigPub.Signature)
+}
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 || len(signature) != 64 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
diff --git a/btcTransaction/txIn.go b/btcTransaction/txIn.go
index ded31f8..b68ff28 100644
--- a/btcTransaction/txIn.go
+++ b/btcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLenBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index 832aca0..b693f1d 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -100,131 +100,37 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	return nRequired, pubkeys, nil
 }
 
-func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
-
-	var sp []SignaturePubkey
-	var st []byte
-	if script == nil || len(script) == 0 {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
+//decodeMultiBytes take the signatures out of an unlocking script (legacy) or witness (segwit)
+func decodeMultiBytes(script []byte, SegwitON bool) ([][]byte, error) {
 	limit := len(script)
 	index := 0
-	length := 0
-
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-
-	if script[index] == 0 {
-
-	} else if script[index] == 0xFD {
-		index++
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		length = int(littleEndianBytesToUint16(script[index : index+2]))
-		index += 2
-		if length+3 != limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-	} else {
-		length = int(script[index])
-		index++
-
-		if length+1 != limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-	}
-	if script[index] != 0x00 {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	index++
 
-	for {
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		sigLen := script[index]
-		if script[index+1] != 0x30 {
-			break
-		}
-		if index+int(sigLen)+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		sig, sigType, err := decodeSignatureFromScript(script[index : index+int(sigLen)+1])
-		if err != nil {
-			return nil, nil, err
-		}
-		sp = append(sp, SignaturePubkey{sig, nil})
-		st = append(st, sigType)
-		index += int(sigLen + 1)
-	}
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	redeemLen := 0
-	if script[index] == OpPushData1 {
-		index++
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		redeemLen = int(script[index])
-		index++
-	} else if script[index] == OpPushData2 {
-		index++
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
-		index += 2
-	} else {
-		redeemLen = int(script[index])
+	if SegwitON {
+		//number of witness items
 		index++
+	} else if limit > 0 && script[0] == 0xFD {
+		//length of a long script
+		index += 3
 	}
 
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
+	if index+1 > limit || script[index] != 0x00 {
+		return nil, errors.New("Invalid multisig script data!")
 	}
-	required := script[index] + 1 - OpCode_1
 	index++
 
-	if int(required) != len(sp) {
-		return nil, nil, errors.New("Multisig not completely signed!")
-	}
-
-	if index+int(redeemLen)-1 != limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-
-	if script[len(script)-1] != OpCheckMultiSig {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
-	pscript := script[index : len(script)-2]
-
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
-	}
-
-	index = 0
-	limit = redeemLen
-	for i := 0; i < pubkeys; i++ {
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		if pscript[index] != 0x21 {
-			return nil, nil, errors.New("Invalid multisig script data!")
+	var sigs [][]byte
+	for index+2 <= limit && script[index+1] == 0x30 {
+		end := index + int(script[index]) + 1
+		if end > limit {
+			return nil, errors.New("Invalid multisig script data!")
 		}
-		index++
-		if index+0x21 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
+		sig, _, err := decodeSignatureFromScript(script[index:end])
+		if err != nil {
+			return nil, err
 		}
-		sp[i].Pubkey = pscript[index : index+0x21]
-		index += 0x21
+		sigs = append(sigs, sig)
+		index = end
 	}
 
-	return sp, st, nil
+	return sigs, nil
 }
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index f7a00fb..9cffcd2 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -184,7 +184,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
@@ -201,7 +201,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -217,6 +217,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -289,89 +292,39 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				//number of items, an empty one, the signatures and the redeem script
+				start := index
+				items := int(txBytes[index])
 				index++
-				if !SegwitON {
-					scriptLen := int(txBytes[index])
-					if scriptLen == 0xFD {
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						scriptLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
-						index += 3
-					} else if scriptLen > 0xFD {
-						return nil, errors.New("Invalid transaction data!")
-					} else {
-						index++
-					}
-				}
-
-				if txBytes[index] != 0x00 {
+				if items < 3 || index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
-				for {
-					if index+2 > limit {
-						return nil, errors.New("Invalid transaction data!")
-					}
-					if txBytes[index+1] != 0x30 {
-						break
-					}
-					sigLen := txBytes[index]
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
-					index++
-					if index+int(sigLen) > limit {
+				for ; items > 2; items-- {
+					if index+1 > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
-					index += int(sigLen)
+					index += int(txBytes[index]) + 1
 				}
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				redeemLen := 0
-				if !SegwitON {
-					if txBytes[index] == OpPushData1 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1)
-						index++
-						if index+1 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					} else if txBytes[index] == OpPushData2 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
-						index++
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+2]...)
-						index += 2
-					} else {
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
+				redeemLen := int(txBytes[index])
+				index++
+				if redeemLen == 0xFD {
+					if index+2 > limit {
+						return nil, errors.New("Invalid transaction data!")
 					}
-				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
+					index += 2
 				}
+				index += redeemLen
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index > limit || txBytes[index-1] != OpCheckMultiSig {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
-				index += redeemLen
+				rawTx.Vins[i].scriptMulti = txBytes[start:index]
 			}
 		}
 	}
diff --git a/btcTransaction/txUtils.go b/btcTransaction/txUtils.go
index 51ade1f..503f3c6 100644
--- a/btcTransaction/txUtils.go
+++ b/btcTransaction/txUtils.go
@@ -55,6 +55,14 @@ func littleEndianBytesToUint16(data []byte) uint16 {
 	return binary.LittleEndian.Uint16(data)
 }
 
+//scriptLenBytes the length of a script as the network's variable length integer
+func scriptLenBytes(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
+
 //uint32ToLittleEndianBytes
 func uint32ToLittleEndianBytes(data uint32) []byte {
 	tmp := [4]byte{}
diff --git a/cxcTransaction/SignaturePubkey.go b/cxcTransaction/SignaturePubkey.go
index ea881d2..6c5c5a2 100644
--- a/cxcTransaction/SignaturePubkey.go
+++ b/cxcTransaction/SignaturePubkey.go
@@ -193,7 +193,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -316,7 +316,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index 2f2d266..5bcf50e 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -1,6 +1,7 @@
 package cxcTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"github.com/blocktree/go-owcrypt"
@@ -114,66 +115,8 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
-	segwit, err := isSegwit(unlockData, SegwitON)
-	if err != nil {
-		return "", nil
-	}
-	if segwit && !SegwitON {
-		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
-	}
-	emptyTrans.Witness = segwit
-
-	for i := 0; i < len(emptyTrans.Vins); i++ {
-		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
-		if err != nil {
-			return "", nil
-		}
-		if inType == TypeP2PKH {
-			emptyTrans.Vins[i].inType = int(inType)
-			emptyTrans.Vins[i].scriptPub = nil
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptSig = script
-		} else if inType == TypeP2WPKH {
-			if !SegwitON {
-				return "", errors.New("Pay to Witness-pubkey-hash type transaction found while the SegwitON is set to false!")
-			}
-			emptyTrans.Vins[i].inType = int(inType)
-			emptyTrans.Vins[i].scriptPub = redeem
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptSig = script
-		} else if inType == TypeBech32 {
-			if !SegwitON {
-				return "", errors.New("Bech32 type transaction found while the SegwitON is set to false!")
-			}
-			emptyTrans.Vins[i].inType = int(inType)
-			emptyTrans.Vins[i].scriptPub = nil
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptSig = script
-		} else if inType == TypeMultiSig {
-			emptyTrans.Vins[i].inType = int(inType)
-			if segwit {
-				redeemHash := owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)
-				redeemHash = append([]byte{0x23, 0x22, 0x00, 0x20}, redeemHash...)
-				emptyTrans.Vins[i].scriptPub = redeemHash
-			} else {
-				emptyTrans.Vins[i].scriptPub = nil
-			}
-			emptyTrans.Vins[i].scriptSig = nil
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptMulti = script
-		}
+	if err = emptyTrans.insertSignatures(txHashes, unlockData, SegwitON); err != nil {
+		return "", err
 	}
 
 	ret, err := emptyTrans.encodeToBytes(SegwitON)
@@ -207,48 +150,90 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
-			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
+		if !txHash[i].matchSignatures(signedTrans.Vins[i], unlockData[i], SegwitON) {
+			return false
+		}
+	}
+
+	//the transaction must be what these signatures and the unlock data make of it
+	if emptyTrans.insertSignatures(txHash, unlockData, SegwitON) != nil {
+		return false
+	}
+	expected, err := emptyTrans.encodeToBytes(SegwitON)
+
+	return err == nil && bytes.Equal(expected, txBytes)
+}
+
+//insertSignatures set the unlocking script of every input
+func (t *Transaction) insertSignatures(txHashes []TxHash, unlockData []TxUnlock, SegwitON bool) error {
+	if len(txHashes) != len(t.Vins) || len(unlockData) != len(t.Vins) {
+		return errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
+	segwit, err := isSegwit(unlockData, SegwitON)
+	if err != nil {
+		return err
+	}
+	if segwit && !SegwitON {
+		return errors.New("Segwit transaction found while SegwitON is set to false!")
+	}
+	t.Witness = segwit
+
+	for i := 0; i < len(t.Vins); i++ {
+		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil {
+			return err
+		}
+		if (inType == TypeMultiSig) != txHashes[i].IsMultisig() {
+			return errors.New("The signature data does not fit the lock script!")
+		}
+		if inType == TypeP2PKH {
+			t.Vins[i].inType = int(inType)
+			t.Vins[i].scriptPub = nil
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
 			if err != nil {
-				return false
+				return err
 			}
-
-			txHash[i].Normal.SigPub = *sigpub
-			txHash[i].Normal.SigType = sigType
-		} else if signedTrans.Vins[i].inType == TypeMultiSig {
-			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
+			t.Vins[i].scriptSig = script
+		} else if inType == TypeP2WPKH {
+			if !SegwitON {
+				return errors.New("Pay to Witness-pubkey-hash type transaction found while the SegwitON is set to false!")
+			}
+			t.Vins[i].inType = int(inType)
+			t.Vins[i].scriptPub = redeem
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
 			if err != nil {
-				return false
+				return err
 			}
-			for j := 0; j < len(sigpub); j++ {
-				txHash[i].Multi[j].SigPub = sigpub[j]
-				txHash[i].Multi[j].SigType = sigType[j]
+			t.Vins[i].scriptSig = script
+		} else if inType == TypeBech32 {
+			if !SegwitON {
+				return errors.New("Bech32 type transaction found while the SegwitON is set to false!")
 			}
-		}
-	}
-
-	for _, t := range txHash {
-		th, _ := hex.DecodeString(t.Hash)
-		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
-				return false
+			t.Vins[i].inType = int(inType)
+			t.Vins[i].scriptPub = nil
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
+			if err != nil {
+				return err
 			}
-		} else {
-			count := 0
-			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
-						count++
-						break
-					}
-				}
+			t.Vins[i].scriptSig = script
+		} else if inType == TypeMultiSig {
+			t.Vins[i].inType = int(inType)
+			if segwit {
+				redeemHash := owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)
+				redeemHash = append([]byte{0x23, 0x22, 0x00, 0x20}, redeemHash...)
+				t.Vins[i].scriptPub = redeemHash
+			} else {
+				t.Vins[i].scriptPub = nil
 			}
-			if count != int(t.NRequired) {
-				return false
+			t.Vins[i].scriptSig = nil
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
+			if err != nil {
+				return err
 			}
+			t.Vins[i].scriptMulti = script
 		}
 	}
-	return true
+
+	return nil
 }
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index d61ed0b..63cd7e7 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -1,6 +1,7 @@
 package cxcTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"github.com/blocktree/go-owcrypt"
@@ -37,6 +38,9 @@ func (tx TxHash) GetTxHashHex() string {
 }
 
 func (tx TxHash) GetNormalTxAddress() string {
+	if tx.Normal == nil {
+		return ""
+	}
 	return tx.Normal.Address
 }
 
@@ -75,7 +79,7 @@ func newTxHash(hash, lockscript, redeem []byte, inType, sigType byte, addressPre
 		}
 		return &TxHash{hex.EncodeToString(hash), nRequired, nil, multiTx}, nil
 	}
-	return nil, nil
+	return nil, errors.New("The type of lockScript is not supported!")
 }
 
 func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, error) {
@@ -165,7 +169,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLenBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -279,6 +283,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
@@ -325,7 +332,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(scriptLenBytes(redeemLen), ret...)
 	}
 
 	count = 0
@@ -351,7 +358,82 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		//the number of witness items
+		ret = append([]byte{count + 2}, ret...)
 	}
 
 	return ret, nil
 }
+
+//matchSignatures take over the signatures of a signed input if they unlock the output being spent
+func (t *TxHash) matchSignatures(in TxIn, unlock TxUnlock, SegwitON bool) bool {
+	lockBytes, redeemBytes, inType, err := checkScriptType(unlock.LockScript, unlock.RedeemScript)
+	if err != nil || in.inType != int(inType) {
+		return false
+	}
+	hash, err := hex.DecodeString(t.Hash)
+	if err != nil {
+		return false
+	}
+
+	if inType == TypeMultiSig {
+		program := append([]byte{0x00, 0x20}, owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_SHA256)...)
+		if !bytes.Equal(owcrypt.Hash(program, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) &&
+			(SegwitON || !bytes.Equal(owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22])) {
+			return false
+		}
+		sigs, err := decodeMultiBytes(in.scriptMulti, SegwitON)
+		if err != nil || len(sigs) != int(t.NRequired) {
+			return false
+		}
+		//every signature has a public key of its own, in the order of the redeem script
+		next := 0
+		for _, sig := range sigs {
+			for ; next < len(t.Multi); next++ {
+				pubkey, err := hex.DecodeString(t.Multi[next].Pubkey)
+				if err == nil && verifySignature(pubkey, hash, sig) {
+					t.Multi[next].SigPub = SignaturePubkey{sig, pubkey}
+					break
+				}
+			}
+			if next == len(t.Multi) {
+				return false
+			}
+			next++
+		}
+		return true
+	}
+
+	sigPub, _, err := decodeFromScriptBytes(in.scriptSig)
+	if err != nil {
+		return false
+	}
+	pubkeyHash := owcrypt.Hash(sigPub.Pubkey, 0, owcrypt.HASH_ALG_HASH160)
+	switch inType {
+	case TypeP2PKH:
+		if !bytes.Equal(pubkeyHash, lockBytes[3:23]) {
+			return false
+		}
+	case TypeP2WPKH:
+		if !bytes.Equal(pubkeyHash, redeemBytes[2:22]) || !bytes.Equal(owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) {
+			return false
+		}
+	case TypeBech32:
+		if !bytes.Equal(pubkeyHash, lockBytes[2:22]) {
+			return false
+		}
+	default:
+		return false
+	}
+	t.Normal.SigPub = *sigPub
+	return verifySignature(sigPub.Pubkey, hash, sigPub.Signature)
+}
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 || len(signature) != 64 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
diff --git a/cxcTransaction/txIn.go b/cxcTransaction/txIn.go
index da2bdb4..80ed33d 100644
--- a/cxcTransaction/txIn.go
+++ b/cxcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLenBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index ad6aebf..20fd1e8 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -100,131 +100,37 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	return nRequired, pubkeys, nil
 }
 
-func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
-
-	var sp []SignaturePubkey
-	var st []byte
-	if script == nil || len(script) == 0 {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
+//decodeMultiBytes take the signatures out of an unlocking script (legacy) or witness (segwit)
+func decodeMultiBytes(script []byte, SegwitON bool) ([][]byte, error) {
 	limit := len(script)
 	index := 0
-	length := 0
-
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-
-	if script[index] == 0 {
-
-	} else if script[index] == 0xFD {
-		index++
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		length = int(littleEndianBytesToUint16(script[index : index+2]))
-		index += 2
-		if length+3 != limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-	} else {
-		length = int(script[index])
-		index++
-
-		if length+1 != limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-	}
-	if script[index] != 0x00 {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	index++
 
-	for {
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		sigLen := script[index]
-		if script[index+1] != 0x30 {
-			break
-		}
-		if index+int(sigLen)+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		sig, sigType, err := decodeSignatureFromScript(script[index : index+int(sigLen)+1])
-		if err != nil {
-			return nil, nil, err
-		}
-		sp = append(sp, SignaturePubkey{sig, nil})
-		st = append(st, sigType)
-		index += int(sigLen + 1)
-	}
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	redeemLen := 0
-	if script[index] == OpPushData1 {
-		index++
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		redeemLen = int(script[index])
-		index++
-	} else if script[index] == OpPushData2 {
-		index++
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
-		index += 2
-	} else {
-		redeemLen = int(script[index])
+	if SegwitON {
+		//number of witness items
 		index++
+	} else if limit > 0 && script[0] == 0xFD {
+		//length of a long script
+		index += 3
 	}
 
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
+	if index+1 > limit || script[index] != 0x00 {
+		return nil, errors.New("Invalid multisig script data!")
 	}
-	required := script[index] + 1 - OpCode_1
 	index++
 
-	if int(required) != len(sp) {
-		return nil, nil, errors.New("Multisig not completely signed!")
-	}
-
-	if index+int(redeemLen)-1 != limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-
-	if script[len(script)-1] != OpCheckMultiSig {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
-	pscript := script[index : len(script)-2]
-
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
-	}
-
-	index = 0
-	limit = redeemLen
-	for i := 0; i < pubkeys; i++ {
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		if pscript[index] != 0x21 {
-			return nil, nil, errors.New("Invalid multisig script data!")
+	var sigs [][]byte
+	for index+2 <= limit && script[index+1] == 0x30 {
+		end := index + int(script[index]) + 1
+		if end > limit {
+			return nil, errors.New("Invalid multisig script data!")
 		}
-		index++
-		if index+0x21 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
+		sig, _, err := decodeSignatureFromScript(script[index:end])
+		if err != nil {
+			return nil, err
 		}
-		sp[i].Pubkey = pscript[index : index+0x21]
-		index += 0x21
+		sigs = append(sigs, sig)
+		index = end
 	}
 
-	return sp, st, nil
+	return sigs, nil
 }
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index ecf2f03..fe41777 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -215,7 +215,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
@@ -232,7 +232,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -248,6 +248,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -320,89 +323,39 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				//number of items, an empty one, the signatures and the redeem script
+				start := index
+				items := int(txBytes[index])
 				index++
-				if !SegwitON {
-					scriptLen := int(txBytes[index])
-					if scriptLen == 0xFD {
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						scriptLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
-						index += 3
-					} else if scriptLen > 0xFD {
-						return nil, errors.New("Invalid transaction data!")
-					} else {
-						index++
-					}
-				}
-
-				if txBytes[index] != 0x00 {
+				if items < 3 || index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
-				for {
-					if index+2 > limit {
-						return nil, errors.New("Invalid transaction data!")
-					}
-					if txBytes[index+1] != 0x30 {
-						break
-					}
-					sigLen := txBytes[index]
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
-					index++
-					if index+int(sigLen) > limit {
+				for ; items > 2; items-- {
+					if index+1 > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
-					index += int(sigLen)
+					index += int(txBytes[index]) + 1
 				}
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				redeemLen := 0
-				if !SegwitON {
-					if txBytes[index] == OpPushData1 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1)
-						index++
-						if index+1 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					} else if txBytes[index] == OpPushData2 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
-						index++
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+2]...)
-						index += 2
-					} else {
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
+				redeemLen := int(txBytes[index])
+				index++
+				if redeemLen == 0xFD {
+					if index+2 > limit {
+						return nil, errors.New("Invalid transaction data!")
 					}
-				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
+					index += 2
 				}
+				index += redeemLen
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index > limit || txBytes[index-1] != OpCheckMultiSig {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
-				index += redeemLen
+				rawTx.Vins[i].scriptMulti = txBytes[start:index]
 			}
 		}
 	}
diff --git a/cxcTransaction/txUtils.go b/cxcTransaction/txUtils.go
index 176ba4e..459c539 100644
--- a/cxcTransaction/txUtils.go
+++ b/cxcTransaction/txUtils.go
@@ -55,6 +55,14 @@ func littleEndianBytesToUint16(data []byte) uint16 {
 	return binary.LittleEndian.Uint16(data)
 }
 
+//scriptLenBytes the length of a script as the network's variable length integer
+func scriptLenBytes(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
+
 //uint32ToLittleEndianBytes
 func uint32ToLittleEndianBytes(data uint32) []byte {
 	tmp := [4]byte{}
diff --git a/hcTransaction/SignaturePubkey.go b/hcTransaction/SignaturePubkey.go
index 97538b5..5a87e4e 100644
--- a/hcTransaction/SignaturePubkey.go
+++ b/hcTransaction/SignaturePubkey.go
@@ -194,7 +194,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -317,7 +317,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index 10922cb..7a44128 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -1,6 +1,7 @@
 package hcTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -95,66 +96,8 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
-	segwit, err := isSegwit(unlockData, SegwitON)
-	if err != nil {
-		return "", nil
-	}
-	if segwit && !SegwitON {
-		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
-	}
-	emptyTrans.Witness = segwit
-
-	for i := 0; i < len(emptyTrans.Vins); i++ {
-		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
-		if err != nil {
-			return "", nil
-		}
-		if inType == TypeP2PKH {
-			emptyTrans.Vins[i].inType = int(inType)
-			emptyTrans.Vins[i].scriptPub = nil
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptSig = script
-		} else if inType == TypeP2WPKH {
-			if !SegwitON {
-				return "", errors.New("Pay to Witness-pubkey-hash type transaction found while the SegwitON is set to false!")
-			}
-			emptyTrans.Vins[i].inType = int(inType)
-			emptyTrans.Vins[i].scriptPub = redeem
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptSig = script
-		} else if inType == TypeBech32 {
-			if !SegwitON {
-				return "", errors.New("Bech32 type transaction found while the SegwitON is set to false!")
-			}
-			emptyTrans.Vins[i].inType = int(inType)
-			emptyTrans.Vins[i].scriptPub = nil
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptSig = script
-		} else if inType == TypeMultiSig {
-			emptyTrans.Vins[i].inType = int(inType)
-			if segwit {
-				redeemHash := owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)
-				redeemHash = append([]byte{0x23, 0x22, 0x00, 0x20}, redeemHash...)
-				emptyTrans.Vins[i].scriptPub = redeemHash
-			} else {
-				emptyTrans.Vins[i].scriptPub = nil
-			}
-			emptyTrans.Vins[i].scriptSig = nil
-			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptMulti = script
-		}
+	if err = emptyTrans.insertSignatures(txHashes, unlockData, SegwitON); err != nil {
+		return "", err
 	}
 
 	ret, err := emptyTrans.encodeToBytes(SegwitON)
@@ -188,48 +131,90 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
-			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
+		if !txHash[i].matchSignatures(signedTrans.Vins[i], unlockData[i], SegwitON) {
+			return false
+		}
+	}
+
+	//the transaction must be what these signatures and the unlock data make of it
+	if emptyTrans.insertSignatures(txHash, unlockData, SegwitON) != nil {
+		return false
+	}
+	expected, err := emptyTrans.encodeToBytes(SegwitON)
+
+	return err == nil && bytes.Equal(expected, txBytes)
+}
+
+//insertSignatures set the unlocking script of every input
+func (t *Transaction) insertSignatures(txHashes []TxHash, unlockData []TxUnlock, SegwitON bool) error {
+	if len(txHashes) != len(t.Vins) || len(unlockData) != len(t.Vins) {
+		return errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
+	segwit, err := isSegwit(unlockData, SegwitON)
+	if err != nil {
+		return err
+	}
+	if segwit && !SegwitON {
+		return errors.New("Segwit transaction found while SegwitON is set to false!")
+	}
+	t.Witness = segwit
+
+	for i := 0; i < len(t.Vins); i++ {
+		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil {
+			return err
+		}
+		if (inType == TypeMultiSig) != txHashes[i].IsMultisig() {
+			return errors.New("The signature data does not fit the lock script!")
+		}
+		if inType == TypeP2PKH {
+			t.Vins[i].inType = int(inType)
+			t.Vins[i].scriptPub = nil
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
 			if err != nil {
-				return false
+				return err
 			}
-
-			txHash[i].Normal.SigPub = *sigpub
-			txHash[i].Normal.SigType = sigType
-		} else if signedTrans.Vins[i].inType == TypeMultiSig {
-			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
+			t.Vins[i].scriptSig = script
+		} else if inType == TypeP2WPKH {
+			if !SegwitON {
+				return errors.New("Pay to Witness-pubkey-hash type transaction found while the SegwitON is set to false!")
+			}
+			t.Vins[i].inType = int(inType)
+			t.Vins[i].scriptPub = redeem
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
 			if err != nil {
-				return false
+				return err
 			}
-			for j := 0; j < len(sigpub); j++ {
-				txHash[i].Multi[j].SigPub = sigpub[j]
-				txHash[i].Multi[j].SigType = sigType[j]
+			t.Vins[i].scriptSig = script
+		} else if inType == TypeBech32 {
+			if !SegwitON {
+				return errors.New("Bech32 type transaction found while the SegwitON is set to false!")
 			}
-		}
-	}
-
-	for _, t := range txHash {
-		th, _ := hex.DecodeString(t.Hash)
-		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
-				return false
+			t.Vins[i].inType = int(inType)
+			t.Vins[i].scriptPub = nil
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
+			if err != nil {
+				return err
 			}
-		} else {
-			count := 0
-			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
-						count++
-						break
-					}
-				}
+			t.Vins[i].scriptSig = script
+		} else if inType == TypeMultiSig {
+			t.Vins[i].inType = int(inType)
+			if segwit {
+				redeemHash := owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)
+				redeemHash = append([]byte{0x23, 0x22, 0x00, 0x20}, redeemHash...)
+				t.Vins[i].scriptPub = redeemHash
+			} else {
+				t.Vins[i].scriptPub = nil
 			}
-			if count != int(t.NRequired) {
-				return false
+			t.Vins[i].scriptSig = nil
+			script, err := txHashes[i].encodeToScript(redeem, SegwitON)
+			if err != nil {
+				return err
 			}
+			t.Vins[i].scriptMulti = script
 		}
 	}
-	return true
+
+	return nil
 }
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index 2a046ee..ab79fdd 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -1,6 +1,7 @@
 package hcTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -38,6 +39,9 @@ func (tx TxHash) GetTxHashHex() string {
 }
 
 func (tx TxHash) GetNormalTxAddress() string {
+	if tx.Normal == nil {
+		return ""
+	}
 	return tx.Normal.Address
 }
 
@@ -76,7 +80,7 @@ func newTxHash(hash, lockscript, redeem []byte, inType, sigType byte, addressPre
 		}
 		return &TxHash{hex.EncodeToString(hash), nRequired, nil, multiTx}, nil
 	}
-	return nil, nil
+	return nil, errors.New("The type of lockScript is not supported!")
 }
 
 func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, error) {
@@ -166,7 +170,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLenBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -280,6 +284,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
@@ -326,7 +333,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(scriptLenBytes(redeemLen), ret...)
 	}
 
 	count = 0
@@ -352,7 +359,82 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		//the number of witness items
+		ret = append([]byte{count + 2}, ret...)
 	}
 
 	return ret, nil
 }
+
+//matchSignatures take over the signatures of a signed input if they unlock the output being spent
+func (t *TxHash) matchSignatures(in TxIn, unlock TxUnlock, SegwitON bool) bool {
+	lockBytes, redeemBytes, inType, err := checkScriptType(unlock.LockScript, unlock.RedeemScript)
+	if err != nil || in.inType != int(inType) {
+		return false
+	}
+	hash, err := hex.DecodeString(t.Hash)
+	if err != nil {
+		return false
+	}
+
+	if inType == TypeMultiSig {
+		program := append([]byte{0x00, 0x20}, owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_SHA256)...)
+		if !bytes.Equal(owcrypt.Hash(program, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) &&
+			(SegwitON || !bytes.Equal(owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22])) {
+			return false
+		}
+		sigs, err := decodeMultiBytes(in.scriptMulti, SegwitON)
+		if err != nil || len(sigs) != int(t.NRequired) {
+			return false
+		}
+		//every signature has a public key of its own, in the order of the redeem script
+		next := 0
+		for _, sig := range sigs {
+			for ; next < len(t.Multi); next++ {
+				pubkey, err := hex.DecodeString(t.Multi[next].Pubkey)
+				if err == nil && verifySignature(pubkey, hash, sig) {
+					t.Multi[next].SigPub = SignaturePubkey{sig, pubkey}
+					break
+				}
+			}
+			if next == len(t.Multi) {
+				return false
+			}
+			next++
+		}
+		return true
+	}
+
+	sigPub, _, err := decodeFromScriptBytes(in.scriptSig)
+	if err != nil {
+		return false
+	}
+	pubkeyHash := owcrypt.Hash(sigPub.Pubkey, 0, owcrypt.HASH_ALG_HASH160)
+	switch inType {
+	case TypeP2PKH:
+		if !bytes.Equal(pubkeyHash, lockBytes[3:23]) {
+			return false
+		}
+	case TypeP2WPKH:
+		if !bytes.Equal(pubkeyHash, redeemBytes[2:22]) || !bytes.Equal(owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) {
+			return false
+		}
+	case TypeBech32:
+		if !bytes.Equal(pubkeyHash, lockBytes[2:22]) {
+			return false
+		}
+	default:
+		return false
+	}
+	t.Normal.SigPub = *sigPub
+	return verifySignature(sigPub.Pubkey, hash, sigPub.Signature)
+}
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 || len(signature) != 64 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
diff --git a/hcTransaction/txIn.go b/hcTransaction/txIn.go
index 7dba474..86874a2 100644
--- a/hcTransaction/txIn.go
+++ b/hcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLenBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index 0643131..c32851b 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -100,131 +100,37 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	return nRequired, pubkeys, nil
 }
 
-func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
-
-	var sp []SignaturePubkey
-	var st []byte
-	if script == nil || len(script) == 0 {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
+//decodeMultiBytes take the signatures out of an unlocking script (legacy) or witness (segwit)
+func decodeMultiBytes(script []byte, SegwitON bool) ([][]byte, error) {
 	limit := len(script)
 	index := 0
-	length := 0
-
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-
-	if script[index] == 0 {
-
-	} else if script[index] == 0xFD {
-		index++
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		length = int(littleEndianBytesToUint16(script[index : index+2]))
-		index += 2
-		if length+3 != limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-	} else {
-		length = int(script[index])
-		index++
-
-		if length+1 != limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-	}
-	if script[index] != 0x00 {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	index++
 
-	for {
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		sigLen := script[index]
-		if script[index+1] != 0x30 {
-			break
-		}
-		if index+int(sigLen)+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		sig, sigType, err := decodeSignatureFromScript(script[index : index+int(sigLen)+1])
-		if err != nil {
-			return nil, nil, err
-		}
-		sp = append(sp, SignaturePubkey{sig, nil})
-		st = append(st, sigType)
-		index += int(sigLen + 1)
-	}
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	redeemLen := 0
-	if script[index] == OpPushData1 {
-		index++
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		redeemLen = int(script[index])
-		index++
-	} else if script[index] == OpPushData2 {
-		index++
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
-		index += 2
-	} else {
-		redeemLen = int(script[index])
+	if SegwitON {
+		//number of witness items
 		index++
+	} else if limit > 0 && script[0] == 0xFD {
+		//length of a long script
+		index += 3
 	}
 
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
+	if index+1 > limit || script[index] != 0x00 {
+		return nil, errors.New("Invalid multisig script data!")
 	}
-	required := script[index] + 1 - OpCode_1
 	index++
 
-	if int(required) != len(sp) {
-		return nil, nil, errors.New("Multisig not completely signed!")
-	}
-
-	if index+int(redeemLen)-1 != limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-
-	if script[len(script)-1] != OpCheckMultiSig {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
-	pscript := script[index : len(script)-2]
-
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
-	}
-
-	index = 0
-	limit = redeemLen
-	for i := 0; i < pubkeys; i++ {
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		if pscript[index] != 0x21 {
-			return nil, nil, errors.New("Invalid multisig script data!")
+	var sigs [][]byte
+	for index+2 <= limit && script[index+1] == 0x30 {
+		end := index + int(script[index]) + 1
+		if end > limit {
+			return nil, errors.New("Invalid multisig script data!")
 		}
-		index++
-		if index+0x21 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
+		sig, _, err := decodeSignatureFromScript(script[index:end])
+		if err != nil {
+			return nil, err
 		}
-		sp[i].Pubkey = pscript[index : index+0x21]
-		index += 0x21
+		sigs = append(sigs, sig)
+		index = end
 	}
 
-	return sp, st, nil
+	return sigs, nil
 }
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index 36b563c..712d276 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -184,7 +184,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
@@ -201,7 +201,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -217,6 +217,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -289,89 +292,39 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				//number of items, an empty one, the signatures and the redeem script
+				start := index
+				items := int(txBytes[index])
 				index++
-				if !SegwitON {
-					scriptLen := int(txBytes[index])
-					if scriptLen == 0xFD {
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						scriptLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
-						index += 3
-					} else if scriptLen > 0xFD {
-						return nil, errors.New("Invalid transaction data!")
-					} else {
-						index++
-					}
-				}
-
-				if txBytes[index] != 0x00 {
+				if items < 3 || index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
-				for {
-					if index+2 > limit {
-						return nil, errors.New("Invalid transaction data!")
-					}
-					if txBytes[index+1] != 0x30 {
-						break
-					}
-					sigLen := txBytes[index]
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
-					index++
-					if index+int(sigLen) > limit {
+				for ; items > 2; items-- {
+					if index+1 > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
-					index += int(sigLen)
+					index += int(txBytes[index]) + 1
 				}
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				redeemLen := 0
-				if !SegwitON {
-					if txBytes[index] == OpPushData1 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1)
-						index++
-						if index+1 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					} else if txBytes[index] == OpPushData2 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
-						index++
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+2]...)
-						index += 2
-					} else {
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
+				redeemLen := int(txBytes[index])
+				index++
+				if redeemLen == 0xFD {
+					if index+2 > limit {
+						return nil, errors.New("Invalid transaction data!")
 					}
-				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
+					index += 2
 				}
+				index += redeemLen
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index > limit || txBytes[index-1] != OpCheckMultiSig {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
-				index += redeemLen
+				rawTx.Vins[i].scriptMulti = txBytes[start:index]
 			}
 		}
 	}
diff --git a/hcTransaction/txUtils.go b/hcTransaction/txUtils.go
index 5c10266..d12aaa6 100644
--- a/hcTransaction/txUtils.go
+++ b/hcTransaction/txUtils.go
@@ -55,6 +55,14 @@ func littleEndianBytesToUint16(data []byte) uint16 {
 	return binary.LittleEndian.Uint16(data)
 }
 
+//scriptLenBytes the length of a script as the network's variable length integer
+func scriptLenBytes(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
+
 //uint32ToLittleEndianBytes
 func uint32ToLittleEndianBytes(data uint32) []byte {
 	tmp := [4]byte{}
diff --git a/omniTransaction/SignaturePubkey.go b/omniTransaction/SignaturePubkey.go
index 4d682ae..d4fe251 100644
--- a/omniTransaction/SignaturePubkey.go
+++ b/omniTransaction/SignaturePubkey.go
@@ -193,7 +193,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -316,7 +316,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index c3f007a..d2cdb86 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -1,6 +1,7 @@
 package omniTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -92,66 +93,8 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
-	segwit, err := isSegwit(unlockData, false)
-	if err != nil {
-		return "", nil
-	}
-	if segwit && !false {
-		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
-	}
-	emptyTrans.Witness = segwit
-
-	for i := 0; i < len(emptyTrans.Vins); i++ {
-		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
-		if err != nil {
-			return "", nil
-		}
-		if inType == TypeP2PKH {
-			emptyTrans.Vins[i].inType = int(inType)
-			emptyTrans.Vins[i].scriptPub = nil
-			script, err := txHashes[i].encodeToScript(redeem, false)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptSig = script
-		} else if inType == TypeP2WPKH {
-			if !false {
-				return "", errors.New("Pay to Witness-pubkey-hash type transaction found while the SegwitON is set to false!")
-			}
-			emptyTrans.Vins[i].inType = int(inType)
-			emptyTrans.Vins[i].scriptPub = redeem
-			script, err := txHashes[i].encodeToScript(redeem, false)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptSig = script
-		} else if inType == TypeBech32 {
-			if !false {
-				return "", errors.New("Bech32 type transaction found while the SegwitON is set to false!")
-			}
-			emptyTrans.Vins[i].inType = int(inType)
-			emptyTrans.Vins[i].scriptPub = nil
-			script, err := txHashes[i].encodeToScript(redeem, false)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptSig = script
-		} else if inType == TypeMultiSig {
-			emptyTrans.Vins[i].inType = int(inType)
-			if segwit {
-				redeemHash := owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)
-				redeemHash = append([]byte{0x23, 0x22, 0x00, 0x20}, redeemHash...)
-				emptyTrans.Vins[i].scriptPub = redeemHash
-			} else {
-				emptyTrans.Vins[i].scriptPub = nil
-			}
-			emptyTrans.Vins[i].scriptSig = nil
-			script, err := txHashes[i].encodeToScript(redeem, false)
-			if err != nil {
-				return "", err
-			}
-			emptyTrans.Vins[i].scriptMulti = script
-		}
+	if err = emptyTrans.insertSignatures(txHashes, unlockData); err != nil {
+		return "", err
 	}
 
 	ret, err := emptyTrans.encodeToBytes(false)
@@ -185,48 +128,90 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
-			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
+		if !txHash[i].matchSignatures(signedTrans.Vins[i], unlockData[i], false) {
+			return false
+		}
+	}
+
+	//the transaction must be what these signatures and the unlock data make of it
+	if emptyTrans.insertSignatures(txHash, unlockData) != nil {
+		return false
+	}
+	expected, err := emptyTrans.encodeToBytes(false)
+
+	return err == nil && bytes.Equal(expected, txBytes)
+}
+
+//insertSignatures set the unlocking script of every input
+func (t *Transaction) insertSignatures(txHashes []TxHash, unlockData []TxUnlock) error {
+	if len(txHashes) != len(t.Vins) || len(unlockData) != len(t.Vins) {
+		return errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
+	segwit, err := isSegwit(unlockData, false)
+	if err != nil {
+		return err
+	}
+	if segwit && !false {
+		return errors.New("Segwit transaction found while SegwitON is set to false!")
+	}
+	t.Witness = segwit
+
+	for i := 0; i < len(t.Vins); i++ {
+		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil {
+			return err
+		}
+		if (inType == TypeMultiSig) != txHashes[i].IsMultisig() {
+			return errors.New("The signature data does not fit the lock script!")
+		}
+		if inType == TypeP2PKH {
+			t.Vins[i].inType = int(inType)
+			t.Vins[i].scriptPub = nil
+			script, err := txHashes[i].encodeToScript(redeem, false)
 			if err != nil {
-				return false
+				return err
 			}
-
-			txHash[i].Normal.SigPub = *sigpub
-			txHash[i].Normal.SigType = sigType
-		} else if signedTrans.Vins[i].inType == TypeMultiSig {
-			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
+			t.Vins[i].scriptSig = script
+		} else if inType == TypeP2WPKH {
+			if !false {
+				return errors.New("Pay to Witness-pubkey-hash type transaction found while the SegwitON is set to false!")
+			}
+			t.Vins[i].inType = int(inType)
+			t.Vins[i].scriptPub = redeem
+			script, err := txHashes[i].encodeToScript(redeem, false)
 			if err != nil {
-				return false
+				return err
 			}
-			for j := 0; j < len(sigpub); j++ {
-				txHash[i].Multi[j].SigPub = sigpub[j]
-				txHash[i].Multi[j].SigType = sigType[j]
+			t.Vins[i].scriptSig = script
+		} else if inType == TypeBech32 {
+			if !false {
+				return errors.New("Bech32 type transaction found while the SegwitON is set to false!")
 			}
-		}
-	}
-
-	for _, t := range txHash {
-		th, _ := hex.DecodeString(t.Hash)
-		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
-				return false
+			t.Vins[i].inType = int(inType)
+			t.Vins[i].scriptPub = nil
+			script, err := txHashes[i].encodeToScript(redeem, false)
+			if err != nil {
+				return err
 			}
-		} else {
-			count := 0
-			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
-						count++
-						break
-					}
-				}
+			t.Vins[i].scriptSig = script
+		} else if inType == TypeMultiSig {
+			t.Vins[i].inType = int(inType)
+			if segwit {
+				redeemHash := owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)
+				redeemHash = append([]byte{0x23, 0x22, 0x00, 0x20}, redeemHash...)
+				t.Vins[i].scriptPub = redeemHash
+			} else {
+				t.Vins[i].scriptPub = nil
 			}
-			if count != int(t.NRequired) {
-				return false
+			t.Vins[i].scriptSig = nil
+			script, err := txHashes[i].encodeToScript(redeem, false)
+			if err != nil {
+				return err
 			}
+			t.Vins[i].scriptMulti = script
 		}
 	}
-	return true
+
+	return nil
 }
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index d482fb6..bbaeb95 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -1,6 +1,7 @@
 package omniTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -38,6 +39,9 @@ func (tx TxHash) GetTxHashHex() string {
 }
 
 func (tx TxHash) GetNormalTxAddress() string {
+	if tx.Normal == nil {
+		return ""
+	}
 	return tx.Normal.Address
 }
 
@@ -75,7 +79,7 @@ func newTxHash(hash, lockscript, redeem []byte, inType, sigType byte, addressPre
 		}
 		return &TxHash{hex.EncodeToString(hash), nRequired, nil, multiTx}, nil
 	}
-	return nil, nil
+	return nil, errors.New("The type of lockScript is not supported!")
 }
 
 func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, error) {
@@ -165,7 +169,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLenBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -279,6 +283,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
@@ -325,7 +332,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(scriptLenBytes(redeemLen), ret...)
 	}
 
 	count = 0
@@ -351,7 +358,82 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		//the number of witness items
+		ret = append([]byte{count + 2}, ret...)
 	}
 
 	return ret, nil
 }
+
+//matchSignatures take over the signatures of a signed input if they unlock the output being spent
+func (t *TxHash) matchSignatures(in TxIn, unlock TxUnlock, SegwitON bool) bool {
+	lockBytes, redeemBytes, inType, err := checkScriptType(unlock.LockScript, unlock.RedeemScript)
+	if err != nil || in.inType != int(inType) {
+		return false
+	}
+	hash, err := hex.DecodeString(t.Hash)
+	if err != nil {
+		return false
+	}
+
+	if inType == TypeMultiSig {
+		program := append([]byte{0x00, 0x20}, owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_SHA256)...)
+		if !bytes.Equal(owcrypt.Hash(program, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) &&
+			(SegwitON || !bytes.Equal(owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22])) {
+			return false
+		}
+		sigs, err := decodeMultiBytes(in.scriptMulti, SegwitON)
+		if err != nil || len(sigs) != int(t.NRequired) {
+			return false
+		}
+		//every signature has a public key of its own, in the order of the redeem script
+		next := 0
+		for _, sig := range sigs {
+			for ; next < len(t.Multi); next++ {
+				pubkey, err := hex.DecodeString(t.Multi[next].Pubkey)
+				if err == nil && verifySignature(pubkey, hash, sig) {
+					t.Multi[next].SigPub = SignaturePubkey{sig, pubkey}
+					break
+				}
+			}
+			if next == len(t.Multi) {
+				return false
+			}
+			next++
+		}
+		return true
+	}
+
+	sigPub, _, err := decodeFromScriptBytes(in.scriptSig)
+	if err != nil {
+		return false
+	}
+	pubkeyHash := owcrypt.Hash(sigPub.Pubkey, 0, owcrypt.HASH_ALG_HASH160)
+	switch inType {
+	case TypeP2PKH:
+		if !bytes.Equal(pubkeyHash, lockBytes[3:23]) {
+			return false
+		}
+	case TypeP2WPKH:
+		if !bytes.Equal(pubkeyHash, redeemBytes[2:22]) || !bytes.Equal(owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) {
+			return false
+		}
+	case TypeBech32:
+		if !bytes.Equal(pubkeyHash, lockBytes[2:22]) {
+			return false
+		}
+	default:
+		return false
+	}
+	t.Normal.SigPub = *sigPub
+	return verifySignature(sigPub.Pubkey, hash, sigPub.Signature)
+}
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 || len(signature) != 64 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
diff --git a/omniTransaction/txIn.go b/omniTransaction/txIn.go
index 3354027..091b260 100644
--- a/omniTransaction/txIn.go
+++ b/omniTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLenBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index 1bc565c..5f33ab2 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -99,131 +99,37 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	return nRequired, pubkeys, nil
 }
 
-func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
-
-	var sp []SignaturePubkey
-	var st []byte
-	if script == nil || len(script) == 0 {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
+//decodeMultiBytes take the signatures out of an unlocking script (legacy) or witness (segwit)
+func decodeMultiBytes(script []byte, SegwitON bool) ([][]byte, error) {
 	limit := len(script)
 	index := 0
-	length := 0
 
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-
-	if script[index] == 0 {
-
-	} else if script[index] == 0xFD {
-		index++
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		length = int(littleEndianBytesToUint16(script[index : index+2]))
-		index += 2
-		if length+3 != limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-	} else {
-		length = int(script[index])
-		index++
-
-		if length+1 != limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-	}
-	if script[index] != 0x00 {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	index++
-
-	for {
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		sigLen := script[index]
-		if script[index+1] != 0x30 {
-			break
-		}
-		if index+int(sigLen)+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		sig, sigType, err := decodeSignatureFromScript(script[index : index+int(sigLen)+1])
-		if err != nil {
-			return nil, nil, err
-		}
-		sp = append(sp, SignaturePubkey{sig, nil})
-		st = append(st, sigType)
-		index += int(sigLen + 1)
-	}
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	redeemLen := 0
-	if script[index] == OpPushData1 {
-		index++
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		redeemLen = int(script[index])
-		index++
-	} else if script[index] == OpPushData2 {
-		index++
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
-		index += 2
-	} else {
-		redeemLen = int(script[index])
+	if SegwitON {
+		//number of witness items
 		index++
+	} else if limit > 0 && script[0] == 0xFD {
+		//length of a long script
+		index += 3
 	}
 
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
+	if index+1 > limit || script[index] != 0x00 {
+		return nil, errors.New("Invalid multisig script data!")
 	}
-	required := script[index] + 1 - OpCode_1
 	index++
 
-	if int(required) != len(sp) {
-		return nil, nil, errors.New("Multisig not completely signed!")
-	}
-
-	if index+int(redeemLen)-1 != limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-
-	if script[len(script)-1] != OpCheckMultiSig {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
-	pscript := script[index : len(script)-2]
-
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
-	}
-
-	index = 0
-	limit = redeemLen
-	for i := 0; i < pubkeys; i++ {
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		if pscript[index] != 0x21 {
-			return nil, nil, errors.New("Invalid multisig script data!")
+	var sigs [][]byte
+	for index+2 <= limit && script[index+1] == 0x30 {
+		end := index + int(script[index]) + 1
+		if end > limit {
+			return nil, errors.New("Invalid multisig script data!")
 		}
-		index++
-		if index+0x21 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
+		sig, _, err := decodeSignatureFromScript(script[index:end])
+		if err != nil {
+			return nil, err
 		}
-		sp[i].Pubkey = pscript[index : index+0x21]
-		index += 0x21
+		sigs = append(sigs, sig)
+		index = end
 	}
 
-	return sp, st, nil
+	return sigs, nil
 }
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index 29987b7..e1adb12 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -184,7 +184,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
@@ -201,7 +201,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -217,6 +217,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -289,89 +292,39 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				//number of items, an empty one, the signatures and the redeem script
+				start := index
+				items := int(txBytes[index])
 				index++
-				if !SegwitON {
-					scriptLen := int(txBytes[index])
-					if scriptLen == 0xFD {
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						scriptLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
-						index += 3
-					} else if scriptLen > 0xFD {
-						return nil, errors.New("Invalid transaction data!")
-					} else {
-						index++
-					}
-				}
-
-				if txBytes[index] != 0x00 {
+				if items < 3 || index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
-				for {
-					if index+2 > limit {
-						return nil, errors.New("Invalid transaction data!")
-					}
-					if txBytes[index+1] != 0x30 {
-						break
-					}
-					sigLen := txBytes[index]
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
-					index++
-					if index+int(sigLen) > limit {
+				for ; items > 2; items-- {
+					if index+1 > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
-					index += int(sigLen)
+					index += int(txBytes[index]) + 1
 				}
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				redeemLen := 0
-				if !SegwitON {
-					if txBytes[index] == OpPushData1 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1)
-						index++
-						if index+1 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					} else if txBytes[index] == OpPushData2 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
-						index++
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+2]...)
-						index += 2
-					} else {
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
+				redeemLen := int(txBytes[index])
+				index++
+				if redeemLen == 0xFD {
+					if index+2 > limit {
+						return nil, errors.New("Invalid transaction data!")
 					}
-				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
+					index += 2
 				}
+				index += redeemLen
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index > limit || txBytes[index-1] != OpCheckMultiSig {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
-				index += redeemLen
+				rawTx.Vins[i].scriptMulti = txBytes[start:index]
 			}
 		}
 	}
diff --git a/omniTransaction/txUtils.go b/omniTransaction/txUtils.go
index 2cfe632..81ecaa9 100644
--- a/omniTransaction/txUtils.go
+++ b/omniTransaction/txUtils.go
@@ -65,6 +65,14 @@ func bigEndianBytesToUint16(data []byte) uint16 {
 	return binary.BigEndian.Uint16(data)
 }
 
+//scriptLenBytes the length of a script as the network's variable length integer
+func scriptLenBytes(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
+
 //uint32ToLittleEndianBytes
 func uint32ToLittleEndianBytes(data uint32) []byte {
 	tmp := [4]byte{}
diff --git a/zencashTransaction/SignaturePubkey.go b/zencashTransaction/SignaturePubkey.go
index 1115e0d..2e5060d 100644
--- a/zencashTransaction/SignaturePubkey.go
+++ b/zencashTransaction/SignaturePubkey.go
@@ -193,7 +193,7 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 		return nil, 0, errors.New("Invalid script data!")
 	}
 
-	sig := script[index : index+int(rLen)]
+	sig := append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		sig = sig[1:]
 	}
@@ -316,7 +316,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
diff --git a/zencashTransaction/transaction.go b/zencashTransaction/transaction.go
index 7c7f156..12814fd 100644
--- a/zencashTransaction/transaction.go
+++ b/zencashTransaction/transaction.go
@@ -1,9 +1,9 @@
 package zencashTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
-	"github.com/blocktree/go-owcrypt"
 )
 
 type Vin struct {
@@ -94,22 +94,8 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
-	segwit := false
-
-	if segwit && !SegwitON {
-		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
-	}
-	emptyTrans.Witness = segwit
-
-	for i := 0; i < len(emptyTrans.Vins); i++ {
-		emptyTrans.Vins[i].inType = int(TypeP2PKH)
-		emptyTrans.Vins[i].scriptPub = nil
-		script, err := txHashes[i].encodeToScript(nil, SegwitON)
-		if err != nil {
-			return "", err
-		}
-		emptyTrans.Vins[i].scriptSig = script
-
+	if err = emptyTrans.insertSignatures(txHashes, unlockData, SegwitON); err != nil {
+		return "", err
 	}
 
 	ret, err := emptyTrans.encodeToBytes(SegwitON)
@@ -143,48 +129,46 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
-			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
-				return false
-			}
-
-			txHash[i].Normal.SigPub = *sigpub
-			txHash[i].Normal.SigType = sigType
-		} else if signedTrans.Vins[i].inType == TypeMultiSig {
-			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
-				return false
-			}
-			for j := 0; j < len(sigpub); j++ {
-				txHash[i].Multi[j].SigPub = sigpub[j]
-				txHash[i].Multi[j].SigType = sigType[j]
-			}
+		if !txHash[i].matchSignatures(signedTrans.Vins[i], unlockData[i], SegwitON) {
+			return false
 		}
 	}
 
-	for _, t := range txHash {
-		th, _ := hex.DecodeString(t.Hash)
-		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
-				return false
-			}
-		} else {
-			count := 0
-			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
-						count++
-						break
-					}
-				}
-			}
-			if count != int(t.NRequired) {
-				return false
-			}
+	//the transaction must be what these signatures and the unlock data make of it
+	if emptyTrans.insertSignatures(txHash, unlockData, SegwitON) != nil {
+		return false
+	}
+	expected, err := emptyTrans.encodeToBytes(SegwitON)
+
+	return err == nil && bytes.Equal(expected, txBytes)
+}
+
+//insertSignatures set the unlocking script of every input
+func (t *Transaction) insertSignatures(txHashes []TxHash, unlockData []TxUnlock, SegwitON bool) error {
+	if len(txHashes) != len(t.Vins) || len(unlockData) != len(t.Vins) {
+		return errors.New("The number of transaction inputs and the signature data are not match!")
+	}
+
+	segwit := false
+
+	if segwit && !SegwitON {
+		return errors.New("Segwit transaction found while SegwitON is set to false!")
+	}
+	t.Witness = segwit
+
+	for i := 0; i < len(t.Vins); i++ {
+		if txHashes[i].IsMultisig() {
+			return errors.New("Multisig data found for a p2pkh input!")
+		}
+		t.Vins[i].inType = int(TypeP2PKH)
+		t.Vins[i].scriptPub = nil
+		script, err := txHashes[i].encodeToScript(nil, SegwitON)
+		if err != nil {
+			return err
 		}
+		t.Vins[i].scriptSig = script
+
 	}
-	return true
+
+	return nil
 }
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index cfa6039..192c1eb 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -38,6 +38,9 @@ func (tx TxHash) GetTxHashHex() string {
 }
 
 func (tx TxHash) GetNormalTxAddress() string {
+	if tx.Normal == nil {
+		return ""
+	}
 	return tx.Normal.Address
 }
 
@@ -76,7 +79,7 @@ func newTxHash(hash, lockscript, redeem []byte, inType, sigType byte, addressPre
 		}
 		return &TxHash{hex.EncodeToString(hash), nRequired, nil, multiTx}, nil
 	}
-	return nil, nil
+	return nil, errors.New("The type of lockScript is not supported!")
 }
 
 func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, error) {
@@ -166,7 +169,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLenBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
@@ -260,7 +263,10 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 		//if err != nil {
 		//	return nil, err
 		//}
-		lockBytes, _ := hex.DecodeString(unlockData[i].LockScript)
+		lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+		if err != nil || len(lockBytes) < 25 || lockBytes[0] != OpCodeDup || lockBytes[1] != OpCodeHash160 || lockBytes[2] != 0x14 || lockBytes[23] != OpCodeEqualVerify || lockBytes[24] != OpCodeCheckSig {
+			return nil, errors.New("Unknown type of lockScript!")
+		}
 
 		sigBytes, err := t.getBytesForSig(lockBytes, nil, TypeP2PKH, unlockData[i].SigType, i, unlockData[i].Amount, SegwitON)
 		if err != nil {
@@ -281,6 +287,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
@@ -327,7 +336,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(scriptLenBytes(redeemLen), ret...)
 	}
 
 	count = 0
@@ -353,7 +362,35 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		//the number of witness items
+		ret = append([]byte{count + 2}, ret...)
 	}
 
 	return ret, nil
 }
+
+//matchSignatures take over the signature of a signed input if it unlocks the output being spent
+func (t *TxHash) matchSignatures(in TxIn, unlock TxUnlock, SegwitON bool) bool {
+	if in.inType != TypeP2PKH {
+		return false
+	}
+	hash, err := hex.DecodeString(t.Hash)
+	if err != nil {
+		return false
+	}
+	sigPub, _, err := decodeFromScriptBytes(in.scriptSig)
+	if err != nil {
+		return false
+	}
+	t.Normal.SigPub = *sigPub
+	return verifySignature(sigPub.Pubkey, hash, sigPub.Signature)
+}
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 || len(signature) != 64 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
diff --git a/zencashTransaction/txIn.go b/zencashTransaction/txIn.go
index 6805de4..d1fffc1 100644
--- a/zencashTransaction/txIn.go
+++ b/zencashTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, scriptLenBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index a7ae300..a74484c 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -100,131 +100,37 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	return nRequired, pubkeys, nil
 }
 
-func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
-
-	var sp []SignaturePubkey
-	var st []byte
-	if script == nil || len(script) == 0 {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
+//decodeMultiBytes take the signatures out of an unlocking script (legacy) or witness (segwit)
+func decodeMultiBytes(script []byte, SegwitON bool) ([][]byte, error) {
 	limit := len(script)
 	index := 0
-	length := 0
-
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-
-	if script[index] == 0 {
-
-	} else if script[index] == 0xFD {
-		index++
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		length = int(littleEndianBytesToUint16(script[index : index+2]))
-		index += 2
-		if length+3 != limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-	} else {
-		length = int(script[index])
-		index++
-
-		if length+1 != limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-	}
-	if script[index] != 0x00 {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	index++
 
-	for {
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		sigLen := script[index]
-		if script[index+1] != 0x30 {
-			break
-		}
-		if index+int(sigLen)+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		sig, sigType, err := decodeSignatureFromScript(script[index : index+int(sigLen)+1])
-		if err != nil {
-			return nil, nil, err
-		}
-		sp = append(sp, SignaturePubkey{sig, nil})
-		st = append(st, sigType)
-		index += int(sigLen + 1)
-	}
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	redeemLen := 0
-	if script[index] == OpPushData1 {
-		index++
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		redeemLen = int(script[index])
-		index++
-	} else if script[index] == OpPushData2 {
-		index++
-		if index+2 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		redeemLen = int(littleEndianBytesToUint16(script[index : index+2]))
-		index += 2
-	} else {
-		redeemLen = int(script[index])
+	if SegwitON {
+		//number of witness items
 		index++
+	} else if limit > 0 && script[0] == 0xFD {
+		//length of a long script
+		index += 3
 	}
 
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
+	if index+1 > limit || script[index] != 0x00 {
+		return nil, errors.New("Invalid multisig script data!")
 	}
-	required := script[index] + 1 - OpCode_1
 	index++
 
-	if int(required) != len(sp) {
-		return nil, nil, errors.New("Multisig not completely signed!")
-	}
-
-	if index+int(redeemLen)-1 != limit {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-
-	if script[len(script)-1] != OpCheckMultiSig {
-		return nil, nil, errors.New("Invalid multisig script data!")
-	}
-	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
-	pscript := script[index : len(script)-2]
-
-	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
-			sp = append(sp, SignaturePubkey{nil, nil})
-			st = append(st, 0)
-		}
-	}
-
-	index = 0
-	limit = redeemLen
-	for i := 0; i < pubkeys; i++ {
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
-		}
-		if pscript[index] != 0x21 {
-			return nil, nil, errors.New("Invalid multisig script data!")
+	var sigs [][]byte
+	for index+2 <= limit && script[index+1] == 0x30 {
+		end := index + int(script[index]) + 1
+		if end > limit {
+			return nil, errors.New("Invalid multisig script data!")
 		}
-		index++
-		if index+0x21 > limit {
-			return nil, nil, errors.New("Invalid multisig script data!")
+		sig, _, err := decodeSignatureFromScript(script[index:end])
+		if err != nil {
+			return nil, err
 		}
-		sp[i].Pubkey = pscript[index : index+0x21]
-		index += 0x21
+		sigs = append(sigs, sig)
+		index = end
 	}
 
-	return sp, st, nil
+	return sigs, nil
 }
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index 288d62a..2e1c0a2 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -184,7 +184,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
@@ -201,7 +201,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -217,6 +217,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
@@ -289,89 +292,39 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
+				//number of items, an empty one, the signatures and the redeem script
+				start := index
+				items := int(txBytes[index])
 				index++
-				if !SegwitON {
-					scriptLen := int(txBytes[index])
-					if scriptLen == 0xFD {
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						scriptLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
-						index += 3
-					} else if scriptLen > 0xFD {
-						return nil, errors.New("Invalid transaction data!")
-					} else {
-						index++
-					}
-				}
-
-				if txBytes[index] != 0x00 {
+				if items < 3 || index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
-				for {
-					if index+2 > limit {
-						return nil, errors.New("Invalid transaction data!")
-					}
-					if txBytes[index+1] != 0x30 {
-						break
-					}
-					sigLen := txBytes[index]
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
-					index++
-					if index+int(sigLen) > limit {
+				for ; items > 2; items-- {
+					if index+1 > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
-					index += int(sigLen)
+					index += int(txBytes[index]) + 1
 				}
 				if index+1 > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				redeemLen := 0
-				if !SegwitON {
-					if txBytes[index] == OpPushData1 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1)
-						index++
-						if index+1 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					} else if txBytes[index] == OpPushData2 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
-						index++
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+2]...)
-						index += 2
-					} else {
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
+				redeemLen := int(txBytes[index])
+				index++
+				if redeemLen == 0xFD {
+					if index+2 > limit {
+						return nil, errors.New("Invalid transaction data!")
 					}
-				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
+					index += 2
 				}
+				index += redeemLen
 
-				if index+int(redeemLen) > limit {
+				if redeemLen == 0 || index > limit || txBytes[index-1] != OpCheckMultiSig {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
-				index += redeemLen
+				rawTx.Vins[i].scriptMulti = txBytes[start:index]
 			}
 		}
 	}
diff --git a/zencashTransaction/txUtils.go b/zencashTransaction/txUtils.go
index 6ce82e7..7072c1c 100644
--- a/zencashTransaction/txUtils.go
+++ b/zencashTransaction/txUtils.go
@@ -55,6 +55,14 @@ func littleEndianBytesToUint16(data []byte) uint16 {
 	return binary.LittleEndian.Uint16(data)
 }
 
+//scriptLenBytes the length of a script as the network's variable length integer
+func scriptLenBytes(length int) []byte {
+	if length < 0xFD {
+		return []byte{byte(length)}
+	}
+	return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(length))...)
+}
+
 //uint32ToLittleEndianBytes
 func uint32ToLittleEndianBytes(data uint32) []byte {
 	tmp := [4]byte{}
-- 
2.43.0


From 34f47870a3078fd1af51a09f99912d82a1fad793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:52 +0000
Subject: [PATCH 25/45] fix: aliencoin, verge and vollar transactions: short or
 long txids, scripts, hashes and counts were written as they were, foreign
 keys verified, aliencoin signatures with leading zeros were mis-encoded, bad
 keys panicked

---
 aliencoinTransaction/transaction.go |  7 +++++--
 aliencoinTransaction/txIn.go        | 14 ++++++++++++--
 aliencoinTransaction/txOut.go       |  2 +-
 aliencoinTransaction/txSigPub.go    |  4 ++--
 aliencoinTransaction/txStruct.go    | 12 +++++++++++-
 vergeTransaction/transaction.go     |  7 +++++--
 vergeTransaction/txIn.go            | 14 ++++++++++++--
 vergeTransaction/txOut.go           |  2 +-
 vergeTransaction/txStruct.go        | 15 ++++++++++++++-
 vollarTransaction/transaction.go    | 15 ++++++++-------
 vollarTransaction/txIn.go           | 14 ++++++++++++--
 vollarTransaction/txOut.go          |  2 +-
 vollarTransaction/txStruct.go       |  7 +++++++
 13 files changed, 91 insertions(+), 24 deletions(-)

diff --git a/aliencoinTransaction/transaction.go b/aliencoinTransaction/transaction.go
index 659d15b..fe3d318 100644
--- a/aliencoinTransaction/transaction.go
+++ b/aliencoinTransaction/transaction.go
@@ -64,8 +64,11 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPubs []SigPub) (bool, str
 	}
 	for index := 0; index < len(sigPubs); index++ {
 		hashBytes, _ := hex.DecodeString(hashes[index])
-		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) != 65 || !txStruct.Vin[index].isOwnedBy(sigPubs[index].Pubkey) {
+			return false, "", errors.New("verify transaction failed!")
+		}
+		if owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, "", errors.New("verify transaction failed!")
 		}
 		txStruct.Vin[index].SigPub = &sigPubs[index]
diff --git a/aliencoinTransaction/txIn.go b/aliencoinTransaction/txIn.go
index 0d1c7d6..dcc1975 100644
--- a/aliencoinTransaction/txIn.go
+++ b/aliencoinTransaction/txIn.go
@@ -1,9 +1,12 @@
 package aliencoinTransaction
 
 import (
+	"bytes"
 	"encoding/binary"
 	"encoding/hex"
 	"errors"
+
+	"github.com/blocktree/go-owcrypt"
 )
 
 type TxIn struct {
@@ -16,14 +19,14 @@ type TxIn struct {
 
 func (in Vin) NewTxIn() (*TxIn, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid txid!")
 	}
 
 	vout := make([]byte, 4)
 	binary.LittleEndian.PutUint32(vout[:], in.Vout)
 	lockScript, err := hex.DecodeString(in.LockScript)
-	if err != nil {
+	if err != nil || len(lockScript) == 0 || len(lockScript) > 0xFC {
 		return nil, errors.New("invalid lock script!")
 	}
 	lockScript = append([]byte{byte(len(lockScript))}, lockScript...)
@@ -36,6 +39,13 @@ func (in Vin) NewTxIn() (*TxIn, error) {
 	}, nil
 }
 
+//isOwnedBy the output being spent is locked by the hash of the public key
+func (in TxIn) isOwnedBy(pubkey []byte) bool {
+	script := append([]byte{0x19, 0x76, 0xa9, 0x14}, owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160)...)
+	script = append(script, 0x88, 0xAC)
+	return bytes.Equal(script, in.LockScript)
+}
+
 func (in TxIn) ToBytes() []byte {
 	ret := []byte{}
 	ret = append(ret, in.TxID...)
diff --git a/aliencoinTransaction/txOut.go b/aliencoinTransaction/txOut.go
index b4a79e0..b249e8c 100644
--- a/aliencoinTransaction/txOut.go
+++ b/aliencoinTransaction/txOut.go
@@ -18,7 +18,7 @@ func (out Vout) NewTxOut() (*TxOut, error) {
 
 	prefix, lockScript, err := DecodeCheck(out.Address)
 
-	if err != nil {
+	if err != nil || len(lockScript) != 0x14 {
 		return nil, errors.New("Invalid address to send!")
 	}
 
diff --git a/aliencoinTransaction/txSigPub.go b/aliencoinTransaction/txSigPub.go
index e36fdda..64a3389 100644
--- a/aliencoinTransaction/txSigPub.go
+++ b/aliencoinTransaction/txSigPub.go
@@ -43,7 +43,7 @@ func (sp SigPub) ToBytes() []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[i] == 0 {
+			if r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -54,7 +54,7 @@ func (sp SigPub) ToBytes() []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[i] == 0 {
+			if s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/aliencoinTransaction/txStruct.go b/aliencoinTransaction/txStruct.go
index 5847351..9fcdd2f 100644
--- a/aliencoinTransaction/txStruct.go
+++ b/aliencoinTransaction/txStruct.go
@@ -24,6 +24,13 @@ func NewTxStruct(vins []Vin, vouts []Vout, lockTime uint32) (*TxStruct, error) {
 
 	ret.LockTime = uint32ToLittleEndianBytes(lockTime)
 
+	if len(vins) == 0 || len(vins) > 0xFC {
+		return nil, errors.New("invalid number of inputs!")
+	}
+	if len(vouts) == 0 || len(vouts) > 0xFC {
+		return nil, errors.New("invalid number of outputs!")
+	}
+
 	for _, in := range vins {
 		txin, err := in.NewTxIn()
 		if err != nil {
@@ -186,7 +193,10 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 
 	for i := 0; i < len(txStruct.Vin); i++ {
-		lock, _ := hex.DecodeString(dataArray[i+1])
+		lock, err := hex.DecodeString(dataArray[i+1])
+		if err != nil || len(lock) == 0 || len(lock) > 0xFC {
+			return nil, nil, errors.New("invalid transaction data!")
+		}
 		lock = append([]byte{byte(len(lock))}, lock...)
 		txStruct.Vin[i].LockScript = lock
 	}
diff --git a/vergeTransaction/transaction.go b/vergeTransaction/transaction.go
index 3663478..0877a8d 100644
--- a/vergeTransaction/transaction.go
+++ b/vergeTransaction/transaction.go
@@ -64,8 +64,11 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPubs []SigPub) (bool, str
 	}
 	for index := 0; index < len(sigPubs); index++ {
 		hashBytes, _ := hex.DecodeString(hashes[index])
-		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) != 65 || !txStruct.Vin[index].isOwnedBy(sigPubs[index].Pubkey) {
+			return false, "", errors.New("verify transaction failed!")
+		}
+		if owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, "", errors.New("verify transaction failed!")
 		}
 		txStruct.Vin[index].SigPub = &sigPubs[index]
diff --git a/vergeTransaction/txIn.go b/vergeTransaction/txIn.go
index bb6dc21..0bfd0a8 100644
--- a/vergeTransaction/txIn.go
+++ b/vergeTransaction/txIn.go
@@ -1,9 +1,12 @@
 package vergeTransaction
 
 import (
+	"bytes"
 	"encoding/binary"
 	"encoding/hex"
 	"errors"
+
+	"github.com/blocktree/go-owcrypt"
 )
 
 type TxIn struct {
@@ -16,14 +19,14 @@ type TxIn struct {
 
 func (in Vin) NewTxIn() (*TxIn, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid txid!")
 	}
 
 	vout := make([]byte, 4)
 	binary.LittleEndian.PutUint32(vout[:], in.Vout)
 	lockScript, err := hex.DecodeString(in.LockScript)
-	if err != nil {
+	if err != nil || len(lockScript) == 0 || len(lockScript) > 0xFC {
 		return nil, errors.New("invalid lock script!")
 	}
 	lockScript = append([]byte{byte(len(lockScript))}, lockScript...)
@@ -36,6 +39,13 @@ func (in Vin) NewTxIn() (*TxIn, error) {
 	}, nil
 }
 
+//isOwnedBy the output being spent is locked by the hash of the public key
+func (in TxIn) isOwnedBy(pubkey []byte) bool {
+	script := append([]byte{0x19, 0x76, 0xa9, 0x14}, owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160)...)
+	script = append(script, 0x88, 0xAC)
+	return bytes.Equal(script, in.LockScript)
+}
+
 func (in TxIn) ToBytes() []byte {
 	ret := []byte{}
 	ret = append(ret, in.TxID...)
diff --git a/vergeTransaction/txOut.go b/vergeTransaction/txOut.go
index 85b9481..c93b376 100644
--- a/vergeTransaction/txOut.go
+++ b/vergeTransaction/txOut.go
@@ -18,7 +18,7 @@ func (out Vout) NewTxOut() (*TxOut, error) {
 
 	prefix, lockScript, err := DecodeCheck(out.Address)
 
-	if err != nil {
+	if err != nil || len(lockScript) != 0x14 {
 		return nil, errors.New("Invalid address to send!")
 	}
 
diff --git a/vergeTransaction/txStruct.go b/vergeTransaction/txStruct.go
index 08f324f..e7ed35e 100644
--- a/vergeTransaction/txStruct.go
+++ b/vergeTransaction/txStruct.go
@@ -24,11 +24,21 @@ func NewTxStruct(vins []Vin, vouts []Vout, timeInterval, lockTime uint32) (*TxSt
 	ret := TxStruct{Version: DefaultTxVersion}
 
 	timeuntil := uint32(time.Now().Unix())
+	if timeuntil+timeInterval < timeuntil {
+		return nil, errors.New("invalid time interval!")
+	}
 	timeuntil += timeInterval
 
 	ret.TimeInterval = uint32ToLittleEndianBytes(timeuntil)
 	ret.LockTime = uint32ToLittleEndianBytes(lockTime)
 
+	if len(vins) == 0 || len(vins) > 0xFC {
+		return nil, errors.New("invalid number of inputs!")
+	}
+	if len(vouts) == 0 || len(vouts) > 0xFC {
+		return nil, errors.New("invalid number of outputs!")
+	}
+
 	for _, in := range vins {
 		txin, err := in.NewTxIn()
 		if err != nil {
@@ -199,7 +209,10 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 
 	for i := 0; i < len(txStruct.Vin); i++ {
-		lock, _ := hex.DecodeString(dataArray[i+1])
+		lock, err := hex.DecodeString(dataArray[i+1])
+		if err != nil || len(lock) == 0 || len(lock) > 0xFC {
+			return nil, nil, errors.New("invalid transaction data!")
+		}
 		lock = append([]byte{byte(len(lock))}, lock...)
 		txStruct.Vin[i].LockScript = lock
 	}
diff --git a/vollarTransaction/transaction.go b/vollarTransaction/transaction.go
index 6a52069..e2843e0 100644
--- a/vollarTransaction/transaction.go
+++ b/vollarTransaction/transaction.go
@@ -61,7 +61,7 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 	}
 	for index := 0; index < len(lockScripts); index++ {
 		ls, err := hex.DecodeString(lockScripts[index])
-		if err != nil {
+		if err != nil || len(ls) > 0xFC {
 			return false, "", errors.New("invalid lock script!")
 		}
 		trans.Vin[index].LockScript = append([]byte{byte(len(ls))}, ls...)
@@ -72,13 +72,14 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 		return false, "", err
 	}
 
-	pass := true
-
 	for i := 0; i < len(sigPub); i++ {
 		hash, _ := hex.DecodeString(hashes[i])
-		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
-			pass = false
+		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) != 65 || !trans.Vin[i].isOwnedBy(sigPub[i].Pubkey) {
+			return false, "", errors.New("verify transaction failed!")
+		}
+		if owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+			return false, "", errors.New("verify transaction failed!")
 		}
 		trans.Vin[i].SigPub = &sigPub[i]
 	}
@@ -87,5 +88,5 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 	for index := 0; index < 82+len(trans.Vin); index++ {
 		txBytes = append(txBytes, byte(0))
 	}
-	return pass, hex.EncodeToString(txBytes), nil
+	return true, hex.EncodeToString(txBytes), nil
 }
diff --git a/vollarTransaction/txIn.go b/vollarTransaction/txIn.go
index 61b9a11..5c5f70a 100644
--- a/vollarTransaction/txIn.go
+++ b/vollarTransaction/txIn.go
@@ -1,9 +1,12 @@
 package vollarTransaction
 
 import (
+	"bytes"
 	"encoding/binary"
 	"encoding/hex"
 	"errors"
+
+	"github.com/blocktree/go-owcrypt"
 )
 
 type TxIn struct {
@@ -16,14 +19,14 @@ type TxIn struct {
 
 func (in Vin) NewTxIn() (*TxIn, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid txid!")
 	}
 
 	vout := make([]byte, 4)
 	binary.LittleEndian.PutUint32(vout[:], in.Vout)
 	lockScript, err := hex.DecodeString(in.LockScript)
-	if err != nil {
+	if err != nil || len(lockScript) == 0 || len(lockScript) > 0xFC {
 		return nil, errors.New("invalid lock script!")
 	}
 	lockScript = append([]byte{byte(len(lockScript))}, lockScript...)
@@ -36,6 +39,13 @@ func (in Vin) NewTxIn() (*TxIn, error) {
 	}, nil
 }
 
+//isOwnedBy the output being spent is locked by the hash of the public key
+func (in TxIn) isOwnedBy(pubkey []byte) bool {
+	script := append([]byte{0x19, 0x76, 0xa9, 0x14}, owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160)...)
+	script = append(script, 0x88, 0xAC)
+	return bytes.Equal(script, in.LockScript)
+}
+
 func (in TxIn) ToBytes() []byte {
 	ret := []byte{}
 	ret = append(ret, in.TxID...)
diff --git a/vollarTransaction/txOut.go b/vollarTransaction/txOut.go
index f0d0d03..6501866 100644
--- a/vollarTransaction/txOut.go
+++ b/vollarTransaction/txOut.go
@@ -23,7 +23,7 @@ type TxOut struct {
 func (out Vout) NewTxOut() (*TxOut, error) {
 	prefix, lockScript, err := DecodeCheck(out.Address)
 
-	if err != nil {
+	if err != nil || len(lockScript) != 0x14 {
 		return nil, errors.New("Invalid address to send!")
 	}
 
diff --git a/vollarTransaction/txStruct.go b/vollarTransaction/txStruct.go
index a173894..d253faa 100644
--- a/vollarTransaction/txStruct.go
+++ b/vollarTransaction/txStruct.go
@@ -22,6 +22,13 @@ type TxStruct struct {
 func NewTxStruct(vins []Vin, vouts []Vout) (*TxStruct, error) {
 	ret := TxStruct{Version: DefaultTxVersion, Flag: DefaultTxFlag}
 
+	if len(vins) == 0 || len(vins) > 0xFC {
+		return nil, errors.New("invalid number of inputs!")
+	}
+	if len(vouts) == 0 || len(vouts) > 0xFC {
+		return nil, errors.New("invalid number of outputs!")
+	}
+
 	for _, in := range vins {
 		txin, err := in.NewTxIn()
 		if err != nil {
-- 
2.43.0


From e891137655ef810cd07c4a9997f14d5b5c7acd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:45 +0000
Subject: [PATCH 26/45] fix: hypercash dropped the requested tree and script
 version, verified foreign keys and combined malformed transactions, short
 input panicked

---
 hypercashTransaction/TxStruct.go    | 19 +++++++++++++++++--
 hypercashTransaction/transaction.go | 24 ++++++++++++++++++------
 hypercashTransaction/txIn.go        |  7 +++++--
 hypercashTransaction/txOut.go       |  2 +-
 4 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/hypercashTransaction/TxStruct.go b/hypercashTransaction/TxStruct.go
index 6e7a25b..c893139 100644
--- a/hypercashTransaction/TxStruct.go
+++ b/hypercashTransaction/TxStruct.go
@@ -21,11 +21,11 @@ func NewTxStruct(ins []Vin, outs []Vout, locktime, expiry uint32) (*TxStruct, er
 
 	txStruct.TxVersion = uint16ToLittleEndianBytes(DefaultTxVersion)
 
-	if ins == nil || len(ins) == 0 {
+	if ins == nil || len(ins) == 0 || len(ins) > 0xFC {
 		return nil, errors.New("Missing input!")
 	}
 
-	if outs == nil || len(outs) == 0 {
+	if outs == nil || len(outs) == 0 || len(outs) > 0xFC {
 		return nil, errors.New("Missing output!")
 	}
 
@@ -158,5 +158,20 @@ func GetVinList(emptyTrans string) ([]Vin, error) {
 		})
 	}
 
+	if index + 1 > limit {
+		return nil, errors.New("Invalid transaction hex!")
+	}
+	count = int(tx[index])
+	index ++
+	for i := 0; i < count; i ++ {
+		if index + 11 > limit {
+			return nil, errors.New("Invalid transaction hex!")
+		}
+		index += 11 + int(tx[index+10])
+	}
+	if index + 8 != limit {
+		return nil, errors.New("Invalid transaction hex!")
+	}
+
 	return ret, nil
 }
\ No newline at end of file
diff --git a/hypercashTransaction/transaction.go b/hypercashTransaction/transaction.go
index 0af3a30..04d0272 100644
--- a/hypercashTransaction/transaction.go
+++ b/hypercashTransaction/transaction.go
@@ -120,9 +120,8 @@ func SignTransaction(hashStr string, prikey []byte) ([]byte, error) {
 	if retCode != owcrypt.SUCCESS {
 		return nil, errors.New("Failed in signature!")
 	}
-	serilizeS(signature)
 
-	return signature, nil
+	return serilizeS(signature), nil
 }
 
 func VerifyAndCombineTransaction(emptyTrans string, sigPub []*SigPub) (bool, string) {
@@ -135,6 +134,9 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []*SigPub) (bool, str
 	if len(transData) - 1 != len(sigPub) {
 		return false, ""
 	}
+	if _, err := GetVinList(emptyTrans); err != nil {
+		return false, ""
+	}
 
 	txBytes, err := hex.DecodeString(transData[0])
 	if err != nil {
@@ -158,7 +160,7 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []*SigPub) (bool, str
 	prefixHash := owcrypt.Hash(txBytes, 0, owcrypt.HASH_ALG_BLAKE256)
 	for i, data := range transData[1:] {
 		sepStr := strings.Split(data, "/")
-		if sepStr == nil || len(sepStr) != 2 {
+		if sepStr == nil || len(sepStr) != 2 || sigPub[i] == nil {
 			return false, ""
 		}
 
@@ -184,14 +186,24 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []*SigPub) (bool, str
 
 		hash := owcrypt.Hash(hashData, 0, owcrypt.HASH_ALG_BLAKE256)
 
-		pubkey := owcrypt.PointDecompress(sigPub[i].PublicKey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+		pubkey := owcrypt.PointDecompress(sigPub[i].PublicKey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) != 65 {
+			return false, ""
+		}
+
+		//the output being spent is locked by the hash of the public key
+		pkHash := owcrypt.Hash(sigPub[i].PublicKey, 0, owcrypt.HASH_ALG_BLAKE256)
+		pkHash = owcrypt.Hash(pkHash, 0, owcrypt.HASH_ALG_RIPEMD160)
+		if sepStr[0] != "1976a914" + hex.EncodeToString(pkHash) + "88ac" {
+			return false, ""
+		}
 
-		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
+		if owcrypt.SUCCESS != owcrypt.Verify(pubkey[1:], nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, ""
 		}
 
 		sigScript, err := hex.DecodeString(sepStr[1])
-		if err != nil {
+		if err != nil || len(sigScript) != 16 {
 			return false, ""
 		}
 
diff --git a/hypercashTransaction/txIn.go b/hypercashTransaction/txIn.go
index c50d1fe..2284608 100644
--- a/hypercashTransaction/txIn.go
+++ b/hypercashTransaction/txIn.go
@@ -25,7 +25,10 @@ func (in Vin) NewTxIn() (*TxIn, error) {
 
 	txIn.Vout = uint32ToLittleEndianBytes(in.Vout)
 
-	txIn.TxTree = TxTreeRegular
+	if in.Tree != TxTreeRegular && in.Tree != TxTreeStake {
+		return nil, errors.New("Invalid transaction tree!")
+	}
+	txIn.TxTree = in.Tree
 
 	txIn.Sequence = []byte{0xff, 0xff, 0xff, 0xff}
 
@@ -34,7 +37,7 @@ func (in Vin) NewTxIn() (*TxIn, error) {
 	txIn.SignatureScript = append(txIn.SignatureScript, uint32ToLittleEndianBytes(in.BlockIndex)...)
 
 	lockscript,err := hex.DecodeString(in.LockScript)
-	if err != nil {
+	if err != nil || len(lockscript) == 0 || len(lockscript) > 0xFC {
 		return nil, errors.New("Invalid lock script!")
 	}
 
diff --git a/hypercashTransaction/txOut.go b/hypercashTransaction/txOut.go
index c9a0596..efb859d 100644
--- a/hypercashTransaction/txOut.go
+++ b/hypercashTransaction/txOut.go
@@ -12,7 +12,7 @@ func (out Vout) NewTxOut() (*TxOut, error) {
 	var txOut TxOut
 
 	txOut.Amount = uint64ToLittleEndianBytes(out.Amount)
-	txOut.PkScriptVersion = uint16ToLittleEndianBytes(DefaultPkScriptVersion)
+	txOut.PkScriptVersion = uint16ToLittleEndianBytes(out.PkScriptVersion)
 
 	pkPrefix, pkhaash, err := DecodeCheck(out.Address)
 	if err != nil {
-- 
2.43.0


From a585443f3fd7f8fc263b4c6981950b5bc0da1bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:38 +0000
Subject: [PATCH 27/45] fix: ripple wrapped large amounts, tags and memo
 lengths, verified foreign keys and transactions without a place for the
 signature, bad keys panicked

---
 rippleTransaction/transaction.go | 11 ++++++++++-
 rippleTransaction/txStruct.go    | 17 ++++++++++++++++-
 rippleTransaction/txUtils.go     | 16 +++++++++++++++-
 3 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/rippleTransaction/transaction.go b/rippleTransaction/transaction.go
index 7635b80..66456fe 100644
--- a/rippleTransaction/transaction.go
+++ b/rippleTransaction/transaction.go
@@ -41,7 +41,16 @@ func VerifyAndCombinRawTransaction(emptyTrans string, signature, publicKey strin
 	if err != nil {
 		return false, ""
 	}
-	pubkeyBytes = owcrypt.PointDecompress(pubkeyBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	//the signature has to be made by the key the transaction names
+	signingPubKey, err := getSigningPubKeyBytes(publicKey)
+	if err != nil || !strings.HasSuffix(strings.ToLower(strings.Split(emptyTrans, "s")[0]), hex.EncodeToString(signingPubKey)) {
+		return false, ""
+	}
+	pubkeyBytes = owcrypt.PointDecompress(pubkeyBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubkeyBytes) != 65 {
+		return false, ""
+	}
+	pubkeyBytes = pubkeyBytes[1:]
 	if owcrypt.SUCCESS != owcrypt.Verify(pubkeyBytes, nil, hash, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
 	}
diff --git a/rippleTransaction/txStruct.go b/rippleTransaction/txStruct.go
index 37190d4..f050e02 100644
--- a/rippleTransaction/txStruct.go
+++ b/rippleTransaction/txStruct.go
@@ -65,6 +65,9 @@ func getAmountBytes(amount uint64) ([]byte, error) {
 	if amount == 0 {
 		return nil, errors.New("Amount cannot be zero!")
 	}
+	if amount >= 1<<62 {
+		return nil, errors.New("Amount too large!")
+	}
 	enc := getEncBytes(encodings["Amount"])
 	amountValue := newValue(true, false, amount, 0)
 	return append(enc, amountValue.Bytes()...), nil
@@ -74,6 +77,9 @@ func getFeeBytes(fee uint64) ([]byte, error) {
 	if fee == 0 {
 		return nil, errors.New("Fee cannot be zero!")
 	}
+	if fee >= 1<<62 {
+		return nil, errors.New("Fee too large!")
+	}
 	enc := getEncBytes(encodings["Fee"])
 	feeValue := newValue(true, false, fee, 0)
 	return append(enc, feeValue.Bytes()...), nil
@@ -143,6 +149,9 @@ func NewTxStruct(from, pubkey string, sequence uint32, to string, amount, fee ui
 	txStruct.TransactionType = getTransactionTypeBytes(PAYMENT)
 	txStruct.Flags = getFlagsBytes(TxCanonicalSignature)
 	txStruct.Sequence = getSequenceBytes(sequence)
+	if destinationTag > 0xFFFFFFFF {
+		return nil, errors.New("Destination tag too large!")
+	}
 	txStruct.DestinationTag = getDestinationTagBytes(destinationTag)
 	txStruct.LastLedgerSequence = getLastLedgerSequenceBytes(lastLedgerSequence)
 	txStruct.Amount, err = getAmountBytes(amount)
@@ -172,6 +181,9 @@ func NewTxStruct(from, pubkey string, sequence uint32, to string, amount, fee ui
 		return nil, err
 	}
 
+	if len(memoType) > maxVariableLength || len(memoData) > maxVariableLength || len(memoFormat) > maxVariableLength {
+		return nil, errors.New("Memo too long!")
+	}
 	txStruct.Memos = getMemosBytes(memoType, memoData, memoFormat)
 
 	return &txStruct, nil
@@ -221,9 +233,12 @@ func (tx TxStruct) GetHash() []byte {
 }
 
 func getHashFromEmptyRawHex(emptyTrans string) ([]byte, error) {
+	if strings.Count(emptyTrans, "s") != 1 {
+		return nil, errors.New("Invalid empty raw transaction data!")
+	}
 	emptyTrans = strings.Replace(emptyTrans, "s", "", -1)
 	txBytes, err := hex.DecodeString(emptyTrans)
-	if err != nil {
+	if err != nil || len(txBytes) == 0 {
 		return nil, errors.New("Invalid empty raw transaction data!")
 	}
 	data := make([]byte, 4)
diff --git a/rippleTransaction/txUtils.go b/rippleTransaction/txUtils.go
index 67d3f05..2128f03 100644
--- a/rippleTransaction/txUtils.go
+++ b/rippleTransaction/txUtils.go
@@ -113,6 +113,20 @@ func serilizeS(sig []byte) []byte {
 	return sig
 }
 
+//maxVariableLength is the longest content a variable length field can hold
+const maxVariableLength = 918744
+
 func memoToBytes(memo string) []byte {
-	return append([]byte{byte(len(memo))}, []byte(memo)...)
+	var length []byte
+	switch l := len(memo); {
+	case l <= 192:
+		length = []byte{byte(l)}
+	case l <= 12480:
+		l -= 193
+		length = []byte{byte(193 + l>>8), byte(l)}
+	default:
+		l -= 12481
+		length = []byte{byte(241 + l>>16), byte(l >> 8), byte(l)}
+	}
+	return append(length, []byte(memo)...)
 }
-- 
2.43.0


From 715e8c6decc331c9671ac81eeaef64fea089d4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:38 +0000
Subject: [PATCH 28/45] fix: polkadot compact integers from 2^63 on were wrong
 and zero panicked, bad transfer codes and sender keys were dropped

---
 polkadotTransaction/codec.go    |  6 +++---
 polkadotTransaction/txMethod.go |  5 ++++-
 polkadotTransaction/txStruct.go | 10 ++++++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/polkadotTransaction/codec.go b/polkadotTransaction/codec.go
index edd827e..36c920a 100644
--- a/polkadotTransaction/codec.go
+++ b/polkadotTransaction/codec.go
@@ -3,7 +3,7 @@ package polkadotTransaction
 import (
 	"encoding/binary"
 	"encoding/hex"
-	"math/big"
+	"math/bits"
 )
 
 func CompactLength(data uint32) int {
@@ -38,7 +38,7 @@ func uint32ToLittleEndianBytes(data uint32) []byte {
 
 func removeExtraLEBytes(input []byte) []byte {
 	index := len(input)
-	for {
+	for index > 0 {
 		if input[index-1] != 0 {
 			break
 		} else {
@@ -89,7 +89,7 @@ func BytesToCompactBytes(bytes []byte) (res []byte) {
 }
 
 func getLeadingZeros(data uint64) int {
-	return 64 - big.NewInt(int64(data)).BitLen()
+	return bits.LeadingZeros64(data)
 }
 
 func getPrefix(data uint64) string {
diff --git a/polkadotTransaction/txMethod.go b/polkadotTransaction/txMethod.go
index cc85c5c..572a76f 100644
--- a/polkadotTransaction/txMethod.go
+++ b/polkadotTransaction/txMethod.go
@@ -38,7 +38,10 @@ func (mt MethodTransfer) ToBytes(transferCode string) ([]byte, error) {
 		return nil, errors.New("invalid method")
 	}
 
-	ret, _ := hex.DecodeString(transferCode)
+	ret, err := hex.DecodeString(transferCode)
+	if err != nil || len(ret) < 2 {
+		return nil, errors.New("invalid transfer code")
+	}
 	if AccounntIDFollow {
 		ret = append(ret, 0xff)
 	}
diff --git a/polkadotTransaction/txStruct.go b/polkadotTransaction/txStruct.go
index 8f4a389..cec5e51 100644
--- a/polkadotTransaction/txStruct.go
+++ b/polkadotTransaction/txStruct.go
@@ -25,6 +25,12 @@ type TxStruct struct {
 
 func (tx TxStruct) NewTxPayLoad(transfer_code string) (*TxPayLoad, error) {
 	var tp TxPayLoad
+
+	sender, err := hex.DecodeString(tx.SenderPubkey)
+	if err != nil || len(sender) != 32 {
+		return nil, errors.New("invalid sender public key")
+	}
+
 	method, err := NewMethodTransfer(tx.RecipientPubkey, tx.Amount)
 	if err != nil {
 		return nil, err
@@ -115,7 +121,7 @@ func (ts TxStruct) GetSignedTransaction (transfer_code, signature string) (strin
 
 	from, err := hex.DecodeString(ts.SenderPubkey)
 	if err != nil || len(from) != 32 {
-		return "", nil
+		return "", errors.New("invalid sender public key")
 	}
 
 	signed = append(signed, from...)
@@ -124,7 +130,7 @@ func (ts TxStruct) GetSignedTransaction (transfer_code, signature string) (strin
 
 	sig, err := hex.DecodeString(signature)
 	if err != nil || len(sig) != 64 {
-		return "", nil
+		return "", errors.New("invalid signature")
 	}
 	signed = append(signed, sig...)
 
-- 
2.43.0


From 3201f67958da5af7c8978cc02b357dcb86810260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:38 +0000
Subject: [PATCH 29/45] fix: bigbang wrote anchors, counts and data lengths
 that do not fit as they were, empty addresses panicked, line breaks in
 addresses were skipped

---
 bigbangTransaction/address.go   |  2 +-
 bigbangTransaction/txProfile.go |  1 +
 bigbangTransaction/txStruct.go  | 10 +++++++++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/bigbangTransaction/address.go b/bigbangTransaction/address.go
index 680ab08..64603d8 100644
--- a/bigbangTransaction/address.go
+++ b/bigbangTransaction/address.go
@@ -6,7 +6,7 @@ import (
 )
 
 func addressDecode(address string) ([]byte, error) {
-	if address[:1] != pubkeyPrefix {
+	if len(address) != 57 || address[:1] != pubkeyPrefix {
 		return nil, errors.New("Invalid address, only public key address supported!")
 	}
 
diff --git a/bigbangTransaction/txProfile.go b/bigbangTransaction/txProfile.go
index be7d65b..30c32cd 100644
--- a/bigbangTransaction/txProfile.go
+++ b/bigbangTransaction/txProfile.go
@@ -4,6 +4,7 @@ const (
 	DefaultVersion = uint16(1)
 	TxType_Token   = uint16(0)
 	DefaultLockUntil = uint32(0)
+	maxLength = 0xFC
 )
 
 const (
diff --git a/bigbangTransaction/txStruct.go b/bigbangTransaction/txStruct.go
index 539c1c6..cadd393 100644
--- a/bigbangTransaction/txStruct.go
+++ b/bigbangTransaction/txStruct.go
@@ -28,7 +28,7 @@ func NewTxStruct(version, txtype uint16, timestamp, lockUntil uint32, anchor str
 	tx.LockUntil = uint32ToLittleEndianBytes(lockUntil)
 
 	anchorBytes, err := reverseHexToBytes(anchor)
-	if err != nil {
+	if err != nil || len(anchorBytes) != 32 {
 		return nil, errors.New("Invalid anchor string!")
 	}
 	tx.Anchor = anchorBytes
@@ -37,6 +37,14 @@ func NewTxStruct(version, txtype uint16, timestamp, lockUntil uint32, anchor str
 		return nil, errors.New("Miss input!")
 	}
 
+	//counts and lengths are written as one byte
+	if len(inputs) > maxLength {
+		return nil, errors.New("Too many inputs!")
+	}
+	if len(data) > maxLength {
+		return nil, errors.New("Data too long!")
+	}
+
 	for _, in := range inputs {
 		input, err := NewTxIn(in.TxID, in.Vout)
 		if err != nil {
-- 
2.43.0


From 700a5841a2492cccb74c9499f401c2dbc591f528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:38 +0000
Subject: [PATCH 30/45] fix: cosmos and evaio dropped fees behind a zero one
 and changed the caller's fee, sent malformed amounts, verified foreign keys,
 bad keys and addresses panicked, bech32 payloads of most lengths decoded
 wrong

---
 cosmosTransaction/bech32.go      | 45 +++++++++++++---------------
 cosmosTransaction/transaction.go | 26 +++++++++++++++--
 cosmosTransaction/txStruct.go    | 50 +++++++++++++++++++++++++++++---
 evaioTransaction/bech32.go       | 45 +++++++++++++---------------
 evaioTransaction/transaction.go  | 26 +++++++++++++++--
 evaioTransaction/txStruct.go     | 50 +++++++++++++++++++++++++++++---
 6 files changed, 178 insertions(+), 64 deletions(-)

diff --git a/cosmosTransaction/bech32.go b/cosmosTransaction/bech32.go
index 91d2afd..c1a650f 100644
--- a/cosmosTransaction/bech32.go
+++ b/cosmosTransaction/bech32.go
@@ -1,7 +1,6 @@
 package cosmosTransaction
 
 import (
-	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -125,18 +124,22 @@ func extendPayload(payload []int8) []int8 {
 	return ret
 }
 
-func unecxtendPayload(extendedPayload []int8) []int8 {
-	length := len(extendedPayload) * 5 / 8
-
-	ret := make([]int8, length)
-
-	for i := 0; i < len(extendedPayload)-1; i++ {
-		ret[length-1] |= extendedPayload[i]
-		byteShl5(&ret)
+//unecxtendPayload regroups 5 bit values to bytes, up to 4 zero bits of padding are dropped
+func unecxtendPayload(extendedPayload []int8) ([]byte, error) {
+	ret := make([]byte, 0, len(extendedPayload)*5/8)
+	acc, bits := uint(0), uint(0)
+	for _, v := range extendedPayload {
+		acc = (acc<<5 | uint(v)) & 0xFFF
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			ret = append(ret, byte(acc>>bits))
+		}
 	}
-	ret[length-1] |= extendedPayload[len(extendedPayload)-1]
-
-	return ret
+	if bits >= 5 || acc&(1<<bits-1) != 0 {
+		return nil, ErrorInvalidAddress
+	}
+	return ret, nil
 }
 
 func Bech32Encode(prefix, alphabet string, payload []byte) string {
@@ -189,6 +192,10 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if prefixSize == 0 || len(address) < prefixSize+1+6 {
+		return nil, ErrorInvalidAddress
+	}
+
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
@@ -208,17 +215,5 @@ func Bech32Decode(address string) ([]byte, error) {
 	tmp := make([]int8, len(value)-6)
 	copy(tmp, value)
 
-	ret := unecxtendPayload(tmp)
-	bytePayload := make([]byte, len(ret))
-
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
-	}
-
-	if len(bytePayload) == 33 {
-		tmp := hex.EncodeToString(bytePayload)[1:65]
-		bytePayload, _ = hex.DecodeString(tmp)
-	}
-
-	return bytePayload, nil
+	return unecxtendPayload(tmp)
 }
diff --git a/cosmosTransaction/transaction.go b/cosmosTransaction/transaction.go
index 3393e7c..0f5ea21 100644
--- a/cosmosTransaction/transaction.go
+++ b/cosmosTransaction/transaction.go
@@ -1,6 +1,7 @@
 package cosmosTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"encoding/json"
 	"errors"
@@ -12,6 +13,10 @@ import (
 
 func (tx TxStruct) CreateEmptyTransactionAndHash() (string, string, error) {
 
+	if err := tx.check(); err != nil {
+		return "", "", err
+	}
+
 	txBytes, err := json.Marshal(tx)
 	if err != nil {
 		return "", "", errors.New("CreateEmptyTransaction failed!")
@@ -56,11 +61,10 @@ func SignTransactionHash(txHash string, prikey []byte) (string, error) {
 	}
 
 	sig,_, ret := owcrypt.Signature(prikey, nil, hash, owcrypt.ECC_CURVE_SECP256K1)
-	sig = serilizeS(sig)
-
 	if ret != owcrypt.SUCCESS {
 		return "", errors.New("Signature failed!")
 	}
+	sig = serilizeS(sig)
 
 	return hex.EncodeToString(sig), nil
 }
@@ -78,15 +82,31 @@ func VerifyTransactionSig(emptyTrans, signature string, pubkey []byte) bool {
 		return false
 	}
 
+	//the signer has to be the sender
+	var tx TxStruct
+	if err := json.Unmarshal(txBytes, &tx); err != nil || len(tx.Message) == 0 {
+		return false
+	}
+	sender := owcrypt.Hash(owcrypt.PointCompress(pubkey, owcrypt.ECC_CURVE_SECP256K1), 0, owcrypt.HASH_ALG_HASH160)
+	for _, message := range tx.Message {
+		from, err := Bech32Decode(message.Value.FromAddress)
+		if err != nil || !bytes.Equal(from, sender) {
+			return false
+		}
+	}
+
 	return true
 }
 
 func (ts TxStruct) CreateJsonForSend(signature string, pubkey []byte, keyType, sendMode string) (*gjson.Result, error) {
 	pub := NewPub(pubkey, keyType)
 	sigBytes, err := hex.DecodeString(signature)
-	if err != nil {
+	if err != nil || len(sigBytes) != 64 {
 		return nil, errors.New("create json fro send failed!")
 	}
+	if err := ts.check(); err != nil {
+		return nil, err
+	}
 	sig := NewSig(sigBytes, ts.AccountNumber, ts.Sequence, pub)
 
 	tx := NewTx(ts.Message, ts.Memo, ts.Fee, []Sig{sig})
diff --git a/cosmosTransaction/txStruct.go b/cosmosTransaction/txStruct.go
index 85e803a..68e3150 100644
--- a/cosmosTransaction/txStruct.go
+++ b/cosmosTransaction/txStruct.go
@@ -1,6 +1,11 @@
 package cosmosTransaction
 
-import "strconv"
+import (
+	"errors"
+	"strconv"
+	"strings"
+	"unicode/utf8"
+)
 
 type TxStruct struct {
 	AccountNumber string    `json:"account_number"`
@@ -12,15 +17,52 @@ type TxStruct struct {
 }
 
 func NewTxStruct(chainID, memo string, accountNumber, sequence int, fee *FeeStruct, message []Message) TxStruct {
-	if fee.Amount[0].Amount == "" {
-		fee.Amount = Coins{}
+	txFee := FeeStruct{
+		Amount: Coins{},
+		Gas:    fee.Gas,
+	}
+	for _, coin := range fee.Amount {
+		if coin.Amount != "" {
+			txFee.Amount = append(txFee.Amount, coin)
+		}
 	}
 	return TxStruct{
 		AccountNumber: strconv.FormatInt(int64(accountNumber), 10),
 		ChainID:       chainID,
-		Fee:           *fee,
+		Fee:           txFee,
 		Memo:          memo,
 		Message:       message,
 		Sequence:      strconv.FormatInt(int64(sequence), 10),
 	}
 }
+
+//check refuses what the transaction text cannot carry
+func (tx TxStruct) check() error {
+	if len(tx.Message) == 0 {
+		return errors.New("No message to send!")
+	}
+	for _, number := range []string{tx.AccountNumber, tx.Sequence, tx.Fee.Gas} {
+		if _, err := strconv.ParseUint(number, 10, 64); err != nil {
+			return errors.New("Invalid account number, sequence or gas!")
+		}
+	}
+	text := []string{tx.ChainID, tx.Memo}
+	coins := append(Coins{}, tx.Fee.Amount...)
+	for _, message := range tx.Message {
+		if len(message.Value.Amount) == 0 {
+			return errors.New("No amount to send!")
+		}
+		coins = append(coins, message.Value.Amount...)
+		text = append(text, message.Type, message.Value.FromAddress, message.Value.ToAddress)
+	}
+	for _, coin := range coins {
+		if coin.Denom == "" || coin.Amount == "" || strings.Trim(coin.Amount, "0123456789") != "" {
+			return errors.New("Invalid amount!")
+		}
+		text = append(text, coin.Denom)
+	}
+	if !utf8.ValidString(strings.Join(text, "")) {
+		return errors.New("Invalid text!")
+	}
+	return nil
+}
diff --git a/evaioTransaction/bech32.go b/evaioTransaction/bech32.go
index f594278..9c00977 100644
--- a/evaioTransaction/bech32.go
+++ b/evaioTransaction/bech32.go
@@ -1,7 +1,6 @@
 package evaioTransaction
 
 import (
-	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -125,18 +124,22 @@ func extendPayload(payload []int8) []int8 {
 	return ret
 }
 
-func unecxtendPayload(extendedPayload []int8) []int8 {
-	length := len(extendedPayload) * 5 / 8
-
-	ret := make([]int8, length)
-
-	for i := 0; i < len(extendedPayload)-1; i++ {
-		ret[length-1] |= extendedPayload[i]
-		byteShl5(&ret)
+//unecxtendPayload regroups 5 bit values to bytes, up to 4 zero bits of padding are dropped
+func unecxtendPayload(extendedPayload []int8) ([]byte, error) {
+	ret := make([]byte, 0, len(extendedPayload)*5/8)
+	acc, bits := uint(0), uint(0)
+	for _, v := range extendedPayload {
+		acc = (acc<<5 | uint(v)) & 0xFFF
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			ret = append(ret, byte(acc>>bits))
+		}
 	}
-	ret[length-1] |= extendedPayload[len(extendedPayload)-1]
-
-	return ret
+	if bits >= 5 || acc&(1<<bits-1) != 0 {
+		return nil, ErrorInvalidAddress
+	}
+	return ret, nil
 }
 
 func Bech32Encode(prefix, alphabet string, payload []byte) string {
@@ -189,6 +192,10 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if prefixSize == 0 || len(address) < prefixSize+1+6 {
+		return nil, ErrorInvalidAddress
+	}
+
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
@@ -208,17 +215,5 @@ func Bech32Decode(address string) ([]byte, error) {
 	tmp := make([]int8, len(value)-6)
 	copy(tmp, value)
 
-	ret := unecxtendPayload(tmp)
-	bytePayload := make([]byte, len(ret))
-
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
-	}
-
-	if len(bytePayload) == 33 {
-		tmp := hex.EncodeToString(bytePayload)[1:65]
-		bytePayload, _ = hex.DecodeString(tmp)
-	}
-
-	return bytePayload, nil
+	return unecxtendPayload(tmp)
 }
diff --git a/evaioTransaction/transaction.go b/evaioTransaction/transaction.go
index 381e17d..22a2bb9 100644
--- a/evaioTransaction/transaction.go
+++ b/evaioTransaction/transaction.go
@@ -1,6 +1,7 @@
 package evaioTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"encoding/json"
 	"errors"
@@ -12,6 +13,10 @@ import (
 
 func (tx TxStruct) CreateEmptyTransactionAndHash() (string, string, error) {
 
+	if err := tx.check(); err != nil {
+		return "", "", err
+	}
+
 	txBytes, err := json.Marshal(tx)
 	if err != nil {
 		return "", "", errors.New("CreateEmptyTransaction failed!")
@@ -56,11 +61,10 @@ func SignTransactionHash(txHash string, prikey []byte) (string, error) {
 	}
 
 	sig,_, ret := owcrypt.Signature(prikey, nil, hash, owcrypt.ECC_CURVE_SECP256K1)
-	sig = serilizeS(sig)
-
 	if ret != owcrypt.SUCCESS {
 		return "", errors.New("Signature failed!")
 	}
+	sig = serilizeS(sig)
 
 	return hex.EncodeToString(sig), nil
 }
@@ -78,15 +82,31 @@ func VerifyTransactionSig(emptyTrans, signature string, pubkey []byte) bool {
 		return false
 	}
 
+	//the signer has to be the sender
+	var tx TxStruct
+	if err := json.Unmarshal(txBytes, &tx); err != nil || len(tx.Message) == 0 {
+		return false
+	}
+	sender := owcrypt.Hash(owcrypt.PointCompress(pubkey, owcrypt.ECC_CURVE_SECP256K1), 0, owcrypt.HASH_ALG_HASH160)
+	for _, message := range tx.Message {
+		from, err := Bech32Decode(message.Value.FromAddress)
+		if err != nil || !bytes.Equal(from, sender) {
+			return false
+		}
+	}
+
 	return true
 }
 
 func (ts TxStruct) CreateJsonForSend(signature string, pubkey []byte, keyType, sendMode string) (*gjson.Result, error) {
 	pub := NewPub(pubkey, keyType)
 	sigBytes, err := hex.DecodeString(signature)
-	if err != nil {
+	if err != nil || len(sigBytes) != 64 {
 		return nil, errors.New("create json fro send failed!")
 	}
+	if err := ts.check(); err != nil {
+		return nil, err
+	}
 	sig := NewSig(sigBytes, pub)
 
 	tx := NewTx(ts.Message, ts.Memo, ts.Fee, []Sig{sig})
diff --git a/evaioTransaction/txStruct.go b/evaioTransaction/txStruct.go
index 7cbfcae..d6b3c74 100644
--- a/evaioTransaction/txStruct.go
+++ b/evaioTransaction/txStruct.go
@@ -1,6 +1,11 @@
 package evaioTransaction
 
-import "strconv"
+import (
+	"errors"
+	"strconv"
+	"strings"
+	"unicode/utf8"
+)
 
 type TxStruct struct {
 	AccountNumber string    `json:"account_number"`
@@ -12,15 +17,52 @@ type TxStruct struct {
 }
 
 func NewTxStruct(chainID, memo string, accountNumber, sequence int, fee *FeeStruct, message []Message) TxStruct {
-	if fee.Amount[0].Amount == "" {
-		fee.Amount = Coins{}
+	txFee := FeeStruct{
+		Amount: Coins{},
+		Gas:    fee.Gas,
+	}
+	for _, coin := range fee.Amount {
+		if coin.Amount != "" {
+			txFee.Amount = append(txFee.Amount, coin)
+		}
 	}
 	return TxStruct{
 		AccountNumber: strconv.FormatInt(int64(accountNumber), 10),
 		ChainID:       chainID,
-		Fee:           *fee,
+		Fee:           txFee,
 		Memo:          memo,
 		Message:       message,
 		Sequence:      strconv.FormatInt(int64(sequence), 10),
 	}
 }
+
+//check refuses what the transaction text cannot carry
+func (tx TxStruct) check() error {
+	if len(tx.Message) == 0 {
+		return errors.New("No message to send!")
+	}
+	for _, number := range []string{tx.AccountNumber, tx.Sequence, tx.Fee.Gas} {
+		if _, err := strconv.ParseUint(number, 10, 64); err != nil {
+			return errors.New("Invalid account number, sequence or gas!")
+		}
+	}
+	text := []string{tx.ChainID, tx.Memo}
+	coins := append(Coins{}, tx.Fee.Amount...)
+	for _, message := range tx.Message {
+		if len(message.Value.Amount) == 0 {
+			return errors.New("No amount to send!")
+		}
+		coins = append(coins, message.Value.Amount...)
+		text = append(text, message.Type, message.Value.FromAddress, message.Value.ToAddress)
+	}
+	for _, coin := range coins {
+		if coin.Denom == "" || coin.Amount == "" || strings.Trim(coin.Amount, "0123456789") != "" {
+			return errors.New("Invalid amount!")
+		}
+		text = append(text, coin.Denom)
+	}
+	if !utf8.ValidString(strings.Join(text, "")) {
+		return errors.New("Invalid text!")
+	}
+	return nil
+}
-- 
2.43.0


From 7aa734a0a2c45cdf1a3fabb04b05ece5c0ee7e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:38 +0000
Subject: [PATCH 31/45] fix: binance altered large amounts and malformed text,
 verified altered chain ids, surplus messages and foreign keys, malformed
 transactions panicked

---
 binancechainTransaction/msg-send.go    |  4 +-
 binancechainTransaction/transaction.go | 65 +++++++++++++++++++++-----
 2 files changed, 55 insertions(+), 14 deletions(-)

diff --git a/binancechainTransaction/msg-send.go b/binancechainTransaction/msg-send.go
index ad8ca71..51bb23d 100644
--- a/binancechainTransaction/msg-send.go
+++ b/binancechainTransaction/msg-send.go
@@ -13,7 +13,7 @@ func CreateSendMsg(fromAddress, toAddress, denom string, amount int64) (*msg.Sen
 		return nil, err
 	}
 
-	if prefix != Bech32Prefix {
+	if prefix != Bech32Prefix || len(from) != ctypes.AddrLen {
 		return nil, errors.New("Invalid address!")
 	}
 
@@ -22,7 +22,7 @@ func CreateSendMsg(fromAddress, toAddress, denom string, amount int64) (*msg.Sen
 		return nil, err
 	}
 
-	if prefix != Bech32Prefix {
+	if prefix != Bech32Prefix || len(to) != ctypes.AddrLen {
 		return nil, errors.New("Invalid address!")
 	}
 
diff --git a/binancechainTransaction/transaction.go b/binancechainTransaction/transaction.go
index 5115741..b08c461 100644
--- a/binancechainTransaction/transaction.go
+++ b/binancechainTransaction/transaction.go
@@ -1,12 +1,14 @@
 package binancechainTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"encoding/json"
 	"errors"
 	"github.com/binance-chain/go-sdk/types/msg"
 	"github.com/binance-chain/go-sdk/types/tx"
 	"github.com/blocktree/go-owcrypt"
+	"unicode/utf8"
 )
 
 func CreateEmptyTransactionAndHash(from , to, denom string, amount, accountNumber, sequence, source int64, memo string) (string, string, error) {
@@ -26,6 +28,15 @@ func CreateEmptyTransactionAndHash(from , to, denom string, amount, accountNumbe
 
 	emptyTrans := signMsg.Bytes()
 
+	//large amounts and malformed text do not survive the text form
+	_, carried, err := parseEmptyTransaction(string(emptyTrans))
+	if err != nil || carried.Inputs[0].Coins[0] != sendMsg.Inputs[0].Coins[0] || carried.Outputs[0].Coins[0] != sendMsg.Outputs[0].Coins[0] {
+		return "", "", errors.New("Invalid amount, denom or memo!")
+	}
+	if !utf8.ValidString(memo) || !utf8.ValidString(denom) {
+		return "", "", errors.New("Invalid amount, denom or memo!")
+	}
+
 	hash := tx.StdSignBytes(ChainID, accountNumber, sequence, []msg.Msg{sendMsg}, memo, signMsg.Source, signMsg.Data)
 	return string(emptyTrans), hex.EncodeToString(owcrypt.Hash(hash, 0, owcrypt.HASH_ALG_SHA256)), nil
 }
@@ -46,27 +57,47 @@ func SignRawTransaction(hash string, prikey []byte) ([]byte, error) {
 	return signature, nil
 }
 
-func VerifyAndCombineRawTransaction(emptyTrans, signature, pubkey string) (bool, string) {
-	var signMsg tx.StdSignMsg
+//parseEmptyTransaction reads an empty transaction, only the very text CreateEmptyTransactionAndHash makes is accepted
+func parseEmptyTransaction(emptyTrans string) (*tx.StdSignMsg, *msg.SendMsg, error) {
 	var stdSignDoc tx.StdSignDoc
 	var sendMsg msg.SendMsg
 
 	err := tx.Cdc.UnmarshalJSON([]byte(emptyTrans), &stdSignDoc)
 	if err != nil {
-		return false, ""
+		return nil, nil, err
+	}
+	if len(stdSignDoc.Msgs) != 1 || stdSignDoc.ChainID != ChainID {
+		return nil, nil, errors.New("Invalid empty transaction!")
 	}
-	signMsg.Memo = stdSignDoc.Memo
 	err = json.Unmarshal(stdSignDoc.Msgs[0], &sendMsg)
 	if err != nil {
-		return false, ""
+		return nil, nil, err
+	}
+	if len(sendMsg.Inputs) != 1 || len(sendMsg.Outputs) != 1 || len(sendMsg.Inputs[0].Coins) != 1 || len(sendMsg.Outputs[0].Coins) != 1 {
+		return nil, nil, errors.New("Invalid empty transaction!")
 	}
 
-	signMsg.Msgs = []msg.Msg{sendMsg}
-	signMsg.Sequence = stdSignDoc.Sequence
-	signMsg.AccountNumber = stdSignDoc.AccountNumber
-	signMsg.ChainID = stdSignDoc.ChainID
-	signMsg.Source = stdSignDoc.Source
-	signMsg.Data = stdSignDoc.Data
+	signMsg := tx.StdSignMsg{
+		ChainID:stdSignDoc.ChainID,
+		AccountNumber:stdSignDoc.AccountNumber,
+		Sequence:stdSignDoc.Sequence,
+		Memo:stdSignDoc.Memo,
+		Msgs:[]msg.Msg{sendMsg},
+		Source:stdSignDoc.Source,
+		Data:stdSignDoc.Data,
+	}
+	if string(signMsg.Bytes()) != emptyTrans {
+		return nil, nil, errors.New("Invalid empty transaction!")
+	}
+
+	return &signMsg, &sendMsg, nil
+}
+
+func VerifyAndCombineRawTransaction(emptyTrans, signature, pubkey string) (bool, string) {
+	signMsg, sendMsg, err := parseEmptyTransaction(emptyTrans)
+	if err != nil {
+		return false, ""
+	}
 
 	//err = tx.Cdc.UnmarshalJSON([]byte(emptyTrans), &signMsg)
 	//if err != nil {
@@ -83,7 +114,17 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, pubkey string) (bool,
 		 return false, ""
 	}
 
-	pubUncompressedBytes := owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	pubUncompressedBytes := owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubUncompressedBytes) != 65 {
+		return false, ""
+	}
+	pubUncompressedBytes = pubUncompressedBytes[1:]
+
+	//the signer has to be the sender
+	if !bytes.Equal(sendMsg.Inputs[0].Address, owcrypt.Hash(pubBytes, 0, owcrypt.HASH_ALG_HASH160)) {
+		return false, ""
+	}
+
 	hash := tx.StdSignBytes(ChainID, signMsg.AccountNumber, signMsg.Sequence, signMsg.Msgs, signMsg.Memo, signMsg.Source, signMsg.Data)
 
 	hash = owcrypt.Hash(hash, 0, owcrypt.HASH_ALG_SHA256)
-- 
2.43.0


From 4b714cdf7479d61aba194fdbd14e0baa5fc8e2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:25 +0000
Subject: [PATCH 32/45] fix: ontology accepted transactions without signatures,
 unknown assets, foreign payers and negative amounts, signed transactions did
 not decode, bad keys panicked

---
 ontologyTransaction/transaction.go | 36 +++++++++++++++++++++++++++++-
 ontologyTransaction/txProfile.go   |  5 +++++
 ontologyTransaction/txSigPub.go    |  3 +++
 ontologyTransaction/txStruct.go    | 17 +++++++-------
 4 files changed, 51 insertions(+), 10 deletions(-)

diff --git a/ontologyTransaction/transaction.go b/ontologyTransaction/transaction.go
index cd77e3f..f13d09d 100644
--- a/ontologyTransaction/transaction.go
+++ b/ontologyTransaction/transaction.go
@@ -30,6 +30,9 @@ func CreateRawTransactionAndHash(gasPrice, gasLimit uint64, txState TxState) (st
 	if txState.Payer == "" {
 		txState.Payer = txState.From
 	}
+	if err := checkPayer(txState.AssetType, txState.Payer); err != nil {
+		return "", nil, err
+	}
 	payLoad, err := NewNativeInvoke(txState).ToBytes()
 	if err != nil {
 		return "", nil, err
@@ -56,6 +59,12 @@ func CreateRawTransactionAndHashV2(gasPrice, gasLimit uint64, txState TxStateV2)
 	if txState.Payer == "" {
 		txState.Payer = txState.From
 	}
+	if err := checkPayer(txState.AssetType, txState.Payer); err != nil {
+		return "", nil, err
+	}
+	if txState.Amount == nil || txState.Amount.Sign() < 0 {
+		return "", nil, errors.New("Invalid amount!")
+	}
 	payLoad, err := NewNativeInvokeV2(txState).ToBytes()
 	if err != nil {
 		return "", nil, err
@@ -77,6 +86,17 @@ func CreateRawTransactionAndHashV2(gasPrice, gasLimit uint64, txState TxStateV2)
 	return hex.EncodeToString(txBytes), &th, nil
 }
 
+func checkPayer(assetType int, payer string) error {
+	if assetType != AssetONT && assetType != AssetONG && assetType != AssetONGWithdraw {
+		return errors.New("Unknown asset type!")
+	}
+	prefix, _, err := DecodeCheck(payer)
+	if err != nil || prefix != AddressPrefix {
+		return errors.New("Invalid payer!")
+	}
+	return nil
+}
+
 func SignRawTransactionHash(txHash string, prikey []byte) (*SigPub, error) {
 	hash, err := hex.DecodeString(txHash)
 	if err != nil {
@@ -96,10 +116,21 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, s
 		return false, "", err
 	}
 
+	if tx.SigDatas != nil {
+		return false, "", errors.New("Transaction is signed already!")
+	}
+	if len(sigpub) == 0 || len(sigpub) > maxSigCount {
+		return false, "", errors.New("Miss signature!")
+	}
+
 	hashBytes := owcrypt.Hash(owcrypt.Hash(txBytes[:len(txBytes)-1], 0, owcrypt.HASH_ALG_DOUBLE_SHA256), 0, owcrypt.HASH_ALG_SHA256)
 	sigData.Nrequired = 0
 	for _, sp := range sigpub {
-		pubkey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)[1:]
+		pubkey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)
+		if len(sp.PublicKey) != 33 || len(pubkey) != 65 {
+			return false, "", errors.New("Invalid public key!")
+		}
+		pubkey = pubkey[1:]
 		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
 			return false, "", errors.New("failed to verify transaction!")
 		}
@@ -108,5 +139,8 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, s
 	tx.SigDatas = append(tx.SigDatas, sigData)
 
 	signedTx, err := tx.ToBytes()
+	if err != nil {
+		return false, "", err
+	}
 	return true, hex.EncodeToString(signedTx), nil
 }
diff --git a/ontologyTransaction/txProfile.go b/ontologyTransaction/txProfile.go
index 60d3449..8797e60 100644
--- a/ontologyTransaction/txProfile.go
+++ b/ontologyTransaction/txProfile.go
@@ -22,6 +22,11 @@ const (
 	DefaultAttribute   = byte(0)
 )
 
+const (
+	maxPayloadLength = 0xFC
+	maxSigCount      = 0xFC
+)
+
 const (
 	PushBytes75 = 0x4B
 	PushData1   = 0x4C
diff --git a/ontologyTransaction/txSigPub.go b/ontologyTransaction/txSigPub.go
index 71ac866..d5ba87e 100644
--- a/ontologyTransaction/txSigPub.go
+++ b/ontologyTransaction/txSigPub.go
@@ -105,6 +105,9 @@ func decodeSigPubBytes(sp []byte) (*SigPub, error) {
 	}
 	index += 2
 
+	if index+33 > limit {
+		return nil, errors.New("Invalid signature & public key data!")
+	}
 	ret.PublicKey = sp[index : index+33]
 	index += 33
 
diff --git a/ontologyTransaction/txStruct.go b/ontologyTransaction/txStruct.go
index 76d618b..231d3d2 100644
--- a/ontologyTransaction/txStruct.go
+++ b/ontologyTransaction/txStruct.go
@@ -81,11 +81,14 @@ func (t Transaction) ToBytes() ([]byte, error) {
 	if t.Payload == nil || len(t.Payload) == 0 {
 		return nil, errors.New("Invalid invoke code!")
 	}
+	if len(t.Payload) > maxPayloadLength {
+		return nil, errors.New("Invoke code too long!")
+	}
 	ret = append(ret, byte(len(t.Payload)))
 	ret = append(ret, t.Payload...)
 	ret = append(ret, t.Attributes)
 
-	if t.SigDatas == nil {
+	if len(t.SigDatas) == 0 {
 		ret = append(ret, 0x00)
 	} else {
 		if t.SigDatas[0].Nrequired == 0 {
@@ -164,7 +167,7 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 	payloadLen := txBytes[index]
 	index++
 
-	if payloadLen == 0 {
+	if payloadLen == 0 || payloadLen > maxPayloadLength {
 		return nil, errors.New("Invalid trnsaction data!")
 	}
 
@@ -196,16 +199,11 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		if index != limit {
 			return nil, errors.New("Invalid transaction data!")
 		}
-	} else if txBytes[index] == 0x01 {
-		sigpub, err := decodeSigPubBytes(txBytes[index:])
-		if err != nil {
-			return nil, err
-		}
-		tx.SigDatas = append(tx.SigDatas, SigData{0, []SigPub{*sigpub}})
 	} else {
 		sigLen := int(txBytes[index])
 		index++
 
+		var sigData SigData
 		for i := 0; i < sigLen; i++ {
 			if index+102 > limit {
 				return nil, errors.New("Invalid transaction data!")
@@ -214,9 +212,10 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 			if err != nil {
 				return nil, err
 			}
-			tx.SigDatas = append(tx.SigDatas, SigData{0, []SigPub{*sigpub}})
+			sigData.SigPubs = append(sigData.SigPubs, *sigpub)
 			index += 102
 		}
+		tx.SigDatas = append(tx.SigDatas, sigData)
 		if index != limit {
 			return nil, errors.New("Invalid transaction data!")
 		}
-- 
2.43.0


From 92b707b846ce1ad4a18ab4661e07e5ab879a7d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:25 +0000
Subject: [PATCH 33/45] fix: waykichain turned register IDs, amounts and
 lengths it could not read or write into others, registrations verified with a
 foreign key, bad keys and short transactions panicked

---
 waykichainTransaction/transaction.go | 12 +++-
 waykichainTransaction/txStruct.go    | 84 ++++++++++++++++------------
 waykichainTransaction/txUtils.go     | 36 ++++++++++++
 3 files changed, 96 insertions(+), 36 deletions(-)

diff --git a/waykichainTransaction/transaction.go b/waykichainTransaction/transaction.go
index 427e613..c5281d9 100644
--- a/waykichainTransaction/transaction.go
+++ b/waykichainTransaction/transaction.go
@@ -1,6 +1,7 @@
 package waykichainTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -63,7 +64,16 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub SigPub) (bool, str
 	if err != nil {
 		return false, ""
 	}
-	pubkey := owcrypt.PointDecompress(sigPub.PublicKey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	pubkey := owcrypt.PointDecompress(sigPub.PublicKey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(sigPub.PublicKey) != 33 || len(pubkey) != 65 {
+		return false, ""
+	}
+	pubkey = pubkey[1:]
+
+	//the key to be registered has to sign
+	if registered := registeredPubkey(emptyTrans); registered != nil && !bytes.Equal(registered, sigPub.PublicKey) {
+		return false, ""
+	}
 
 	if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
diff --git a/waykichainTransaction/txStruct.go b/waykichainTransaction/txStruct.go
index be2fa1f..eee2115 100644
--- a/waykichainTransaction/txStruct.go
+++ b/waykichainTransaction/txStruct.go
@@ -3,8 +3,6 @@ package waykichainTransaction
 import (
 	"encoding/hex"
 	"errors"
-	"strconv"
-	"strings"
 
 	owcrypt "github.com/blocktree/go-owcrypt"
 )
@@ -27,16 +25,14 @@ func NewCommonTx(fromUserID, toAddress string, amount, fee, validHeight int64) (
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
+	if fee < 0 || amount < 0 {
+		return nil, errors.New("Negative fee or amount!")
+	}
 	commonTx.ValidHeight = int64ToUvarint(validHeight)
 
-	if !isRegIdStr(fromUserID) {
-		return nil, errors.New("Invalid from register ID!")
-	}
-	ids := strings.Split(fromUserID, "-")
-	idBytes := []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	idBytes, err := regIDToBytes(fromUserID)
+	if err != nil {
+		return nil, err
 	}
 	commonTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
 
@@ -100,6 +96,9 @@ func NewRegisterAccountTx(fromPubkey string, fee, validHeight int64) (*RegisterA
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
+	if fee < 0 {
+		return nil, errors.New("Negative fee or amount!")
+	}
 	registerAccountTx.ValidHeight = int64ToUvarint(validHeight)
 	pubkey, err := hex.DecodeString(fromPubkey)
 	if err != nil || len(pubkey) != 0x21 {
@@ -158,28 +157,21 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
-	contractTx.ValidHeight = int64ToUvarint(validHeight)
-	if !isRegIdStr(fromUserID) {
-		return nil, errors.New("Invalid from register ID!")
+	if fee < 0 || amount < 0 {
+		return nil, errors.New("Negative fee or amount!")
 	}
-	ids := strings.Split(fromUserID, "-")
-	idBytes := []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	contractTx.ValidHeight = int64ToUvarint(validHeight)
+	idBytes, err := regIDToBytes(fromUserID)
+	if err != nil {
+		return nil, err
 	}
 	contractTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
 
-	if !isRegIdStr(appID) {
-		return nil, errors.New("Invalid from register ID!")
-	}
-	ids = strings.Split(appID, "-")
-	idBytes = []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	appIDBytes, err := regIDToBytes(appID)
+	if err != nil {
+		return nil, err
 	}
-	contractTx.AppID = append([]byte{byte(len(idBytes))}, idBytes...)
+	contractTx.AppID = append([]byte{byte(len(appIDBytes))}, appIDBytes...)
 
 	contractTx.Fee = int64ToUvarint(fee)
 
@@ -189,7 +181,7 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 	if err != nil {
 		return nil, errors.New("Invalid contract hex!")
 	}
-	contractTx.ContractHex = append([]byte{byte(len(contract))}, contract...)
+	contractTx.ContractHex = append(compactSize(len(contract)), contract...)
 
 	return &contractTx, nil
 }
@@ -242,13 +234,14 @@ func NewUcoinTransferTx(fromUserID, toAddress, coin string, validHeight, fee, am
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
+	if fee < 0 || amount < 0 {
+		return nil, errors.New("Negative fee or amount!")
+	}
 	ucoinTransferTx.ValidHeight = int64ToUvarint(validHeight)
 
-	ids := strings.Split(fromUserID, "-")
-	idBytes := []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	idBytes, err := regIDToBytes(fromUserID)
+	if err != nil {
+		return nil, err
 	}
 	ucoinTransferTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
 
@@ -267,7 +260,7 @@ func NewUcoinTransferTx(fromUserID, toAddress, coin string, validHeight, fee, am
 		return nil, errors.New("Invalid coin name!")
 	}
 
-	ucoinTransferTx.CoinName = append([]byte{byte(len(coin))}, []byte(coin)...)
+	ucoinTransferTx.CoinName = append(compactSize(len(coin)), []byte(coin)...)
 
 	ucoinTransferTx.CoinAmount = int64ToUvarint(amount)
 
@@ -316,6 +309,10 @@ func getHashFromEmptyRawTrans(emptyTrans string) ([]byte, error) {
 		return nil, errors.New("Invalid transaction hex data!")
 	}
 
+	if len(txBytes) < 2 {
+		return nil, errors.New("Invalid transaction hex data!")
+	}
+
 	if (txBytes[0] != TxType_COMMON && txBytes[0] != TxType_REGACCT && txBytes[0] != TxType_CONTRACT && txBytes[0] != TxType_UcoinTransfer) || txBytes[1] != byte(Version) {
 		return nil, errors.New("Invalid transaction hex data!")
 	}
@@ -325,4 +322,21 @@ func getHashFromEmptyRawTrans(emptyTrans string) ([]byte, error) {
 	txBytes[1] = tmp
 
 	return owcrypt.Hash(txBytes, 0, owcrypt.HASH_ALG_DOUBLE_SHA256), nil
-}
\ No newline at end of file
+}
+
+//registeredPubkey is the public key a register account transaction registers, nil for other transactions
+func registeredPubkey(emptyTrans string) []byte {
+	txBytes, err := hex.DecodeString(emptyTrans)
+	if err != nil || len(txBytes) < 2 || txBytes[0] != TxType_REGACCT {
+		return nil
+	}
+	index := 2
+	for index < len(txBytes) && txBytes[index]&0x80 != 0 {
+		index++
+	}
+	index++
+	if index+1+0x21 > len(txBytes) || txBytes[index] != 0x21 {
+		return []byte{}
+	}
+	return txBytes[index+1 : index+1+0x21]
+}
diff --git a/waykichainTransaction/txUtils.go b/waykichainTransaction/txUtils.go
index 8b256f8..8381ee1 100644
--- a/waykichainTransaction/txUtils.go
+++ b/waykichainTransaction/txUtils.go
@@ -1,7 +1,11 @@
 package waykichainTransaction
 
 import (
+	"encoding/binary"
+	"errors"
 	"regexp"
+	"strconv"
+	"strings"
 )
 
 func sizeofVarInt(value int64) int {
@@ -56,3 +60,35 @@ func isRegIdStr(regId string) bool {
 	re := regexp.MustCompile(`^\s*(\d+)\-(\d+)\s*$`)
 	return re.MatchString(regId)
 }
+
+//regIDToBytes encodes a register ID, height and index of the registration
+func regIDToBytes(regId string) ([]byte, error) {
+	if !isRegIdStr(regId) {
+		return nil, errors.New("Invalid from register ID!")
+	}
+	ids := strings.Split(strings.TrimSpace(regId), "-")
+	height, err := strconv.ParseUint(ids[0], 10, 32)
+	if err != nil {
+		return nil, errors.New("Invalid from register ID!")
+	}
+	index, err := strconv.ParseUint(ids[1], 10, 16)
+	if err != nil {
+		return nil, errors.New("Invalid from register ID!")
+	}
+	return append(int64ToUvarint(int64(height)), int64ToUvarint(int64(index))...), nil
+}
+
+func compactSize(size int) []byte {
+	if size < 0xFD {
+		return []byte{byte(size)}
+	}
+	tmp := [5]byte{}
+	if size <= 0xFFFF {
+		tmp[0] = 0xFD
+		binary.LittleEndian.PutUint16(tmp[1:], uint16(size))
+		return tmp[:3]
+	}
+	tmp[0] = 0xFE
+	binary.LittleEndian.PutUint32(tmp[1:], uint32(size))
+	return tmp[:]
+}
-- 
2.43.0


From b4d98bc3c725adb5d3a1530e4ffde37eec6db730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:25 +0000
Subject: [PATCH 34/45] fix: virtualeconomy made malformed transactions for
 attachments, other types and foreign addresses, missing signatures panicked

---
 virtualeconomyTransaction/transaction.go | 20 ++++++++++++++++----
 virtualeconomyTransaction/txProfile.go   |  6 ++++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/virtualeconomyTransaction/transaction.go b/virtualeconomyTransaction/transaction.go
index fb0cf1b..b22ac65 100644
--- a/virtualeconomyTransaction/transaction.go
+++ b/virtualeconomyTransaction/transaction.go
@@ -28,6 +28,13 @@ type SignaturePubkey struct {
 // 创建空交易单
 // only transfer for now
 func CreateEmptyTransaction(ts TxStruct) (string, error) {
+	if ts.TxType != TxTypeTransfer {
+		return "", errors.New("Only transfer is supported yet!")
+	}
+	if ts.Attachment != "" {
+		return "", errors.New("Non-empty attachment is not supported yet!")
+	}
+
 	timestamp := make([]byte, 8)
 	amount := make([]byte, 8)
 	fee := make([]byte, 8)
@@ -44,13 +51,11 @@ func CreateEmptyTransaction(ts TxStruct) (string, error) {
 	binary.BigEndian.PutUint16(feeScale, ts.FeeScale)
 	txBytes = append(txBytes, feeScale...)
 	recipient, err := DecodeCheck(ts.To)
-	if err != nil {
+	if err != nil || len(recipient) != 26 || recipient[0] != AddressVersion || (recipient[1] != AddressMainnet && recipient[1] != AddressTestnet) {
 		return "", errors.New("Trying to send VSYS to an invalid address!")
 	}
 	txBytes = append(txBytes, recipient...)
-	if ts.Attachment == "" {
-		txBytes = append(txBytes, attachmentLen...)
-	}
+	txBytes = append(txBytes, attachmentLen...)
 
 	return hex.EncodeToString(txBytes), nil
 }
@@ -82,6 +87,9 @@ func SignTransaction(emptyTrans string, prikey []byte) (*SignaturePubkey, error)
 
 // 对签名结果进行验证
 func VerifyTransaction(emptyTrans string, sp *SignaturePubkey) bool {
+	if sp == nil {
+		return false
+	}
 	txBytes, err := hex.DecodeString(emptyTrans)
 	if err != nil {
 		return false
@@ -102,6 +110,10 @@ func CreateJSONRawForSendTransaction(emptyTrans string, sp *SignaturePubkey) (*g
 		body = make(map[string]interface{}, 0)
 	)
 
+	if sp == nil || len(sp.PublicKey) != 32 || len(sp.Signature) != 64 {
+		return nil, errors.New("Invalid signature or public key!")
+	}
+
 	txBytes, err := hex.DecodeString(emptyTrans)
 	if err != nil {
 		return nil, errors.New("Invalid transaction hex string!")
diff --git a/virtualeconomyTransaction/txProfile.go b/virtualeconomyTransaction/txProfile.go
index 991d179..66594de 100644
--- a/virtualeconomyTransaction/txProfile.go
+++ b/virtualeconomyTransaction/txProfile.go
@@ -1,5 +1,11 @@
 package virtualeconomyTransaction
 
+const (
+	AddressVersion = byte(0x05)
+	AddressMainnet = byte('M')
+	AddressTestnet = byte('T')
+)
+
 var (
 	TxTypeTransfer  = byte(2)
 	DefaultFeeScale = uint16(100)
-- 
2.43.0


From 2aeb96208bce59ce2aa33d2160cf7ce7ddbc8fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:25 +0000
Subject: [PATCH 35/45] fix: moac encoded small numbers non-canonically, could
 not combine longer transactions, took the wrong network's, short addresses
 and negative amounts

---
 moacchainTransaction/transaction.go |  16 ++--
 moacchainTransaction/txStruct.go    | 131 +++++++++-------------------
 moacchainTransaction/txUtils.go     |  12 ++-
 3 files changed, 56 insertions(+), 103 deletions(-)

diff --git a/moacchainTransaction/transaction.go b/moacchainTransaction/transaction.go
index 52f9ffb..e1ba937 100644
--- a/moacchainTransaction/transaction.go
+++ b/moacchainTransaction/transaction.go
@@ -1,6 +1,7 @@
 package moacchainTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"math/big"
@@ -49,15 +50,14 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, publicKey string, isT
 	if owcrypt.SUCCESS != owcrypt.Verify(pub, nil, hash, sig[:64], owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
 	}
-	if len(txBytes) < 57 {
-		head := getHeadBytes(SmallTag, LargeTag, uint64(len(txBytes)-1))
-		if head[0] != txBytes[0] {
-			return false, ""
-		}
-	} else {
-		//
+	headLen := 1
+	if len(txBytes) > 0 && txBytes[0] > LargeTag {
+		headLen += int(txBytes[0] - LargeTag)
 	}
-	tx, err := decodeEmpty(txBytes[1:])
+	if len(txBytes) < headLen || !bytes.Equal(txBytes[:headLen], getHeadBytes(SmallTag, LargeTag, uint64(len(txBytes)-headLen))) {
+		return false, ""
+	}
+	tx, err := decodeEmpty(txBytes[headLen:], isTestNet)
 	if err != nil {
 		return false, ""
 	}
diff --git a/moacchainTransaction/txStruct.go b/moacchainTransaction/txStruct.go
index 1d3052b..5320444 100644
--- a/moacchainTransaction/txStruct.go
+++ b/moacchainTransaction/txStruct.go
@@ -23,6 +23,11 @@ type TxStruct struct {
 
 func NewTxStruct(to string, nonce uint64, amount, gasLimit, gasPrice *big.Int, signature []byte, isTestNet bool) (*TxStruct, error) {
 	var tx TxStruct
+	for _, number := range []*big.Int{amount, gasLimit, gasPrice} {
+		if number == nil || number.Sign() < 0 || number.BitLen() > 256 {
+			return nil, errors.New("Invalid amount or gas!")
+		}
+	}
 	tx.Nonce = getUint64Bytes(nonce)
 	tx.SystemContract = getUint64Bytes(0) // not contract
 	tx.GasPrice = getBigIntBytes(gasPrice)
@@ -76,105 +81,49 @@ func (tx *TxStruct) ToBytes() []byte {
 	return append(head, body...)
 }
 
-func decodeEmpty(txBytes []byte) (*TxStruct, error) {
-	var tx TxStruct
-	limit := len(txBytes)
-	index := 0
-
-	if index+1 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	if txBytes[index] <= 0x80 {
-		tx.Nonce = txBytes[index : index+1]
-		index++
-	} else {
-		if index+1+int(txBytes[index])-0x80 > limit {
-			return nil, errors.New("Invalid!")
-		}
-		tx.Nonce = txBytes[index : index+1+int(txBytes[index])-0x80]
-		index += (1 + int(txBytes[index]) - 0x80)
-	}
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.SystemContract = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.GasPrice = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.GasLimit = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
+//readItem splits the first string item off data
+func readItem(data []byte) (item, rest []byte, err error) {
+	if len(data) == 0 || data[0] > 0x80+55 {
+		return nil, nil, errors.New("Invalid!")
 	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
+	size := 1
+	if data[0] > 0x80 {
+		size += int(data[0]) - 0x80
 	}
-	tx.Recipient = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
+	if size > len(data) || (size == 2 && data[1] < 0x80) {
+		return nil, nil, errors.New("Invalid!")
 	}
-	tx.Amount = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.Payload = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
+	return data[:size], data[size:], nil
+}
 
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
+func decodeEmpty(txBytes []byte, isTestNet bool) (*TxStruct, error) {
+	var tx TxStruct
+	var r, s []byte
+	var err error
+
+	rest := txBytes
+	for _, field := range []*[]byte{&tx.Nonce, &tx.SystemContract, &tx.GasPrice, &tx.GasLimit, &tx.Recipient, &tx.Amount,
+		&tx.Payload, &tx.ShardingFlag, &tx.Via, &tx.ChainID, &r, &s} {
+		*field, rest, err = readItem(rest)
+		if err != nil {
+			return nil, err
+		}
 	}
-	tx.ShardingFlag = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
 
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
+	for _, empty := range [][]byte{tx.SystemContract, tx.Payload, tx.ShardingFlag, tx.Via, r, s} {
+		if len(empty) != 1 || empty[0] != 0x80 {
+			return nil, errors.New("Invalid!")
+		}
 	}
-	if index+1+int(txBytes[index])-0x80 > limit {
+	if len(rest) != 0 || len(tx.Recipient) != 21 {
 		return nil, errors.New("Invalid!")
 	}
-	tx.Via = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid!")
+	chainID := ChainIDMainnet
+	if isTestNet {
+		chainID = ChainIDTestnet
 	}
-
-	tx.ChainID = txBytes[index : index+1]
-	index += 1
-
-	if index+2 != limit || txBytes[index] != 0x80 || txBytes[index+1] != 0x80 {
+	if len(tx.ChainID) != 1 || tx.ChainID[0] != chainID {
 		return nil, errors.New("Invalid!")
 	}
 
@@ -190,8 +139,7 @@ func (tx *TxStruct) addSig(sig []byte, isTestNet bool) {
 			break
 		}
 	}
-	tx.R = getLengthBytes(len(r))
-	tx.R = append(tx.R, r...)
+	tx.R = getStringBytes(r)
 
 	s := sig[32:64]
 	for _, data := range s {
@@ -201,8 +149,7 @@ func (tx *TxStruct) addSig(sig []byte, isTestNet bool) {
 			break
 		}
 	}
-	tx.S = getLengthBytes(len(s))
-	tx.S = append(tx.S, s...)
+	tx.S = getStringBytes(s)
 
 	if isTestNet {
 		tx.ChainID = getUint64Bytes(uint64(sig[64] + 35 + ChainIDTestnet*2))
diff --git a/moacchainTransaction/txUtils.go b/moacchainTransaction/txUtils.go
index 7865861..a1e5a64 100644
--- a/moacchainTransaction/txUtils.go
+++ b/moacchainTransaction/txUtils.go
@@ -33,9 +33,15 @@ func getUint64Bytes(data uint64) []byte {
 }
 
 func getBigIntBytes(data *big.Int) []byte {
-	ret := data.Bytes()
+	return getStringBytes(data.Bytes())
+}
 
-	return append(getLengthBytes(len(ret)), ret...)
+//getStringBytes a single byte below 0x80 stands for itself
+func getStringBytes(data []byte) []byte {
+	if len(data) == 1 && data[0] < 0x80 {
+		return []byte{data[0]}
+	}
+	return append(getLengthBytes(len(data)), data...)
 }
 
 func getHeadBytes(smalTag, largeTag byte, size uint64) []byte {
@@ -106,7 +112,7 @@ func putint(b []byte, i uint64) (size int) {
 }
 
 func getAddressHashBytes(address string) ([]byte, error) {
-	if address[:2] != "0x" {
+	if len(address) < 2 || address[:2] != "0x" {
 		return nil, errors.New("Invalid address!")
 	}
 	hash, err := hex.DecodeString(address[2:])
-- 
2.43.0


From 72d8ae8926ce1518a848858c12374cfe8ab1b4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:54 +0000
Subject: [PATCH 36/45] fix: filenet totals wrapped, the caller's outputs were
 reordered, foreign keys verified, bad keys and counts panicked

---
 filenetTransaction/transaction.go | 14 ++++++++++++--
 filenetTransaction/txStruct.go    | 11 ++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/filenetTransaction/transaction.go b/filenetTransaction/transaction.go
index 1232413..d819d34 100644
--- a/filenetTransaction/transaction.go
+++ b/filenetTransaction/transaction.go
@@ -62,11 +62,21 @@ func VerifyAndCombineTransaction(emptyTrans, signature, pubkey  string) (string,
 	sig, _ := hex.DecodeString(signature)
 
 	pubBytes, err := hex.DecodeString(pubkey)
-	if err != nil {
+	if err != nil || len(pubBytes) != 33 {
+		return "", false
+	}
+
+	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubBytes) != 65 {
 		return "", false
 	}
+	pubBytes = pubBytes[1:]
 
-	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	// the signer has to be the owner of the spent account
+	from, err := encodeAddress(owcrypt.Hash(pubBytes, 0, owcrypt.HASH_ALG_KECCAK256)[12:])
+	if err != nil || from != tx.From {
+		return "", false
+	}
 
 	if owcrypt.SUCCESS != owcrypt.Verify(pubBytes, nil, hash, sig, owcrypt.ECC_CURVE_SECP256K1) {
 		return "", false
diff --git a/filenetTransaction/txStruct.go b/filenetTransaction/txStruct.go
index e1283e2..a4c9318 100644
--- a/filenetTransaction/txStruct.go
+++ b/filenetTransaction/txStruct.go
@@ -45,7 +45,9 @@ func NewTxStruct(in Vin, outs Vouts) (*TxStruct, error) {
 
 	trans.ToCount = uint64ToLittleEndianBytes(uint64(outCount))
 
-	sort.Sort(outs)
+	// sort a copy, the list belongs to the caller
+	outs = append(Vouts{}, outs...)
+	sort.Stable(outs)
 
 	totleAmount := uint64(0)
 	for _, out := range outs {
@@ -56,6 +58,9 @@ func NewTxStruct(in Vin, outs Vouts) (*TxStruct, error) {
 			return nil, errors.New("Invalid amount!")
 		}
 
+		if totleAmount+out.Amount < totleAmount {
+			return nil, errors.New("Invalid amount!")
+		}
 		totleAmount += out.Amount
 
 		toBytes, err := decodeAddress(out.Address)
@@ -158,6 +163,10 @@ func decodeRawTransaction(emptyTrans, signature string) (*Transfer, error) {
 	transfer.Timestamp = int64(littleEndianBytesToUint64(txBytes[index:index+8]))
 	index += 8
 
+	if toCount == 0 || (limit-index)%28 != 0 || toCount != uint64((limit-index)/28) {
+		return nil, errors.New("Invalid empty transaction hex string!")
+	}
+
 	txDetalis := make(TransferDetails, toCount)
 	for i := 0; i < int(toCount); i ++ {
 		if index + 28 > limit {
-- 
2.43.0


From 49d1f5768986be07c93d267109e0358b3faeca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:22 +0000
Subject: [PATCH 37/45] fix: ontology panicked on public keys that are not
 points of the curve

---
 ontologyTransaction/transaction.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ontologyTransaction/transaction.go b/ontologyTransaction/transaction.go
index f13d09d..e2e8c8d 100644
--- a/ontologyTransaction/transaction.go
+++ b/ontologyTransaction/transaction.go
@@ -1,6 +1,7 @@
 package ontologyTransaction
 
 import (
+	"crypto/elliptic"
 	"crypto/rand"
 	"encoding/hex"
 	"errors"
@@ -127,7 +128,7 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, s
 	sigData.Nrequired = 0
 	for _, sp := range sigpub {
 		pubkey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)
-		if len(sp.PublicKey) != 33 || len(pubkey) != 65 {
+		if len(sp.PublicKey) != 33 || len(pubkey) != 65 || !elliptic.P256().IsOnCurve(new(big.Int).SetBytes(pubkey[1:33]), new(big.Int).SetBytes(pubkey[33:])) {
 			return false, "", errors.New("Invalid public key!")
 		}
 		pubkey = pubkey[1:]
-- 
2.43.0


From 4dada65d3b88bf1aaafc6fecf9c534d34c1ace40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:20 +0000
Subject: [PATCH 38/45] fix: bech32 payloads without a version decoded shifted,
 codecs accepted non-zero padding and look-alike letters, wrote behind their
 arguments

---
 addressEncoder/addressEncoder.go              |  2 +-
 addressEncoder/base32PolyMod/base32PolyMod.go |  4 ++
 addressEncoder/bech32/bech32.go               | 44 +++++++++----------
 addressEncoder/bech32m/bech32m.go             | 15 ++++---
 4 files changed, 34 insertions(+), 31 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 975d4dd..a8f72de 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -76,7 +76,7 @@ func catData(data1 []byte, data2 []byte) []byte {
 	if data2 == nil {
 		return data1
 	}
-	return append(data1, data2...)
+	return append(data1[:len(data1):len(data1)], data2...)
 }
 
 func allZero(data []byte) bool {
diff --git a/addressEncoder/base32PolyMod/base32PolyMod.go b/addressEncoder/base32PolyMod/base32PolyMod.go
index 9a4be62..0f4aa10 100644
--- a/addressEncoder/base32PolyMod/base32PolyMod.go
+++ b/addressEncoder/base32PolyMod/base32PolyMod.go
@@ -235,5 +235,9 @@ func Decode(address, alphabet string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 	bytePayload[0] >>= 3
+	// the padding bits have to be zero
+	if !strings.EqualFold(Encode(prefixStr, alphabet, bytePayload), address) {
+		return nil, ErrorInvalidAddress
+	}
 	return bytePayload, nil
 }
diff --git a/addressEncoder/bech32/bech32.go b/addressEncoder/bech32/bech32.go
index 9b9df5a..065520a 100644
--- a/addressEncoder/bech32/bech32.go
+++ b/addressEncoder/bech32/bech32.go
@@ -1,7 +1,6 @@
 package bech32
 
 import (
-	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -312,18 +311,23 @@ func extendPayload(payload []int8) []int8 {
 	return ret
 }
 
-func unecxtendPayload(extendedPayload []int8) []int8 {
-	length := len(extendedPayload) * 5 / 8
-
-	ret := make([]int8, length)
-
-	for i := 0; i < len(extendedPayload)-1; i++ {
-		ret[length-1] |= extendedPayload[i]
-		byteShl5(&ret)
+func unecxtendPayload(extendedPayload []int8) ([]byte, error) {
+	ret := make([]byte, 0, len(extendedPayload)*5/8)
+	acc := uint32(0)
+	bits := uint(0)
+	for _, v := range extendedPayload {
+		acc = (acc<<5 | uint32(v)) & 0xfff
+		bits += 5
+		if bits >= 8 {
+			bits -= 8
+			ret = append(ret, byte(acc>>bits))
+		}
 	}
-	ret[length-1] |= extendedPayload[len(extendedPayload)-1]
-
-	return ret
+	//the padding is shorter than a group and zero
+	if bits >= 5 || acc&(1<<bits-1) != 0 {
+		return nil, ErrorInvalidAddress
+	}
+	return ret, nil
 }
 
 func Encode(prefix, alphabet string, payload []byte, payloadPrefix []byte) string {
@@ -407,18 +411,10 @@ func Decode(address, alphabet string) ([]byte, error) {
 	tmp := make([]int8, len(value)-6)
 	copy(tmp, value)
 
-	ret := unecxtendPayload(tmp)
-
-	bytePayload := make([]byte, len(ret))
-
-	for i := 0; i < len(ret); i++ {
-		bytePayload[i] = byte(ret[i])
-	}
-
-	if len(bytePayload) == 33 {
-		tmp := hex.EncodeToString(bytePayload)[1:65]
-		bytePayload, _ = hex.DecodeString(tmp)
+	//a version in front of a 20 or 32 byte program is not part of the payload
+	if len(tmp) == 1+32 || len(tmp) == 1+52 {
+		tmp = tmp[1:]
 	}
-	return bytePayload, nil
+	return unecxtendPayload(tmp)
 
 }
diff --git a/addressEncoder/bech32m/bech32m.go b/addressEncoder/bech32m/bech32m.go
index 209980a..e347d65 100644
--- a/addressEncoder/bech32m/bech32m.go
+++ b/addressEncoder/bech32m/bech32m.go
@@ -81,7 +81,7 @@ func createChecksum(hrp string, data []byte, spec int) []byte {
 
 // Encode compute a Bech32 string given HRP and data values.
 func Encode(hrp string, data []byte, spec int, charset string) string {
-	combined := append(data, createChecksum(hrp, data, spec)...)
+	combined := append(data[:len(data):len(data)], createChecksum(hrp, data, spec)...)
 	var ret bytes.Buffer
 	ret.WriteString(hrp)
 	ret.WriteString("1")
@@ -96,6 +96,11 @@ func Decode(bechString string, charset string) (string, []byte, int, error) {
 	if len(bechString) > 90 {
 		return "", nil, Failed, fmt.Errorf("Overall max length exceeded")
 	}
+	for i := 0; i < len(bechString); i++ {
+		if bechString[i] < 33 || bechString[i] > 126 {
+			return "", nil, Failed, fmt.Errorf("Character out of range")
+		}
+	}
 	if strings.ToLower(bechString) != bechString && strings.ToUpper(bechString) != bechString {
 		return "", nil, Failed, fmt.Errorf("Mixed case")
 	}
@@ -111,11 +116,6 @@ func Decode(bechString string, charset string) (string, []byte, int, error) {
 		return "", nil, Failed, fmt.Errorf("Too short checksum")
 	}
 	hrp := bechString[0:pos]
-	for _, c := range hrp {
-		if c < 33 || c > 126 {
-			return "", nil, Failed, fmt.Errorf("HRP character out of range")
-		}
-	}
 	data := []byte{}
 	for p := pos + 1; p < len(bechString); p++ {
 		d := strings.Index(charset, fmt.Sprintf("%c", bechString[p]))
@@ -142,6 +142,9 @@ func Convertbits(data []byte, frombits, tobits uint, pad bool) ([]byte, error) {
 	maxv := (1 << tobits) - 1
 	maxAcc := (1 << (frombits + tobits - 1)) - 1
 	for _, value := range data {
+		if value>>frombits != 0 {
+			return nil, fmt.Errorf("Value out of range")
+		}
 		acc = ((acc << frombits) | int(value)) & maxAcc
 		bits += frombits
 		for bits >= tobits {
-- 
2.43.0


From f79273ae2e2ec0da97af8753850710cb1ef84023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:20 +0000
Subject: [PATCH 39/45] fix: SCALE compact bytes were wrong for most lengths
 and written into the argument

---
 polkadotTransaction/codec.go | 47 +++++++++++-------------------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/polkadotTransaction/codec.go b/polkadotTransaction/codec.go
index 36c920a..6451c79 100644
--- a/polkadotTransaction/codec.go
+++ b/polkadotTransaction/codec.go
@@ -23,6 +23,7 @@ func ExtendLEBytes(input []byte, length int) []byte {
 	if diff == 0 {
 		return input
 	}
+	input = input[:len(input):len(input)]
 	for i := 0; i < diff; i++ {
 		input = append(input, 0)
 	}
@@ -48,44 +49,24 @@ func removeExtraLEBytes(input []byte) []byte {
 	return input[:index]
 }
 
+// BytesToCompactBytes returns the compact form of the number given in little endian bytes
 func BytesToCompactBytes(bytes []byte) (res []byte) {
-	lenOfBytes := len(bytes)
-	if lenOfBytes > 4 {
-		zeroByte := len(bytes) - 4
-		zeroByte = zeroByte << modeBits
-		zeroByte |= int(bigIntMode)
-
-		res = []byte{byte(zeroByte)}
-		res = append(res, bytes...)
-	} else {
-		mode := fourByteMode
-
-		switch lenOfBytes {
+	for len(bytes) > 0 && bytes[len(bytes)-1] == 0 {
+		bytes = bytes[:len(bytes)-1]
+	}
+	if len(bytes) <= 4 {
+		data := binary.LittleEndian.Uint32(ExtendLEBytes(bytes, 4))
+		switch CompactLength(data) {
 		case 1:
-			mode = singleMode
+			return []byte{byte(data<<modeBits) | singleMode}
 		case 2:
-			mode = twoByteMode
+			return uint32ToLittleEndianBytes(data<<modeBits | uint32(twoByteMode))[:2]
+		case 4:
+			return uint32ToLittleEndianBytes(data<<modeBits | uint32(fourByteMode))
 		}
-
-		var nextRepl byte
-		for i := range bytes {
-			repl := bytes[i] & 192
-			repl = repl >> 6
-			bytes[i] = bytes[i] << modeBits
-			if i != 0 {
-				bytes[i] |= nextRepl
-			}
-			nextRepl = repl
-		}
-		if nextRepl != 0 {
-			bytes = append(bytes, nextRepl)
-		}
-		bytes[0] |= mode
-		bytes = ExtendLEBytes(bytes, int(modeToNumOfBytes[mode]))
-
-		res = bytes
 	}
-	return
+	res = []byte{byte(len(bytes)-4)<<modeBits | bigIntMode}
+	return append(res, bytes...)
 }
 
 func getLeadingZeros(data uint64) int {
-- 
2.43.0


From 1ccc355f7bb23749c50d1140330edff5e0bb904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:20 +0000
Subject: [PATCH 40/45] fix: a bech32 text without separator panicked in the
 transaction drivers, btcLikeTxDriver decoded programs of other versions and
 32 bytes wrong

---
 btcLikeTxDriver/bech32.go    | 20 ++++++++++++++++++++
 btcTransaction/bech32.go     |  4 ++++
 cxcTransaction/bech32.go     |  4 ++++
 hcTransaction/bech32.go      |  4 ++++
 omniTransaction/bech32.go    |  4 ++++
 zencashTransaction/bech32.go |  4 ++++
 6 files changed, 40 insertions(+)

diff --git a/btcLikeTxDriver/bech32.go b/btcLikeTxDriver/bech32.go
index 828b11c..f9a54ab 100644
--- a/btcLikeTxDriver/bech32.go
+++ b/btcLikeTxDriver/bech32.go
@@ -1,6 +1,7 @@
 package btcLikeTxDriver
 
 import (
+	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -188,6 +189,10 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
+
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
@@ -200,10 +205,19 @@ func Bech32Decode(address string) ([]byte, error) {
 		value[i] = CHARSET_REV[c]
 	}
 
+	//only version 0 programs of 20 or 32 bytes, the rest cannot be paid with the scripts made here
+	if len(value) != 1+32+6 && len(value) != 1+52+6 {
+		return nil, ErrorInvalidAddress
+	}
+
 	if !verifyChecksum(prefixStr, value) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if value[0] != 0 || (len(value) == 1+52+6 && value[52]&0x0F != 0) {
+		return nil, ErrorInvalidAddress
+	}
+
 	tmp := make([]int8, len(value)-6)
 	copy(tmp, value)
 
@@ -213,5 +227,11 @@ func Bech32Decode(address string) ([]byte, error) {
 	for i := 0; i < len(ret); i++ {
 		bytePayload[i] = byte(ret[i])
 	}
+
+	if len(bytePayload) == 33 {
+		tmp := hex.EncodeToString(bytePayload)[1:65]
+		bytePayload, _ = hex.DecodeString(tmp)
+	}
+
 	return bytePayload, nil
 }
diff --git a/btcTransaction/bech32.go b/btcTransaction/bech32.go
index eec4aa9..53149be 100644
--- a/btcTransaction/bech32.go
+++ b/btcTransaction/bech32.go
@@ -189,6 +189,10 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
+
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
diff --git a/cxcTransaction/bech32.go b/cxcTransaction/bech32.go
index 90f0f76..956df12 100644
--- a/cxcTransaction/bech32.go
+++ b/cxcTransaction/bech32.go
@@ -189,6 +189,10 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
+
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
diff --git a/hcTransaction/bech32.go b/hcTransaction/bech32.go
index 007b0ba..9cb5d09 100644
--- a/hcTransaction/bech32.go
+++ b/hcTransaction/bech32.go
@@ -189,6 +189,10 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
+
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
diff --git a/omniTransaction/bech32.go b/omniTransaction/bech32.go
index 05f9710..2896bc3 100644
--- a/omniTransaction/bech32.go
+++ b/omniTransaction/bech32.go
@@ -189,6 +189,10 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
+
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
diff --git a/zencashTransaction/bech32.go b/zencashTransaction/bech32.go
index e00d0db..50bf094 100644
--- a/zencashTransaction/bech32.go
+++ b/zencashTransaction/bech32.go
@@ -189,6 +189,10 @@ func Bech32Decode(address string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if prefixSize == 0 {
+		return nil, ErrorInvalidAddress
+	}
+
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
-- 
2.43.0


From 4c549f9c0539bff208f062bf2af78190051063d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:54 +0000
Subject: [PATCH 41/45] fix: fiiiTransaction: refuse indexes, identifiers and
 counts that cannot be encoded

---
 fiiiTransaction/transaction.go |  8 ++++----
 fiiiTransaction/txInput.go     | 12 +++++++++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/fiiiTransaction/transaction.go b/fiiiTransaction/transaction.go
index 50caa9f..91bfbf0 100644
--- a/fiiiTransaction/transaction.go
+++ b/fiiiTransaction/transaction.go
@@ -4,7 +4,6 @@ import (
 	"encoding/hex"
 	"encoding/json"
 	"errors"
-	"fmt"
 	"time"
 
 	owcrypt "github.com/blocktree/go-owcrypt"
@@ -100,15 +99,16 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []SigPub) (bool, stri
 		return false, "", errors.New("Signatures are not enough to unlock transaction!")
 	}
 
+	if txMsg.InputCount != len(txMsg.Inputs) || txMsg.OutputCount != len(txMsg.Outputs) {
+		return false, "", errors.New("Invalid empty transaction data!")
+	}
+
 	for i := 0; i < len(sigPub); i++ {
 		msg, err := txMsg.Inputs[i].genMessageBytes()
 		if err != nil {
 			return false, "", err
 		}
 
-		fmt.Println("msg:", hex.EncodeToString(msg))
-		fmt.Println("sig:", hex.EncodeToString(sigPub[i].Signature))
-		fmt.Println("pub:", hex.EncodeToString(sigPub[i].Pubkey))
 		if owcrypt.SUCCESS != owcrypt.Verify(sigPub[i].Pubkey, nil, msg, sigPub[i].Signature, owcrypt.ECC_CURVE_ED25519) {
 			return false, "", errors.New("Signature verify failed!")
 		}
diff --git a/fiiiTransaction/txInput.go b/fiiiTransaction/txInput.go
index d6fffe3..7af3ba6 100644
--- a/fiiiTransaction/txInput.go
+++ b/fiiiTransaction/txInput.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"errors"
+	"math"
 )
 
 type InputMsg struct {
@@ -21,6 +22,10 @@ func (in Vin) NewInputMsg() (*InputMsg, error) {
 		return nil, errors.New("Invalid UTXO!")
 	}
 
+	if !isValidIndex(in.Vout) {
+		return nil, errors.New("Invalid UTXO index!")
+	}
+
 	_, err := hex.DecodeString(in.TxID)
 	if err != nil {
 		return nil, err
@@ -32,6 +37,11 @@ func (in Vin) NewInputMsg() (*InputMsg, error) {
 	return &ret, nil
 }
 
+// isValidIndex says whether the output index fits the 4 bytes it is encoded in
+func isValidIndex(index int) bool {
+	return index >= 0 && int64(index) <= math.MaxUint32
+}
+
 func (in Vin) genMessage() string {
 	vout := make([]byte, 4)
 	binary.BigEndian.PutUint32(vout[:], uint32(in.Vout))
@@ -40,7 +50,7 @@ func (in Vin) genMessage() string {
 
 func (in InputMsg) genMessageBytes() ([]byte, error) {
 	msg, err := hex.DecodeString(in.OutputTransactionHash)
-	if err != nil {
+	if err != nil || len(msg) != 32 || !isValidIndex(in.OutputIndex) {
 		return nil, errors.New("Invalid UTXO ID!")
 	}
 	vout := make([]byte, 4)
-- 
2.43.0


From 2d08cc0d573ecf135a94546ea51b1d5369671cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:54 +0000
Subject: [PATCH 42/45] fix: elastosTransaction: encode counts as the chain
 does and refuse bad identifiers, keys and missing signatures

---
 elastosTransaction/transaction.go | 34 +++++++++++++++++++++++++++++--
 elastosTransaction/txIn.go        |  2 +-
 elastosTransaction/txOut.go       |  2 +-
 elastosTransaction/txSignature.go |  2 +-
 elastosTransaction/txStruct.go    |  4 ++--
 elastosTransaction/txUtils.go     | 33 ++++++++++--------------------
 6 files changed, 48 insertions(+), 29 deletions(-)

diff --git a/elastosTransaction/transaction.go b/elastosTransaction/transaction.go
index f76d156..0ff9914 100644
--- a/elastosTransaction/transaction.go
+++ b/elastosTransaction/transaction.go
@@ -1,8 +1,11 @@
 package elastosTransaction
 
 import (
+	"bytes"
+	"crypto/elliptic"
 	"encoding/hex"
 	"errors"
+	"math/big"
 
 	owcrypt "github.com/blocktree/go-owcrypt"
 )
@@ -64,6 +67,21 @@ func SignRawTransaction(hash string, privateKey []byte) ([]byte, error) {
 	return signature, nil
 }
 
+// decompressPublicKey returns the point of a compressed public key, nil if it is not on the curve
+func decompressPublicKey(publicKey []byte) []byte {
+	if len(publicKey) != 33 {
+		return nil
+	}
+	point := owcrypt.PointDecompress(publicKey, owcrypt.ECC_CURVE_SECP256R1)
+	if len(point) != 65 {
+		return nil
+	}
+	if !elliptic.P256().IsOnCurve(new(big.Int).SetBytes(point[1:33]), new(big.Int).SetBytes(point[33:])) {
+		return nil
+	}
+	return point[1:]
+}
+
 func VerifyAndCombineRawTransaction(emptyTrans string, sigPubs []SigPub) (bool, string) {
 
 	txBytes, err := hex.DecodeString(emptyTrans)
@@ -73,8 +91,20 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPubs []SigPub) (bool,
 
 	hash := owcrypt.Hash(txBytes, 0, owcrypt.HASH_ALG_SHA256)
 
-	for _, sp := range sigPubs {
-		publicKey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)[1:]
+	if len(sigPubs) == 0 {
+		return false, ""
+	}
+
+	for i, sp := range sigPubs {
+		for _, other := range sigPubs[:i] {
+			if bytes.Equal(other.PublicKey, sp.PublicKey) {
+				return false, ""
+			}
+		}
+		publicKey := decompressPublicKey(sp.PublicKey)
+		if publicKey == nil {
+			return false, ""
+		}
 		if owcrypt.SUCCESS != owcrypt.Verify(publicKey, nil, hash, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
 			return false, ""
 		}
diff --git a/elastosTransaction/txIn.go b/elastosTransaction/txIn.go
index 94342e6..77cc91f 100644
--- a/elastosTransaction/txIn.go
+++ b/elastosTransaction/txIn.go
@@ -10,7 +10,7 @@ type Input struct {
 
 func (in Vin) NewInput() (*Input, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid previous transaction ID!")
 	}
 	vout := uint16ToLittleEndianBytes(in.Vout)
diff --git a/elastosTransaction/txOut.go b/elastosTransaction/txOut.go
index 29b3251..16edb93 100644
--- a/elastosTransaction/txOut.go
+++ b/elastosTransaction/txOut.go
@@ -13,7 +13,7 @@ type Output struct {
 
 func (out Vout) NewOutput() (*Output, error) {
 	assetID, err := reverseHexToBytes(out.AssetID)
-	if err != nil {
+	if err != nil || len(assetID) != 32 {
 		return nil, errors.New("Invalid Asset ID!")
 	}
 
diff --git a/elastosTransaction/txSignature.go b/elastosTransaction/txSignature.go
index 1e7c0fc..89229b1 100644
--- a/elastosTransaction/txSignature.go
+++ b/elastosTransaction/txSignature.go
@@ -32,7 +32,7 @@ func (sp SigPub) ToBytes() ([]byte, error) {
 func (sps Sigpubs) ToBytes() ([]byte, error) {
 	ret := []byte{}
 
-	ret = append(ret, uint64ToUvarint(uint64(len(sps)))...)
+	ret = append(ret, uint64ToVarUint(uint64(len(sps)))...)
 	for _, sp := range sps {
 		data, err := sp.ToBytes()
 		if err != nil {
diff --git a/elastosTransaction/txStruct.go b/elastosTransaction/txStruct.go
index 7d7a287..3ff4a27 100644
--- a/elastosTransaction/txStruct.go
+++ b/elastosTransaction/txStruct.go
@@ -47,13 +47,13 @@ func (tx Transaction) GetEmptyAndHash() ([]byte, []byte) {
 
 	txBytes = append(txBytes, tx.TxType, tx.PayloadVersion, 0x00) // 0x00 for attributes count
 
-	txBytes = append(txBytes, uint64ToUvarint(uint64(len(tx.Inputs)))...) // input count
+	txBytes = append(txBytes, uint64ToVarUint(uint64(len(tx.Inputs)))...) // input count
 
 	for _, input := range tx.Inputs {
 		txBytes = append(txBytes, input.ToBytes()...)
 	}
 
-	txBytes = append(txBytes, uint64ToUvarint(uint64(len(tx.Outputs)))...) // output count
+	txBytes = append(txBytes, uint64ToVarUint(uint64(len(tx.Outputs)))...) // output count
 	for _, output := range tx.Outputs {
 		txBytes = append(txBytes, output.ToBytes()...)
 	}
diff --git a/elastosTransaction/txUtils.go b/elastosTransaction/txUtils.go
index 64f11c0..ba82173 100644
--- a/elastosTransaction/txUtils.go
+++ b/elastosTransaction/txUtils.go
@@ -62,27 +62,16 @@ func littleEndianBytesToUint16(data []byte) uint16 {
 	return binary.LittleEndian.Uint16(data)
 }
 
-func uint64ToUvarint(x uint64) []byte {
-	ret := [8]byte{}
-
-	len := binary.PutUvarint(ret[:], x)
-
-	if len == 0 {
-		return nil
-	}
-	return ret[:len]
-}
-
-func uvarintToUint64(buf []byte) uint64 {
-	if buf == nil || len(buf) == 0x00 {
-		return 0
+//uint64ToVarUint encodes a count, with a leading 0xfd, 0xfe or 0xff when it does not fit one byte
+func uint64ToVarUint(x uint64) []byte {
+	switch {
+	case x < 0xfd:
+		return []byte{byte(x)}
+	case x <= 0xffff:
+		return append([]byte{0xfd}, uint16ToLittleEndianBytes(uint16(x))...)
+	case x <= 0xffffffff:
+		return append([]byte{0xfe}, uint32ToLittleEndianBytes(uint32(x))...)
+	default:
+		return append([]byte{0xff}, uint64ToLittleEndianBytes(x)...)
 	}
-
-	ret, length := binary.Uvarint(buf)
-
-	if length != len(buf) {
-		return 0
-	}
-
-	return ret
 }
-- 
2.43.0


From 5304569a79ffd2b451b77cbc2959711b42ef752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:54 +0000
Subject: [PATCH 43/45] fix: mateverseTransaction: bind inputs, scripts and
 keys when combining, encode long scripts

---
 mateverseTransaction/transaction.go | 61 +++++++++++++++++++++--------
 mateverseTransaction/txIn.go        | 40 ++++++++++++++++---
 mateverseTransaction/txSigPub.go    | 12 +++---
 3 files changed, 87 insertions(+), 26 deletions(-)

diff --git a/mateverseTransaction/transaction.go b/mateverseTransaction/transaction.go
index 6dd9341..63710a5 100644
--- a/mateverseTransaction/transaction.go
+++ b/mateverseTransaction/transaction.go
@@ -25,33 +25,49 @@ func GetSigHash(emptyTrans string, inputs *[]*TxInput) error {
 	if err != nil {
 		return errors.New("Invalid empty raw transaction!")
 	}
-	_, inputsEnd, err := decodeEmptyTx(trans)
+	if inputs == nil {
+		return errors.New("Miss inputs!")
+	}
+	hashes, err := calcSigHashes(trans, *inputs)
 	if err != nil {
 		return err
 	}
 
 	for i, input := range *inputs {
-		if input.lockScript == "" {
-			return errors.New("Miss lock script!")
-		}
-		lockScript := getHashFromLockScript(input.lockScript)
-		if lockScript == "" || len(lockScript) < 50 {
-			return errors.New("Invalid lock script!")
+		input.hash = hex.EncodeToString(hashes[i])
+	}
+
+	return nil
+}
+
+// calcSigHashes returns the hash to be signed for each input, the inputs have to be those of the transaction
+func calcSigHashes(trans []byte, inputs []*TxInput) ([][]byte, error) {
+	txInputs, inputsEnd, err := decodeEmptyTx(trans)
+	if err != nil {
+		return nil, err
+	}
+	if len(inputs) != len(txInputs) {
+		return nil, errors.New("Inputs do not match the transaction!")
+	}
+
+	hashes := make([][]byte, 0, len(inputs))
+	for i, input := range inputs {
+		if input == nil || input.txID != txInputs[i].txID || input.vout != txInputs[i].vout || input.sequence != txInputs[i].sequence {
+			return nil, errors.New("Inputs do not match the transaction!")
 		}
-		input.SetLockScript(lockScript)
-		_, err = hex.DecodeString(input.txID)
-		if err != nil || len(input.txID) != 64 {
-			return errors.New("Invalid txid!")
+		lockScript, err := input.lockScriptBytes()
+		if err != nil {
+			return nil, err
 		}
-		hashBytes := getHashCalcBytes(*inputs, i)
 
+		hashBytes := getHashCalcBytes(txInputs, i, lockScript)
 		hashBytes = append(hashBytes, trans[inputsEnd:]...)
 		hashBytes = append(hashBytes, uint32ToLittleEndianBytes(SigHashAll)...)
 
-		input.hash = hex.EncodeToString(owcrypt.Hash(hashBytes, 0, owcrypt.HASH_ALG_DOUBLE_SHA256))
+		hashes = append(hashes, owcrypt.Hash(hashBytes, 0, owcrypt.HASH_ALG_DOUBLE_SHA256))
 	}
 
-	return nil
+	return hashes, nil
 }
 
 func SignTransaction(hash string, prikey []byte) (string, error) {
@@ -75,8 +91,21 @@ func SignTransaction(hash string, prikey []byte) (string, error) {
 
 func VerifyAndCombineTransaction(emptyTrans string, inputs []*TxInput) (bool, string) {
 
-	for _, input := range inputs {
-		if !verifyTransactionHash(input.pubkey, input.hash, input.signature) {
+	trans, err := hex.DecodeString(emptyTrans)
+	if err != nil {
+		return false, ""
+	}
+	hashes, err := calcSigHashes(trans, inputs)
+	if err != nil {
+		return false, ""
+	}
+
+	for i, input := range inputs {
+		lockScript, err := input.lockScriptBytes()
+		if err != nil {
+			return false, ""
+		}
+		if !verifyTransactionHash(input.pubkey, hashes[i], input.signature, getPubkeyHash(lockScript)) {
 			return false, ""
 		}
 	}
diff --git a/mateverseTransaction/txIn.go b/mateverseTransaction/txIn.go
index 7747b42..25efcbd 100644
--- a/mateverseTransaction/txIn.go
+++ b/mateverseTransaction/txIn.go
@@ -59,7 +59,9 @@ func decodeEmptyTx(tx []byte) ([]*TxInput, int,  error) {
 	}
 
 	var inputCount int
-	if tx[index] != 0xfd {
+	if tx[index] > 0xfd {
+		return nil, 0, errors.New("Invalid tx data!")
+	} else if tx[index] != 0xfd {
 		inputCount = int(tx[index])
 		if inputCount == 0 {
 			return nil, 0, errors.New("Invalid tx data!")
@@ -71,6 +73,9 @@ func decodeEmptyTx(tx []byte) ([]*TxInput, int,  error) {
 			return nil, 0, errors.New("Invalid tx data!")
 		}
 		inputCount = int(littleEndianBytesToUint16(tx[index:index+2]))
+		if inputCount < 0xfd {
+			return nil, 0, errors.New("Invalid tx data!")
+		}
 		index += 2
 	}
 
@@ -123,7 +128,7 @@ func getHashFromLockScript(script string) string {
 	script = ""
 	if len(slices) == 1 {
 		script = slices[0]
-	} else if len(slices) == 3 {
+	} else if len(slices) == 3 && len(slices[0]) / 2 <= 0xffff && len(slices[1]) / 2 <= 75 {
 		script += "4d"
 		script += hex.EncodeToString(uint16ToLittleEndianBytes(uint16(len(slices[0]) / 2)))
 		script += slices[0]
@@ -137,7 +142,28 @@ func getHashFromLockScript(script string) string {
 	return script
 }
 
-func getHashCalcBytes(inputs []*TxInput, index int) []byte {
+// lockScriptBytes returns the lock script in wire format, it has to end with a pay to public key hash
+func (tx *TxInput) lockScriptBytes() ([]byte, error) {
+	if tx.lockScript == "" {
+		return nil, errors.New("Miss lock script!")
+	}
+	script, err := hex.DecodeString(getHashFromLockScript(tx.lockScript))
+	if err != nil || len(script) < 25 || len(script) > 0xffff {
+		return nil, errors.New("Invalid lock script!")
+	}
+	tail := script[len(script)-25:]
+	if tail[0] != 0x76 || tail[1] != 0xa9 || tail[2] != 0x14 || tail[23] != 0x88 || tail[24] != 0xac {
+		return nil, errors.New("Invalid lock script!")
+	}
+	return script, nil
+}
+
+// getPubkeyHash returns the hash the lock script pays to
+func getPubkeyHash(lockScript []byte) []byte {
+	return lockScript[len(lockScript)-22 : len(lockScript)-2]
+}
+
+func getHashCalcBytes(inputs []*TxInput, index int, lockScript []byte) []byte {
 	tx := make([]byte, 0)
 
 	tx = append(tx, uint32ToLittleEndianBytes(DefaultTxVersion)...)
@@ -153,8 +179,12 @@ func getHashCalcBytes(inputs []*TxInput, index int) []byte {
 		tx = append(tx, txid...)
 		tx = append(tx, uint32ToLittleEndianBytes(input.vout)...)
 		if i == index {
-			lockScript, _ := hex.DecodeString(input.lockScript)
-			tx = append(tx, byte(len(lockScript)))
+			if len(lockScript) < 0xfd {
+				tx = append(tx, byte(len(lockScript)))
+			} else {
+				tx = append(tx, 0xfd)
+				tx = append(tx, uint16ToLittleEndianBytes(uint16(len(lockScript)))...)
+			}
 			tx = append(tx, lockScript...)
 		} else {
 			tx = append(tx, 0x00)
diff --git a/mateverseTransaction/txSigPub.go b/mateverseTransaction/txSigPub.go
index cee0d9e..14d1332 100644
--- a/mateverseTransaction/txSigPub.go
+++ b/mateverseTransaction/txSigPub.go
@@ -56,14 +56,13 @@ func (sp SignaturePubkey) encodeToScript(sigType byte) []byte {
 }
 
 
-func verifyTransactionHash(pubkey, hash, signature string) bool {
+func verifyTransactionHash(pubkey string, hashBytes []byte, signature string, pubkeyHash []byte) bool {
 	pubBytes, err := hex.DecodeString(pubkey)
 	if err != nil || len(pubBytes) != 33 {
 		return false
 	}
 
-	hashBytes, err := hex.DecodeString(hash)
-	if err != nil || len(hashBytes) != 32 {
+	if !byteArrayCompare(owcrypt.Hash(pubBytes, 0, owcrypt.HASH_ALG_HASH160), pubkeyHash) {
 		return false
 	}
 
@@ -72,8 +71,11 @@ func verifyTransactionHash(pubkey, hash, signature string) bool {
 		return false
 	}
 
-	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
-	if owcrypt.SUCCESS != owcrypt.Verify(pubBytes, nil, hashBytes, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
+	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubBytes) != 65 {
+		return false
+	}
+	if owcrypt.SUCCESS != owcrypt.Verify(pubBytes[1:], nil, hashBytes, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
 		return false
 	}
 
-- 
2.43.0


From c4b4ef3db1d581b9939d712808533e1177625193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:16 +0000
Subject: [PATCH 44/45] fix: btcLikeTxDriver: encode witnesses, counts and
 signatures as the network does and bind keys and scripts when verifying

---
 btcLikeTxDriver/multiSig.go        |  48 +++++---
 btcLikeTxDriver/signaturepubkey.go |  61 ++++++----
 btcLikeTxDriver/transaction.go     | 189 +++++++++++++++--------------
 btcLikeTxDriver/txOut.go           |   1 +
 btcLikeTxDriver/txStruct.go        | 175 ++++++++++++++++++++++----
 btcLikeTxDriver/witness.go         | 105 ++--------------
 6 files changed, 326 insertions(+), 253 deletions(-)

diff --git a/btcLikeTxDriver/multiSig.go b/btcLikeTxDriver/multiSig.go
index 733e00d..649b962 100644
--- a/btcLikeTxDriver/multiSig.go
+++ b/btcLikeTxDriver/multiSig.go
@@ -11,7 +11,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte) (string, string, error) {
 	if required < 1 {
 		return "", "", errors.New("A multisignature address must require at least one key to redeem!")
 	}
-	if required > byte(len(pubkeys)) {
+	if int(required) > len(pubkeys) {
 		return "", "", errors.New("Not enough keys supplied for a multisignature address to redeem!")
 	}
 	if len(pubkeys) > 16 {
@@ -49,25 +49,39 @@ func (t Transaction) isMultiSig() bool {
 	if len(t.Vins) != 1 {
 		return false
 	}
-	if t.Vins[0].ScriptPubkeySignature == nil {
-		return false
+	_, _, err := parseMultiSig(t.Vins[0].ScriptPubkeySignature)
+	return err == nil
+}
+
+// parseMultiSig returns the number of required signatures and the public keys of a multisignature redeem script
+func parseMultiSig(redeem []byte) (int, [][]byte, error) {
+	limit := len(redeem)
+	if limit < 3 || redeem[limit-1] != OpCheckMultiSig {
+		return 0, nil, errors.New("Invalid multisignature redeem script!")
 	}
-	if t.Vins[0].ScriptPubkeySignature[len(t.Vins[0].ScriptPubkeySignature)-1] != OpCheckMultiSig {
-		return false
+
+	pubkeys := [][]byte{}
+	index := 1
+	for index < limit-2 {
+		length := int(redeem[index])
+		index++
+		if (length != 33 && length != 65) || index+length > limit-2 {
+			return 0, nil, errors.New("Invalid multisignature redeem script!")
+		}
+		pubkeys = append(pubkeys, redeem[index:index+length])
+		index += length
 	}
-	return true
-}
 
-func isMultiSig(lockScript, redeemScript string) bool {
-	if len(lockScript) != 0x17*2 {
-		return false
+	required := int(redeem[0]) - int(OpCode_1) + 1
+	if required < 1 || required > len(pubkeys) || len(pubkeys) > 16 || int(redeem[limit-2]) != int(OpCode_1)+len(pubkeys)-1 {
+		return 0, nil, errors.New("Invalid multisignature redeem script!")
 	}
+	return required, pubkeys, nil
+}
 
+func isMultiSig(lockScript, redeemScript string) bool {
 	lockBytes, err := hex.DecodeString(lockScript)
-	if err != nil {
-		return false
-	}
-	if !(lockBytes[0] == OpCodeHash160 && lockBytes[1] == 0x14 || lockBytes[22] == OpCodeEqual) {
+	if err != nil || checkScriptType(lockBytes) != TypeP2SH {
 		return false
 	}
 
@@ -76,10 +90,8 @@ func isMultiSig(lockScript, redeemScript string) bool {
 		return false
 	}
 
-	if len(redeemBytes) == 0 || redeemBytes[len(redeemBytes)-1] != OpCheckMultiSig {
-		return false
-	}
-	return true
+	_, _, err = parseMultiSig(redeemBytes)
+	return err == nil
 
 }
 
diff --git a/btcLikeTxDriver/signaturepubkey.go b/btcLikeTxDriver/signaturepubkey.go
index 0a0d002..ce07060 100644
--- a/btcLikeTxDriver/signaturepubkey.go
+++ b/btcLikeTxDriver/signaturepubkey.go
@@ -1,6 +1,7 @@
 package btcLikeTxDriver
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
 
@@ -58,7 +59,7 @@ func calcSignaturePubkey(txHash [][]byte, unlockData []TxUnlock) ([]SignaturePub
 	return ret, nil
 }
 
-func (sp SignaturePubkey) encodeToScript(sigType byte) []byte {
+func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 	r := sp.Signature[:32]
 	s := sp.Signature[32:]
 
@@ -66,7 +67,7 @@ func (sp SignaturePubkey) encodeToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -77,7 +78,7 @@ func (sp SignaturePubkey) encodeToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
@@ -96,12 +97,37 @@ func (sp SignaturePubkey) encodeToScript(sigType byte) []byte {
 	rs = append([]byte{0x30}, rs...)
 	rs = append([]byte{byte(len(rs))}, rs...)
 
+	return rs
+}
+
+func (sp SignaturePubkey) encodeToScript(sigType byte) []byte {
+	rs := sp.encodeSignatureToScript(sigType)
+
 	pub := append([]byte{byte(len(sp.Pubkey))}, sp.Pubkey...)
 
 	return append(rs, pub...)
 }
 
 func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
+	if len(script) == 0 {
+		return nil, errors.New("Invalid script data!")
+	}
+	sigEnd := 1 + int(script[0])
+	if len(script) != sigEnd+34 {
+		return nil, errors.New("Invalid script data!")
+	}
+	signature, err := decodeSignatureFromScript(script[:sigEnd])
+	if err != nil {
+		return nil, err
+	}
+	if script[sigEnd] != 0x21 {
+		return nil, errors.New("Only compressed pubkey is supported!")
+	}
+	return &SignaturePubkey{signature, append([]byte{}, script[sigEnd+1:]...)}, nil
+}
+
+// decodeSignatureFromScript decodes the push of a signature, which has to be in the strict form it is encoded in
+func decodeSignatureFromScript(script []byte) ([]byte, error) {
 	limit := len(script)
 	if limit == 0 {
 		return nil, errors.New("Invalid script data!")
@@ -151,7 +177,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 		if index+2 > limit {
 			return nil, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, errors.New("Invalid signature data!")
 		}
 	}
@@ -159,7 +185,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 	if index+int(rLen) > limit {
 		return nil, errors.New("Invalid script data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
@@ -191,7 +217,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 		if index+2 > limit {
 			return nil, errors.New("Invalid script data!")
 		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
+		if script[index] != 0x00 || (script[index+1]&0x80 != 0x80) {
 			return nil, errors.New("Invalid signature data!")
 		}
 	}
@@ -220,27 +246,12 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 	}
 	index++
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid script data!")
-	}
-	pubLen := script[index]
-	index++
-	if pubLen != 0x21 {
-		return nil, errors.New("Only compressed pubkey is supported!")
-	}
-
-	if index+33 > limit {
-		return nil, errors.New("Invalid script data!")
-	}
-	ret.Pubkey = script[index : index+33]
-	index += 33
-
-	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) || (sigLen+pubLen+2 != byte(len(script))) {
+	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) || index != limit {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	if index != len(script) {
-		return nil, errors.New("Invalid transaction data!")
+	if !bytes.Equal(ret.encodeSignatureToScript(SigHashAll), script) {
+		return nil, errors.New("Invalid signature data!")
 	}
-	return &ret, nil
+	return ret.Signature, nil
 }
diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index e82938e..8e350ae 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -1,9 +1,11 @@
 package btcLikeTxDriver
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
-	"strings"
+
+	owcrypt "github.com/blocktree/go-owcrypt"
 )
 
 type Vin struct {
@@ -87,47 +89,7 @@ func SignEmptyRawTransaction(txHex string, unlockData []TxUnlock) (string, error
 		return "", err
 	}
 
-	for i := 0; i < len(sigPub); i++ {
-		lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
-		if err != nil {
-			return "", errors.New("Invalid lock script or redeem script!")
-		}
-
-		scriptType := checkScriptType(lockBytes)
-		//if isScriptHash(lockBytes) {
-		if scriptType == TypeP2SH || scriptType == TypeBech32 {
-
-			if scriptType == TypeBech32 {
-				emptyTrans.Vins[i].ScriptPubkeySignature = nil
-			} else {
-				redeemScript, err := hex.DecodeString(unlockData[i].RedeemScript)
-				if err != nil {
-					return "", errors.New("Invalid redeem script!")
-				}
-				redeemScript = append([]byte{byte(len(redeemScript))}, redeemScript...)
-				emptyTrans.Vins[i].ScriptPubkeySignature = redeemScript
-			}
-
-			if emptyTrans.Witness == nil {
-				for j := 0; j < i; j++ {
-					emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
-				}
-				emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
-			}
-
-		} else {
-			emptyTrans.Vins[i].ScriptPubkeySignature = sigPub[i].encodeToScript(SigHashAll)
-			if emptyTrans.Witness != nil {
-				emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
-			}
-		}
-	}
-
-	txBytes, err = emptyTrans.encodeToBytes()
-	if err != nil {
-		return "", err
-	}
-	return hex.EncodeToString(txBytes), nil
+	return InsertSignatureIntoEmptyTransaction(txHex, sigPub, unlockData)
 }
 
 func SignRawTransactionHash(txHash []string, unlockData []TxUnlock) ([]SignaturePubkey, error) {
@@ -175,12 +137,29 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 	}
 
 	if isMultiSig(unlockData[0].LockScript, unlockData[0].RedeemScript) {
+		if len(emptyTrans.Vins) != 1 {
+			return "", errors.New("A multisig input has to be the only one!")
+		}
 		redeemBytes, _ := hex.DecodeString(unlockData[0].RedeemScript)
+		required, _, _ := parseMultiSig(redeemBytes)
+		if len(sigPub) != required {
+			return "", errors.New("The number of signatures is not the required one!")
+		}
 		emptyTrans.Vins[0].ScriptPubkeySignature = redeemBytes
+		emptyTrans.Witness = nil
 		for i := 0; i < len(sigPub); i++ {
+			if len(sigPub[i].Signature) != 64 {
+				return "", errors.New("Invalid signature data!")
+			}
 			emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
 		}
 	} else {
+		if len(sigPub) != len(emptyTrans.Vins) {
+			return "", errors.New("The number of transaction inputs and the signatures are not match!")
+		}
+
+		segwit := false
+		witness := []TxWitness{}
 		for i := 0; i < len(emptyTrans.Vins); i++ {
 
 			if sigPub[i].Signature == nil || len(sigPub[i].Signature) != 64 {
@@ -190,41 +169,35 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 				return "", errors.New("Invalid pubkey data!")
 			}
 
-			// bech32 branch
-			if unlockData[i].RedeemScript == "" && strings.Index(unlockData[i].LockScript, "0014") == 0 {
-				unlockData[i].RedeemScript = unlockData[i].LockScript
-				unlockData[i].LockScript = "00"
+			lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+			if err != nil {
+				return "", errors.New("Invalid lockscript!")
 			}
 
-			if unlockData[i].RedeemScript == "" {
-
+			switch checkScriptType(lockBytes) {
+			case TypeP2PKH:
 				emptyTrans.Vins[i].ScriptPubkeySignature = sigPub[i].encodeToScript(SigHashAll)
-				if emptyTrans.Witness != nil {
-					emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
-				}
-			} else {
-				if emptyTrans.Witness == nil {
-					for j := 0; j < i; j++ {
-						emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
-					}
-				}
-				emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
-				if unlockData[i].RedeemScript == "" {
-					return "", errors.New("Missing redeem script for a P2SH input!")
-				}
-
-				if unlockData[i].LockScript == "00" {
-					emptyTrans.Vins[i].ScriptPubkeySignature = nil
-				} else {
-					redeem, err := hex.DecodeString(unlockData[i].RedeemScript)
-					if err != nil {
-						return "", errors.New("Invlalid redeem script!")
-					}
-					redeem = append([]byte{byte(len(redeem))}, redeem...)
-					emptyTrans.Vins[i].ScriptPubkeySignature = redeem
+				witness = append(witness, TxWitness{})
+			case TypeBech32:
+				emptyTrans.Vins[i].ScriptPubkeySignature = nil
+				witness = append(witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
+				segwit = true
+			case TypeP2SH:
+				redeem, err := hex.DecodeString(unlockData[i].RedeemScript)
+				if err != nil || checkScriptType(redeem) != TypeBech32 {
+					return "", errors.New("Invlalid redeem script!")
 				}
+				emptyTrans.Vins[i].ScriptPubkeySignature = append([]byte{byte(len(redeem))}, redeem...)
+				witness = append(witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
+				segwit = true
+			default:
+				return "", errors.New("Unknown type of lockscript!")
 			}
 		}
+		emptyTrans.Witness = nil
+		if segwit {
+			emptyTrans.Witness = witness
+		}
 	}
 
 	txBytes, err = emptyTrans.encodeToBytes()
@@ -249,39 +222,75 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock) bool {
 		return false
 	}
 
+	isMulti := signedTrans.isMultiSig()
+	witness := signedTrans.Witness
+	unlocks := append([]TxUnlock{}, unlockData...)
+
 	var sigAndPub []SignaturePubkey
-	if signedTrans.Witness == nil {
-		for _, sp := range signedTrans.Vins {
-			tmp, err := decodeFromScriptBytes(sp.ScriptPubkeySignature)
+	for i := 0; i < len(signedTrans.Vins); i++ {
+		lockBytes, err := hex.DecodeString(unlocks[i].LockScript)
+		if err != nil {
+			return false
+		}
+		script := signedTrans.Vins[i].ScriptPubkeySignature
+		scriptType := checkScriptType(lockBytes)
+
+		if isMulti {
+			program := calcRedeemHash(script)[1:]
+			if scriptType != TypeP2SH || !bytes.Equal(owcrypt.Hash(program, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) {
+				return false
+			}
+			unlocks[i].RedeemScript = hex.EncodeToString(script)
+			continue
+		}
+
+		if scriptType == TypeP2PKH {
+			sigPub, err := decodeFromScriptBytes(script)
 			if err != nil {
 				return false
 			}
-			sigAndPub = append(sigAndPub, *tmp)
+			if witness != nil && witness[i].Signature != nil {
+				return false
+			}
+			if !bytes.Equal(owcrypt.Hash(sigPub.Pubkey, 0, owcrypt.HASH_ALG_HASH160), lockBytes[3:23]) {
+				return false
+			}
+			sigAndPub = append(sigAndPub, *sigPub)
+			continue
 		}
-	} else {
-		for i := 0; i < len(signedTrans.Vins); i++ {
-			if signedTrans.Witness[i].Signature == nil {
-				tmp, err := decodeFromScriptBytes(signedTrans.Vins[i].ScriptPubkeySignature)
-				if err != nil {
-					return false
-				}
-				sigAndPub = append(sigAndPub, *tmp)
-			} else {
-				sigAndPub = append(sigAndPub, SignaturePubkey{signedTrans.Witness[i].Signature, signedTrans.Witness[i].Pubkey})
-				if strings.Index(unlockData[i].LockScript, "0014") == 0 {
-					continue
-				}
-				unlockData[i].RedeemScript = hex.EncodeToString(signedTrans.Vins[i].ScriptPubkeySignature[1:])
+
+		program := lockBytes
+		if scriptType == TypeP2SH {
+			if len(script) != 23 || script[0] != 22 {
+				return false
+			}
+			program = script[1:]
+			if !bytes.Equal(owcrypt.Hash(program, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) {
+				return false
 			}
+			unlocks[i].RedeemScript = hex.EncodeToString(program)
+		} else if len(script) != 0 {
+			return false
 		}
+		if checkScriptType(program) != TypeBech32 || witness == nil || witness[i].Signature == nil {
+			return false
+		}
+		if !bytes.Equal(owcrypt.Hash(witness[i].Pubkey, 0, owcrypt.HASH_ALG_HASH160), program[2:22]) {
+			return false
+		}
+		sigAndPub = append(sigAndPub, SignaturePubkey{witness[i].Signature, witness[i].Pubkey})
 	}
 
+	redeem := signedTrans.Vins[0].ScriptPubkeySignature
 	signedTrans.Witness = nil
 
-	hashes, err := signedTrans.getHashesForSig(unlockData)
+	hashes, err := signedTrans.getHashesForSig(unlocks)
 	if err != nil {
 		return false
 	}
 
+	if isMulti {
+		return verifyMultiSig(hashes[0], redeem, witness)
+	}
 	return verifyHashes(hashes, sigAndPub)
 }
diff --git a/btcLikeTxDriver/txOut.go b/btcLikeTxDriver/txOut.go
index a99cd2d..e3ebf0d 100644
--- a/btcLikeTxDriver/txOut.go
+++ b/btcLikeTxDriver/txOut.go
@@ -26,6 +26,7 @@ func newTxOutForEmptyTrans(vout []Vout) ([]TxOut, error) {
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 6cad74c..6960ba2 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -1,6 +1,7 @@
 package btcLikeTxDriver
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -52,6 +53,10 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 		return nil, errors.New("No output found in the transaction struct!")
 	}
 
+	if len(t.Vins) >= 0xfd || len(t.Vouts) >= 0xfd {
+		return nil, errors.New("Too many inputs or outputs in the transaction struct!")
+	}
+
 	ret := []byte{}
 	ret = append(ret, t.Version...)
 	if t.isMultiSig() {
@@ -82,18 +87,16 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			ret = append(ret, out.lockScript...)
 		}
 
-		ret = append(ret, byte(0x04), 0x00)
+		ret = append(ret, byte(len(t.Witness)+2), 0x00)
 		for _, w := range t.Witness {
 			if w.Signature == nil {
 				return nil, errors.New("Miss signature data for a multisig transaction!")
 			} else {
-				sig := w.encodeToScript(SigHashAll)
-				sig = sig[:len(sig)-34]
-				ret = append(ret, sig...)
+				ret = append(ret, w.encodeSignatureToScript(SigHashAll)...)
 			}
 		}
 
-		ret = append(ret, byte(len(t.Vins[0].ScriptPubkeySignature)))
+		ret = append(ret, scriptLength(len(t.Vins[0].ScriptPubkeySignature))...)
 
 		ret = append(ret, t.Vins[0].ScriptPubkeySignature...)
 	} else {
@@ -146,6 +149,61 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 	return ret, nil
 }
 
+// scriptLength encodes the length of a script
+func scriptLength(length int) []byte {
+	if length < 0xfd {
+		return []byte{byte(length)}
+	}
+	return []byte{0xfd, byte(length), byte(length >> 8)}
+}
+
+// decodeMultiSigWitness decodes the witness of a multisignature input, returns the signatures, the redeem script and the length
+func decodeMultiSigWitness(data []byte) ([]TxWitness, []byte, int, error) {
+	err := errors.New("Invalid multisignature witness!")
+	if len(data) < 2 || data[0] < 3 || data[1] != 0x00 {
+		return nil, nil, 0, err
+	}
+
+	witness := []TxWitness{}
+	index := 2
+	for i := 2; i < int(data[0]); i++ {
+		if index+1 > len(data) || index+1+int(data[index]) > len(data) {
+			return nil, nil, 0, err
+		}
+		end := index + 1 + int(data[index])
+		signature, sigErr := decodeSignatureFromScript(data[index:end])
+		if sigErr != nil {
+			return nil, nil, 0, sigErr
+		}
+		witness = append(witness, TxWitness{signature, nil})
+		index = end
+	}
+
+	if index+1 > len(data) || data[index] > 0xfd {
+		return nil, nil, 0, err
+	}
+	length := int(data[index])
+	index++
+	if length == 0xfd {
+		if index+2 > len(data) {
+			return nil, nil, 0, err
+		}
+		length = int(data[index]) | int(data[index+1])<<8
+		index += 2
+		if length < 0xfd {
+			return nil, nil, 0, err
+		}
+	}
+	if index+length > len(data) {
+		return nil, nil, 0, err
+	}
+	redeem := data[index : index+length]
+	if _, _, redeemErr := parseMultiSig(redeem); redeemErr != nil {
+		return nil, nil, 0, redeemErr
+	}
+	return witness, redeem, index + length, nil
+}
+
 func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 	limit := len(txBytes)
 	if limit == 0 {
@@ -176,6 +234,9 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		return nil, errors.New("Invalid transaction data length!")
 	}
 	numOfVins := txBytes[index]
+	if numOfVins == 0 || numOfVins >= 0xfd {
+		return nil, errors.New("Invalid number of inputs!")
+	}
 	index++
 
 	for i := byte(0); i < numOfVins; i++ {
@@ -197,6 +258,9 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 			return nil, errors.New("Invalid transaction data length!")
 		}
 		scriptLen := txBytes[index]
+		if scriptLen >= 0xfd {
+			return nil, errors.New("Invalid script length!")
+		}
 		index++
 		if scriptLen == 0 {
 			tmpTxIn.ScriptPubkeySignature = nil
@@ -221,6 +285,9 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		return nil, errors.New("Invalid transaction data length!")
 	}
 	numOfVouts := txBytes[index]
+	if numOfVouts == 0 || numOfVouts >= 0xfd {
+		return nil, errors.New("Invalid number of outputs!")
+	}
 	index++
 
 	for i := byte(0); i < numOfVouts; i++ {
@@ -236,6 +303,9 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 			return nil, errors.New("Invalid transaction data length!")
 		}
 		lockScriptLen := txBytes[index]
+		if lockScriptLen >= 0xfd {
+			return nil, errors.New("Invalid script length!")
+		}
 		index++
 
 		if index+int(lockScriptLen) > limit {
@@ -266,15 +336,40 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 				if index+int(length)+1+34 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
-				witness, _ := decodeFromSegwitBytes(txBytes[index : index+int(length)+1+34])
+				witness, err := decodeFromSegwitBytes(txBytes[index : index+int(length)+1+34])
+				if err != nil {
+					return nil, err
+				}
 				rawTx.Witness = append(rawTx.Witness, *witness)
 
 				index += int(length) + 1 + 34
 			} else {
-				//TODO
 				//for multisig
+				if numOfVins != 1 {
+					return nil, errors.New("Invalid witness data!")
+				}
+				witness, redeem, length, err := decodeMultiSigWitness(txBytes[index:])
+				if err != nil {
+					return nil, err
+				}
+				if !bytes.Equal(rawTx.Vins[0].ScriptPubkeySignature, calcRedeemHash(redeem)) {
+					return nil, errors.New("Invalid redeem script!")
+				}
+				rawTx.Vins[0].ScriptPubkeySignature = redeem
+				rawTx.Witness = witness
+				index += length
+			}
+		}
+
+		empty := true
+		for _, w := range rawTx.Witness {
+			if w.Signature != nil {
+				empty = false
 			}
 		}
+		if empty {
+			return nil, errors.New("No witness data found!")
+		}
 	}
 
 	if index+4 > limit {
@@ -290,18 +385,18 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 }
 
 func isScriptHash(script []byte) bool {
-	if script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
+	if len(script) == 25 && script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
 		return false
 	}
 	return true
 }
 
 func checkScriptType(script []byte) int {
-	if script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
+	if len(script) == 25 && script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
 		return TypeP2PKH
-	} else if script[0] == OpCodeHash160 && script[1] == 0x14 && script[22] == OpCodeEqual {
+	} else if len(script) == 23 && script[0] == OpCodeHash160 && script[1] == 0x14 && script[22] == OpCodeEqual {
 		return TypeP2SH
-	} else if script[0] == 0x00 && script[1] == 0x14 {
+	} else if len(script) == 22 && script[0] == 0x00 && script[1] == 0x14 {
 		return TypeBech32
 	} else {
 		return -1
@@ -338,18 +433,17 @@ func genScriptCodeFromRedeemScript(redeem string) ([]byte, error) {
 	}
 
 	ret := []byte{}
-	if redeemBytes[0] == 0x00 && redeemBytes[1] == 0x14 {
+	if checkScriptType(redeemBytes) == TypeBech32 {
 		ret = redeemBytes[2:]
-
-		if len(ret) != 0x14 {
-			return nil, errors.New("Invalid redeem script!")
-		}
 		ret = append([]byte{byte(len(ret))}, ret...)
 		ret = append([]byte{OpCodeDup, OpCodeHash160}, ret...)
 		ret = append(ret, OpCodeEqualVerify, OpCodeCheckSig)
 	} else {
-		//TODO
 		//for multi sig
+		_, _, err = parseMultiSig(redeemBytes)
+		if err != nil {
+			return nil, errors.New("Invalid redeem script!")
+		}
 		ret = redeemBytes
 	}
 
@@ -375,7 +469,7 @@ func (tx Transaction) calcSegwitBytesForSig(unlockData TxUnlock, txid, vout, seq
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, scriptLength(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	sigBytes = append(sigBytes, uint64ToLittleEndianBytes(unlockData.Amount)...)
@@ -389,16 +483,18 @@ func (tx Transaction) calcSegwitBytesForSig(unlockData TxUnlock, txid, vout, seq
 
 func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 	hashes := [][]byte{}
+	t.Witness = nil
 	if t.Vins == nil || len(t.Vins) != len(unlockData) {
 		return nil, errors.New("The number of Keys and UTXOs are not match!")
 	}
 
 	for i := 0; i < len(unlockData); i++ {
 		sigBytes := []byte{}
-		for j := 0; j < len(unlockData); j++ {
+		for j := 0; j < len(t.Vins); j++ {
 			t.Vins[j].ScriptPubkeySignature = nil
 		}
-		lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+		unlock := unlockData[i]
+		lockBytes, err := hex.DecodeString(unlock.LockScript)
 		if err != nil {
 			return nil, errors.New("Invalid lockscript!")
 		}
@@ -410,9 +506,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 		scriptType := checkScriptType(lockBytes)
 		if scriptType == TypeP2SH || scriptType == TypeBech32 {
 			if scriptType == TypeBech32 {
-				unlockData[i].RedeemScript = unlockData[i].LockScript
+				unlock.RedeemScript = unlock.LockScript
 			}
-			sigBytes, err = t.calcSegwitBytesForSig(unlockData[i], t.Vins[i].TxID, t.Vins[i].Vout, t.Vins[i].Sequence)
+			sigBytes, err = t.calcSegwitBytesForSig(unlock, t.Vins[i].TxID, t.Vins[i].Vout, t.Vins[i].Sequence)
 			if err != nil {
 				return nil, err
 			}
@@ -439,12 +535,43 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 }
 
 func verifyHashes(hashes [][]byte, sigPub []SignaturePubkey) bool {
+	if len(hashes) != len(sigPub) {
+		return false
+	}
 
 	for i := 0; i < len(sigPub); i++ {
-		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.Verify(pubkey, nil, hashes[i], sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+		if !verifyHash(hashes[i], sigPub[i].Pubkey, sigPub[i].Signature) {
+			return false
+		}
+	}
+	return true
+}
+
+func verifyHash(hash, pubkey, signature []byte) bool {
+	if len(pubkey) == 33 {
+		pubkey = owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	}
+	if len(pubkey) != 65 {
+		return false
+	}
+	return owcrypt.Verify(pubkey[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
+
+// verifyMultiSig checks that the signatures are by required keys of the redeem script, in the order of the keys
+func verifyMultiSig(hash, redeem []byte, witness []TxWitness) bool {
+	required, pubkeys, err := parseMultiSig(redeem)
+	if err != nil || len(witness) != required {
+		return false
+	}
+	next := 0
+	for _, w := range witness {
+		for next < len(pubkeys) && !verifyHash(hash, pubkeys[next], w.Signature) {
+			next++
+		}
+		if next == len(pubkeys) {
 			return false
 		}
+		next++
 	}
 	return true
 }
diff --git a/btcLikeTxDriver/witness.go b/btcLikeTxDriver/witness.go
index 36d9a11..d67021e 100644
--- a/btcLikeTxDriver/witness.go
+++ b/btcLikeTxDriver/witness.go
@@ -1,109 +1,22 @@
 package btcLikeTxDriver
 
-import "errors"
-
 type TxWitness struct {
 	Signature []byte
 	Pubkey    []byte
 }
 
-func (w TxWitness) encodeToScript(sigType byte) []byte {
-	r := w.Signature[:32]
-	s := w.Signature[32:]
-
-	if r[0]&0x80 == 0x80 {
-		r = append([]byte{0x00}, r...)
-	}
-	if s[0]&0x80 == 0x80 {
-		s = append([]byte{0}, s...)
-	}
-
-	r = append([]byte{byte(len(r))}, r...)
-	r = append([]byte{0x02}, r...)
-	s = append([]byte{byte(len(s))}, s...)
-	s = append([]byte{0x02}, s...)
-
-	rs := append(r, s...)
-	rs = append([]byte{byte(len(rs))}, rs...)
-	rs = append(rs, sigType)
-	rs = append([]byte{0x30}, rs...)
-	rs = append([]byte{byte(len(rs))}, rs...)
-
-	pub := append([]byte{byte(len(w.Pubkey))}, w.Pubkey...)
+func (w TxWitness) encodeSignatureToScript(sigType byte) []byte {
+	return SignaturePubkey{w.Signature, w.Pubkey}.encodeSignatureToScript(sigType)
+}
 
-	return append(rs, pub...)
+func (w TxWitness) encodeToScript(sigType byte) []byte {
+	return SignaturePubkey{w.Signature, w.Pubkey}.encodeToScript(sigType)
 }
 
 func decodeFromSegwitBytes(script []byte) (*TxWitness, error) {
-	var ret TxWitness
-	index := 0
-	sigLen := script[index]
-	index++
-
-	if script[index] != 0x30 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	rsLen := script[index]
-	index++
-
-	if script[index] != 0x02 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	rLen := script[index]
-	index++
-
-	if rLen == 0x21 {
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, errors.New("Invalid signature data!")
-		}
-		index++
-	}
-
-	ret.Signature = script[index : index+32]
-	index += 32
-
-	if script[index] != 0x02 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	sLen := script[index]
-	index++
-
-	if sLen == 0x21 {
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, errors.New("Invalid signature data!")
-		}
-		index++
-	}
-
-	ret.Signature = append(ret.Signature, script[index:index+32]...)
-	index += 32
-
-	if script[index] != SigHashAll {
-		return nil, errors.New("Only sigAll supported!")
-	}
-	index++
-
-	pubLen := script[index]
-	index++
-	if pubLen != 0x21 {
-		return nil, errors.New("Only compressed pubkey is supported!")
-	}
-
-	ret.Pubkey = script[index : index+33]
-	index += 33
-
-	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) || (sigLen+pubLen+2 != byte(len(script))) {
-		return nil, errors.New("Invalid transaction data!")
-	}
-
-	if index != len(script) {
-		return nil, errors.New("Invalid transaction data!")
+	sigPub, err := decodeFromScriptBytes(script)
+	if err != nil {
+		return nil, err
 	}
-	return &ret, nil
+	return &TxWitness{sigPub.Signature, sigPub.Pubkey}, nil
 }
-- 
2.43.0


From 7f8770ac1edb3dfff50525ce7f36174601bb11b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:11 +0000
Subject: [PATCH 45/45] fix: bytomTransaction: encode numbers, counts and
 witnesses as the chain does, bind keys and scripts when verifying

---
 bytomTransaction/bech32.go      |   2 +-
 bytomTransaction/transaction.go |  63 ++++++++++++----
 bytomTransaction/txHash.go      |  36 +++++++--
 bytomTransaction/txIn.go        |  33 ++++----
 bytomTransaction/txMultiSig.go  | 114 ++++++++--------------------
 bytomTransaction/txOut.go       |  17 +----
 bytomTransaction/txProfile.go   |   1 +
 bytomTransaction/txStruct.go    | 129 +++++++++-----------------------
 bytomTransaction/txUtil.go      |  27 ++++++-
 9 files changed, 186 insertions(+), 236 deletions(-)

diff --git a/bytomTransaction/bech32.go b/bytomTransaction/bech32.go
index eb15aaf..da51dfd 100644
--- a/bytomTransaction/bech32.go
+++ b/bytomTransaction/bech32.go
@@ -83,7 +83,7 @@ func Bech32Decode(bech string) (string, []byte, error) {
 func Bech32Encode(hrp string, data []byte) (string, error) {
 	// Calculate the checksum of the data and append it at the end.
 	checksum := bech32Checksum(hrp, data)
-	combined := append(data, checksum...)
+	combined := append(append([]byte{}, data...), checksum...)
 
 	// The resulting bech32 string is the concatenation of the hrp, the
 	// separator 1, data and checksum. Everything after the separator is
diff --git a/bytomTransaction/transaction.go b/bytomTransaction/transaction.go
index c1d3371..07615b8 100644
--- a/bytomTransaction/transaction.go
+++ b/bytomTransaction/transaction.go
@@ -1,8 +1,10 @@
 package bytomTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
+	"math"
 
 	owcrypt "github.com/blocktree/go-owcrypt"
 )
@@ -22,15 +24,29 @@ type Vout struct {
 
 func CreateEmptyRawTransaction(vins []Vin, vouts []Vout, timeRange uint64, isTestNet bool) (string, error) {
 
+	hrp := Bech32HRPSegwitMainNet
+	if isTestNet {
+		hrp = Bech32HRPSegwitTestNet
+	}
 	for _, addr := range vouts {
-		if isTestNet {
-			if addr.Address[:2] != Bech32HRPSegwitTestNet {
-				return "", errors.New("Invalid address to send!")
-			}
-		} else {
-			if addr.Address[:2] != Bech32HRPSegwitMainNet {
-				return "", errors.New("Invalid address to send!")
-			}
+		addrHrp, _, err := Bech32Decode(addr.Address)
+		if err != nil || addrHrp != hrp {
+			return "", errors.New("Invalid address to send!")
+		}
+	}
+
+	// the chain keeps numbers in 63 bits
+	if timeRange > math.MaxInt64 {
+		return "", errors.New("Invalid time range!")
+	}
+	for _, in := range vins {
+		if in.Amount > math.MaxInt64 || in.SourcePosition > math.MaxInt64 {
+			return "", errors.New("Invalid input!")
+		}
+	}
+	for _, out := range vouts {
+		if out.Amount > math.MaxInt64 {
+			return "", errors.New("Invalid amount to send!")
 		}
 	}
 
@@ -124,16 +140,25 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash) (strin
 		return "", errors.New("Invalid empty transaction,no output found!")
 	}
 
+	if len(txHashes) != len(emptyTrans.Inputs) {
+		return "", errors.New("The number of signatures is not the number of inputs!")
+	}
+
 	for i := 0; i < len(txHashes); i++ {
 		if txHashes[i].IsMultiSig() {
 			multiSigData, controlProgram, err := txHashes[i].getMultiSigBytes()
 			if err != nil {
 				return "", err
 			}
-			emptyTrans.Inputs[i].ControlProgram = controlProgram
+			if !bytes.Equal(emptyTrans.Inputs[i].ControlProgram, controlProgram) {
+				return "", errors.New("The script is not the one of the input!")
+			}
 			emptyTrans.Inputs[i].MultiSig = multiSigData
 			emptyTrans.Inputs[i].SigPub = nil
 		} else {
+			if txHashes[i].Normal == nil || len(emptyTrans.Inputs[i].ControlProgram) != 22 {
+				return "", errors.New("Miss signature data of the input!")
+			}
 			emptyTrans.Inputs[i].SigPub = &txHashes[i].Normal.SigPub
 			emptyTrans.Inputs[i].MultiSig = nil
 		}
@@ -178,16 +203,18 @@ func VerifyRawTransaction(txHex string) bool {
 
 	for i := 0; i < len(txHashes); i++ {
 		if len(signedTrans.Inputs[i].ControlProgram) == 0x22 {
-			sigs, pubs, err := getMultiSigPubs(signedTrans.Inputs[i].MultiSig)
+			sigs, pubs, signScript, err := getMultiSigPubs(signedTrans.Inputs[i].MultiSig)
 			if err != nil {
 				return false
 			}
+			if !bytes.Equal(signedTrans.Inputs[i].ControlProgram[2:], owcrypt.Hash(signScript, 0, owcrypt.HASH_ALG_SHA3_256)) {
+				return false
+			}
+			// the signatures are in the order of the keys
 			count := 0
-			for j := 0; j < len(sigs); j++ {
-				for k := j; k < len(pubs); k++ {
-					if owcrypt.SUCCESS == owcrypt.Verify(pubs[k], nil, txHashes[i], sigs[j], owcrypt.ECC_CURVE_ED25519_NORMAL) {
-						count++
-					}
+			for k := 0; k < len(pubs) && count < len(sigs); k++ {
+				if owcrypt.SUCCESS == owcrypt.Verify(pubs[k], nil, txHashes[i], sigs[count], owcrypt.ECC_CURVE_ED25519_NORMAL) {
+					count++
 				}
 			}
 
@@ -195,6 +222,12 @@ func VerifyRawTransaction(txHex string) bool {
 				return false
 			}
 		} else {
+			if signedTrans.Inputs[i].SigPub == nil {
+				return false
+			}
+			if !bytes.Equal(signedTrans.Inputs[i].ControlProgram[2:], owcrypt.Hash(signedTrans.Inputs[i].SigPub.Pubkey, 0, owcrypt.HASH_ALG_HASH160)) {
+				return false
+			}
 			if owcrypt.SUCCESS != owcrypt.Verify(signedTrans.Inputs[i].SigPub.Pubkey, nil, txHashes[i], signedTrans.Inputs[i].SigPub.Signature, owcrypt.ECC_CURVE_ED25519_NORMAL) {
 				return false
 			}
diff --git a/bytomTransaction/txHash.go b/bytomTransaction/txHash.go
index 477f850..8a4fae8 100644
--- a/bytomTransaction/txHash.go
+++ b/bytomTransaction/txHash.go
@@ -1,6 +1,7 @@
 package bytomTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -44,21 +45,42 @@ func (th *TxHash) PadMultiSig(signScriptHex string) error {
 	return nil
 }
 
+// getPubkey returns the public key the script names, which is the one that signed if there is one.
+func (m MultiTx) getPubkey() ([]byte, error) {
+	pubkey := m.SigPub.Pubkey
+	if m.Pubkey != "" {
+		named, err := hex.DecodeString(m.Pubkey)
+		if err != nil || (len(pubkey) != 0 && !bytes.Equal(pubkey, named)) {
+			return nil, errors.New("Invalid pubkey data for create multisig!")
+		}
+		pubkey = named
+	}
+	if len(pubkey) != 0x20 {
+		return nil, errors.New("Invalid pubkey data for create multisig!")
+	}
+	return pubkey, nil
+}
+
 func (th TxHash) getMultiSigBytes() ([]byte, []byte, error) {
 	if !th.IsMultiSig() {
 		return nil, nil, errors.New("Not a multisig txhash!")
 	}
 
+	if len(th.Multi) > MaxMultiSigKeys || int(th.NRequired) > len(th.Multi) {
+		return nil, nil, errors.New("Invalid required number for a multisig!")
+	}
+
 	signScript := []byte{}
 
 	signScript = append(signScript, Op_TxSignHash)
 
 	for _, key := range th.Multi {
-		if key.SigPub.Pubkey == nil || len(key.SigPub.Pubkey) != 0x20 {
-			return nil, nil, errors.New("Invalid pubkey data for create multisig!")
+		pubkey, err := key.getPubkey()
+		if err != nil {
+			return nil, nil, err
 		}
 		signScript = append(signScript, 0x20)
-		signScript = append(signScript, key.SigPub.Pubkey...)
+		signScript = append(signScript, pubkey...)
 	}
 
 	signScript = append(signScript, Op_1-1+th.NRequired)
@@ -69,9 +91,7 @@ func (th TxHash) getMultiSigBytes() ([]byte, []byte, error) {
 
 	scriptHash = append([]byte{0x00, 0x20}, scriptHash...)
 
-	sigBytes := []byte{}
-
-	sigBytes = append(sigBytes, 0x01, 0x03)
+	sigBytes := []byte{th.NRequired + 1}
 
 	count := 0
 	for _, sp := range th.Multi {
@@ -95,9 +115,9 @@ func (th TxHash) getMultiSigBytes() ([]byte, []byte, error) {
 		return nil, nil, errors.New("Not competely signed!")
 	}
 
-	sigBytes = append(sigBytes, byte(len(signScript)))
+	sigBytes = append(sigBytes, uint64ToUvarint(uint64(len(signScript)))...)
 	sigBytes = append(sigBytes, signScript...)
 
-	sigBytes = append([]byte{byte(len(sigBytes) - 1)}, sigBytes...)
+	sigBytes = append(uint64ToUvarint(uint64(len(sigBytes))), sigBytes...)
 	return sigBytes, scriptHash, nil
 }
diff --git a/bytomTransaction/txIn.go b/bytomTransaction/txIn.go
index 89eab81..371928c 100644
--- a/bytomTransaction/txIn.go
+++ b/bytomTransaction/txIn.go
@@ -66,6 +66,11 @@ func (in *TxIn) SetControlProgram(hexProgram string) error {
 	return nil
 }
 
+// isWitnessProgram tells whether the program pays to a public key or to a script.
+func isWitnessProgram(program []byte) bool {
+	return (len(program) == 22 || len(program) == 34) && program[0] == DefaultWitnessVersion && int(program[1]) == len(program)-2
+}
+
 func (in TxIn) GetControlProgram() string {
 	return hex.EncodeToString(in.ControlProgram)
 }
@@ -107,7 +112,7 @@ func (in TxIn) toBytes() ([]byte, error) {
 	if in.AssetID == nil || len(in.AssetID) != 32 {
 		return nil, errors.New("No asset ID found or asset ID is in wrong length!")
 	}
-	if in.ControlProgram == nil || (len(in.ControlProgram) != 22 && len(in.ControlProgram) != 34) {
+	if !isWitnessProgram(in.ControlProgram) {
 		return nil, errors.New("No control program found or control program is in wrong length!")
 	}
 	if in.SourcePosition == nil || len(in.SourcePosition) == 0 {
@@ -184,29 +189,16 @@ func decodeCommitment(script []byte) ([]byte, []byte, []byte, []byte, []byte, er
 	assetID := script[index : index+32]
 	index += 32
 
-	offset := 1
-	for {
-		if index+1 > limit {
-			return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
-		}
-
-		if script[index+offset-1] < 0x80 {
-			break
-		} else {
-			offset++
-			continue
-		}
+	amount, _, index, err := readUvarint(script, index)
+	if err != nil {
+		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
 	}
-	amount := script[index : index+offset]
-	index += offset
 
-	if index+1 > limit {
+	sourcePos, _, index, err := readUvarint(script, index)
+	if err != nil {
 		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
 	}
 
-	sourcePos := script[index : index+1]
-	index++
-
 	if index+1 > limit {
 		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
 	}
@@ -228,5 +220,8 @@ func decodeCommitment(script []byte) ([]byte, []byte, []byte, []byte, []byte, er
 	}
 
 	controlProgram := script[index+1:]
+	if !isWitnessProgram(controlProgram) {
+		return nil, nil, nil, nil, nil, errors.New("Control program unsupported!")
+	}
 	return sourceID, assetID, amount, sourcePos, controlProgram, nil
 }
diff --git a/bytomTransaction/txMultiSig.go b/bytomTransaction/txMultiSig.go
index c7bf728..8cf63b5 100644
--- a/bytomTransaction/txMultiSig.go
+++ b/bytomTransaction/txMultiSig.go
@@ -20,6 +20,10 @@ func CreateMultiSig(required byte, pubkeys [][]byte, isTestNet bool) (string, st
 		return "", "", errors.New("The required number is bigger than the count of pubkeys!")
 	}
 
+	if len(pubkeys) > MaxMultiSigKeys {
+		return "", "", errors.New("Too many pubkeys!")
+	}
+
 	signScript := []byte{}
 
 	signScript = append(signScript, Op_TxSignHash)
@@ -88,7 +92,7 @@ func getMultiSigDetail(signScript []byte) ([]MultiTx, byte, error) {
 
 	required := signScript[index] - (Op_1 - 1)
 
-	if required <= 0 {
+	if required <= 0 || len(multi) > MaxMultiSigKeys || int(required) > len(multi) {
 		return nil, 0, errors.New("Invalid required number for a multi sigScript!")
 	}
 	index++
@@ -114,106 +118,50 @@ func getMultiSigDetail(signScript []byte) ([]MultiTx, byte, error) {
 	return multi, required, nil
 }
 
-func getMultiSigPubs(sp []byte) ([][]byte, [][]byte, error) {
-
+func getMultiSigPubs(sp []byte) ([][]byte, [][]byte, []byte, error) {
 	var sigs [][]byte
 	var pubs [][]byte
 
-	limit := len(sp)
-	index := 0
-
-	if index+2 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+	witness, index, err := readVarstr(sp, 0)
+	if err != nil || index != len(sp) {
+		return nil, nil, nil, errors.New("Invalid signature and public key data!")
 	}
 
-	if sp[index] != 0x01 || sp[index+1] != 0x03 {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+	_, count, index, err := readUvarint(witness, 0)
+	if err != nil || count < 2 || count > MaxMultiSigKeys+1 {
+		return nil, nil, nil, errors.New("Invalid signature and public key data!")
 	}
 
-	index += 2
-
-	for {
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid signature and public key data!")
-		}
-
-		if sp[index] == 0x40 {
-			index++
-			if index+0x40 > limit {
-				return nil, nil, errors.New("Invalid signature and public key data!")
-			}
-			sigs = append(sigs, sp[index:index+0x40])
-			index += 0x40
-		} else {
-			break
+	for i := uint64(1); i < count; i++ {
+		var sig []byte
+		sig, index, err = readVarstr(witness, index)
+		if err != nil || len(sig) != 0x40 {
+			return nil, nil, nil, errors.New("Invalid signature and public key data!")
 		}
+		sigs = append(sigs, sig)
 	}
 
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+	signScript, index, err := readVarstr(witness, index)
+	if err != nil || index != len(witness) {
+		return nil, nil, nil, errors.New("Invalid signature and public key data!")
 	}
 
-	commitLen := int(sp[index])
-
-	index++
-
-	if index+commitLen != limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-	if sp[index] != Op_TxSignHash {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+	multi, required, err := getMultiSigDetail(signScript)
+	if err != nil {
+		return nil, nil, nil, err
 	}
-	index++
-	for {
-		if index+1 > limit {
-			return nil, nil, errors.New("Invalid signature and public key data!")
-		}
-		if sp[index] != 0x20 {
-			break
-		}
-		index++
 
-		if index+0x20 > limit {
-			return nil, nil, errors.New("Invalid signature and public key data!")
+	for _, m := range multi {
+		pub, err := m.getPubkey()
+		if err != nil {
+			return nil, nil, nil, err
 		}
-
-		pubs = append(pubs, sp[index:index+0x20])
-
-		index += 0x20
-	}
-
-	required := sp[index] - (Op_1 - 1)
-	index++
-
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-
-	count := sp[index] - (Op_1 - 1)
-	index++
-
-	if int(count) != len(pubs) {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+		pubs = append(pubs, pub)
 	}
 
 	if int(required) != len(sigs) {
-		return nil, nil, errors.New("Not competely signed!")
-	}
-	if index+1 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-
-	if sp[index] != Op_CheckMultiSig {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-	index++
-
-	if index != limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
+		return nil, nil, nil, errors.New("Not competely signed!")
 	}
 
-	return sigs, pubs, nil
+	return sigs, pubs, signScript, nil
 }
diff --git a/bytomTransaction/txOut.go b/bytomTransaction/txOut.go
index 56b261c..46915b7 100644
--- a/bytomTransaction/txOut.go
+++ b/bytomTransaction/txOut.go
@@ -101,22 +101,11 @@ func decodeOutputScript(script []byte) ([]byte, []byte, []byte, error) {
 	assetID := script[index : index+32]
 	index += 32
 
-	offset := 1
-	for {
-		if index+1 > limit {
-			return nil, nil, nil, errors.New("Invalid output script data!")
-		}
-		if script[index+offset-1] < 0x80 {
-			break
-		} else {
-			offset++
-			continue
-		}
+	amount, _, index, err := readUvarint(script, index)
+	if err != nil {
+		return nil, nil, nil, errors.New("Invalid output script data!")
 	}
 
-	amount := script[index : index+offset]
-	index += offset
-
 	if index+1 > limit {
 		return nil, nil, nil, errors.New("Invalid output script data!")
 	}
diff --git a/bytomTransaction/txProfile.go b/bytomTransaction/txProfile.go
index 929c482..7d4a110 100644
--- a/bytomTransaction/txProfile.go
+++ b/bytomTransaction/txProfile.go
@@ -18,6 +18,7 @@ const (
 	Op_1                      = byte(0x51)
 	Op_TxSignHash             = byte(0xAE)
 	Op_CheckMultiSig          = byte(0xAD)
+	MaxMultiSigKeys           = 16
 
 	BTMAssetID = "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"
 )
diff --git a/bytomTransaction/txStruct.go b/bytomTransaction/txStruct.go
index fe41dd5..28d9cd5 100644
--- a/bytomTransaction/txStruct.go
+++ b/bytomTransaction/txStruct.go
@@ -68,7 +68,7 @@ func (t Transaction) toBytes() ([]byte, error) {
 	ret = append(ret, t.Version...)
 	ret = append(ret, t.TimeRange...)
 
-	ret = append(ret, byte(len(t.Inputs)))
+	ret = append(ret, uint64ToUvarint(uint64(len(t.Inputs)))...)
 
 	for _, in := range t.Inputs {
 		inBytes, err := in.toBytes()
@@ -78,7 +78,7 @@ func (t Transaction) toBytes() ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Outputs)))
+	ret = append(ret, uint64ToUvarint(uint64(len(t.Outputs)))...)
 
 	for _, out := range t.Outputs {
 		outBytes, err := out.toBytes()
@@ -111,51 +111,27 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 	index++
 
 	// get transaction version
-	offset := 1
-	for {
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data!")
-		}
-		if txBytes[index+offset-1] < 0x80 {
-			break
-		} else {
-			index++
-			continue
-		}
+	var count uint64
+	var err error
+	rawTx.Version, _, index, err = readUvarint(txBytes, index)
+	if err != nil {
+		return nil, errors.New("Invalid transaction data!")
 	}
 
-	rawTx.Version = txBytes[index : index+offset]
-	index += offset
-
 	// get range time
-	offset = 1
-	for {
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data!")
-		}
-		if txBytes[index+offset-1] < 0x80 {
-			break
-		} else {
-			offset++
-			continue
-		}
+	rawTx.TimeRange, _, index, err = readUvarint(txBytes, index)
+	if err != nil {
+		return nil, errors.New("Invalid transaction data!")
 	}
 
-	rawTx.TimeRange = txBytes[index : index+offset]
-	index += offset
-
 	//get count of inputs
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data!")
-	}
-	numOfVins := txBytes[index]
-	index++
-	if numOfVins <= 0 {
+	_, count, index, err = readUvarint(txBytes, index)
+	if err != nil || count == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
 	// get vins
-	for i := byte(0); i < numOfVins; i++ {
+	for i := uint64(0); i < count; i++ {
 		var in TxIn
 		// get asset version of inputs
 		if index+1 > limit {
@@ -191,72 +167,34 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 
 		index += commitLength
 
-		if index+1 > limit {
+		var witness []byte
+		start := index
+		witness, index, err = readVarstr(txBytes, index)
+		if err != nil {
 			return nil, errors.New("Invalid transaction data!")
 		}
-		if txBytes[index] == 0x01 {
-			if index+2 > limit {
-				return nil, errors.New("Invalid transaction data!")
-			}
-			if txBytes[index+1] != 0x00 {
-				return nil, errors.New("Invalid transaction data!")
-			} else {
-				in.SigPub = nil
-				index += 2
+		if len(witness) == 1 && witness[0] == 0x00 {
+			in.SigPub = nil
+		} else if len(in.ControlProgram) == 34 {
+			in.MultiSig = txBytes[start:index]
+			if _, _, _, err := getMultiSigPubs(in.MultiSig); err != nil {
+				return nil, err
 			}
 		} else {
-			spScriptLen := int(txBytes[index])
-			if spScriptLen == 0 {
-				return nil, errors.New("Invalid transaction data!")
-			}
-			index++
-			if index+2 > limit {
-				return nil, errors.New("Invalid transaction data!")
-			}
-			if txBytes[index] == 0x02 && txBytes[index+1] == 0x40 {
-				index += 2
-				if index+64 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				sig := txBytes[index : index+64]
-				index += 64
-				if index+1 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				if txBytes[index] != 32 {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				index++
-				if index+32 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				pub := txBytes[index : index+32]
-				index += 32
-				in.SigPub = &SigPub{sig, pub}
-			} else if txBytes[index] == 0x01 && txBytes[index+1] == 0x03 {
-
-				if index+spScriptLen+1 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				in.MultiSig = txBytes[index : index+spScriptLen+1]
-				index += spScriptLen + 1
-			} else {
+			if len(witness) != 0x63 || witness[0] != 0x02 || witness[1] != 0x40 || witness[66] != 0x20 {
 				return nil, errors.New("Invalid transaction data!")
 			}
+			in.SigPub = &SigPub{witness[2:66], witness[67:]}
 		}
 		rawTx.Inputs = append(rawTx.Inputs, in)
 	}
 	//get count of outputs
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data!")
-	}
-	numOfVouts := txBytes[index]
-	index++
-	if numOfVouts == 0 {
+	_, count, index, err = readUvarint(txBytes, index)
+	if err != nil || count == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := uint64(0); i < count; i++ {
 		var out TxOut
 		if index+1 > limit {
 			return nil, errors.New("Invalid transaction data!")
@@ -312,7 +250,7 @@ func (t Transaction) getInputID(index int) ([]byte, error) {
 		return nil, errors.New("No inputs found in the transaction struct!")
 	}
 
-	if len(t.Inputs) < index {
+	if len(t.Inputs) <= index {
 		return nil, errors.New("Index of transaction inputs is out of range!")
 	}
 
@@ -375,13 +313,14 @@ func (t Transaction) getMuxID() ([]byte, error) {
 
 	var msgBytes []byte
 
-	msgBytes = append(msgBytes, byte(len(spendID)))
+	msgBytes = append(msgBytes, uint64ToUvarint(uint64(len(spendID)))...)
 
 	for i := 0; i < len(spendID); i++ {
 		msgBytes = append(msgBytes, spendID[i]...)
 		msgBytes = append(msgBytes, t.Inputs[i].AssetID...)
 		msgBytes = append(msgBytes, uint64ToLittleEndianBytes(t.Inputs[i].GetAmount())...)
-		msgBytes = append(msgBytes, uint64ToLittleEndianBytes(t.Inputs[i].GetSourcePosition())...)
+		// a spend has a single result, at position 0
+		msgBytes = append(msgBytes, uint64ToLittleEndianBytes(0)...)
 	}
 
 	msgBytes = append(msgBytes, uint64ToLittleEndianBytes(DefaultVMVersion)...)
@@ -458,14 +397,14 @@ func (t Transaction) getTxID() ([]byte, error) {
 
 	msgBytes := []byte{}
 
-	msgBytes = append(msgBytes, uint64ToLittleEndianBytes(DefaultTransactionVersion)...)
+	msgBytes = append(msgBytes, uint64ToLittleEndianBytes(uvarintToUint64(t.Version))...)
 
 	if t.TimeRange == nil {
 		return nil, errors.New("No time range found!")
 	}
 	msgBytes = append(msgBytes, uint64ToLittleEndianBytes(t.GetTimeRange())...)
 
-	msgBytes = append(msgBytes, byte(len(t.Outputs)))
+	msgBytes = append(msgBytes, uint64ToUvarint(uint64(len(t.Outputs)))...)
 
 	for _, o := range outID {
 		msgBytes = append(msgBytes, o...)
diff --git a/bytomTransaction/txUtil.go b/bytomTransaction/txUtil.go
index f67ebe3..e771707 100644
--- a/bytomTransaction/txUtil.go
+++ b/bytomTransaction/txUtil.go
@@ -2,10 +2,12 @@ package bytomTransaction
 
 import (
 	"encoding/binary"
+	"errors"
+	"math"
 )
 
 func uint64ToUvarint(x uint64) []byte {
-	ret := [8]byte{}
+	ret := [binary.MaxVarintLen64]byte{}
 
 	len := binary.PutUvarint(ret[:], x)
 
@@ -29,6 +31,29 @@ func uvarintToUint64(buf []byte) uint64 {
 	return ret
 }
 
+// readUvarint reads the number at data[index:], which must be in its shortest
+// form and fit the 63 bits of the chain, and returns its bytes, its value and
+// the index behind it.
+func readUvarint(data []byte, index int) ([]byte, uint64, int, error) {
+	if index >= len(data) {
+		return nil, 0, 0, errors.New("Invalid number!")
+	}
+	value, length := binary.Uvarint(data[index:])
+	if length <= 0 || value > math.MaxInt64 || (length > 1 && data[index+length-1] == 0) {
+		return nil, 0, 0, errors.New("Invalid number!")
+	}
+	return data[index : index+length], value, index + length, nil
+}
+
+// readVarstr reads a byte string with its length in front.
+func readVarstr(data []byte, index int) ([]byte, int, error) {
+	_, length, index, err := readUvarint(data, index)
+	if err != nil || length > uint64(len(data)-index) {
+		return nil, 0, errors.New("Invalid byte string!")
+	}
+	return data[index : index+int(length)], index + int(length), nil
+}
+
 //uint64ToLittleEndianBytes
 func uint64ToLittleEndianBytes(data uint64) []byte {
 	tmp := [8]byte{}
-- 
2.43.0

