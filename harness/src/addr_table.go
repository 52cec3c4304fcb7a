//go:build go1.22

package main

import ae "github.com/blocktree/go-owcdrivers/addressEncoder"

// addrSpec is the specification of one address type: the network constants
// are written out here so that a change to the library's table shows.
type addrSpec struct {
	name           string
	typ            ae.AddressType
	enc            string
	alpha          string
	chk            string
	hash           string
	n              int
	prefix, suffix []byte
}

var addrSpecs = []addrSpec{
	{"BTC_mainnetAddressP2PKH", ae.BTC_mainnetAddressP2PKH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x00}, nil},
	{"BTC_mainnetAddressP2SH", ae.BTC_mainnetAddressP2SH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x05}, nil},
	{"BTC_mainnetAddressBech32V0", ae.BTC_mainnetAddressBech32V0, "bech32", bechAlpha, "bc", "h160", 20, []byte{0}, nil},
	{"BTC_mainnetPrivateWIF", ae.BTC_mainnetPrivateWIF, "base58", b58btc, "doubleSHA256", "", 32, []byte{0x80}, nil},
	{"BTC_mainnetPrivateWIFCompressed", ae.BTC_mainnetPrivateWIFCompressed, "base58", b58btc, "doubleSHA256", "", 32, []byte{0x80}, []byte{0x01}},
	{"BTC_mainnetPublicBIP32", ae.BTC_mainnetPublicBIP32, "base58", b58btc, "doubleSHA256", "", 74, []byte{0x04, 0x88, 0xB2, 0x1E}, nil},
	{"BTC_mainnetPrivateBIP32", ae.BTC_mainnetPrivateBIP32, "base58", b58btc, "doubleSHA256", "", 74, []byte{0x04, 0x88, 0xAD, 0xE4}, nil},
	{"BTC_testnetAddressP2PKH", ae.BTC_testnetAddressP2PKH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x6F}, nil},
	{"BTC_testnetAddressP2SH", ae.BTC_testnetAddressP2SH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0xC4}, nil},
	{"BTC_testnetAddressBech32V0", ae.BTC_testnetAddressBech32V0, "bech32", bechAlpha, "tb", "h160", 20, []byte{0}, nil},
	{"BTC_testnetPrivateWIF", ae.BTC_testnetPrivateWIF, "base58", b58btc, "doubleSHA256", "", 32, []byte{0xEF}, nil},
	{"BTC_testnetPrivateWIFCompressed", ae.BTC_testnetPrivateWIFCompressed, "base58", b58btc, "doubleSHA256", "", 32, []byte{0xEF}, []byte{0x01}},
	{"BTC_testnetPublicBIP32", ae.BTC_testnetPublicBIP32, "base58", b58btc, "doubleSHA256", "", 74, []byte{0x04, 0x35, 0x87, 0xCF}, nil},
	{"BTC_testnetPrivateBIP32", ae.BTC_testnetPrivateBIP32, "base58", b58btc, "doubleSHA256", "", 74, []byte{0x04, 0x35, 0x83, 0x94}, nil},
	{"XMR_mainnetPublicAddress", ae.XMR_mainnetPublicAddress, "XMR", b58btc, "keccak256", "", 64, []byte{0x12}, nil},
	{"XMR_mainnetPublicSubAddress", ae.XMR_mainnetPublicSubAddress, "XMR", b58btc, "keccak256", "", 64, []byte{0x2A}, nil},
	{"XMR_mainnetPublicIntegratedAddress", ae.XMR_mainnetPublicIntegratedAddress, "XMR", b58btc, "keccak256", "payID", 72, []byte{0x13}, nil},
	{"XMR_testnetPublicAddress", ae.XMR_testnetPublicAddress, "XMR", b58btc, "keccak256", "", 64, []byte{0x35}, nil},
	{"XMR_testnetPublicSubAddress", ae.XMR_testnetPublicSubAddress, "XMR", b58btc, "keccak256", "", 64, []byte{0x3f}, nil},
	{"XMR_testnetPublicIntegratedAddress", ae.XMR_testnetPublicIntegratedAddress, "XMR", b58btc, "keccak256", "payID", 72, []byte{0x36}, nil},
	{"DOGE_multiSignAddressP2PKH", ae.DOGE_multiSignAddressP2PKH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x16}, nil},
	{"ONT_Address", ae.ONT_Address, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x17}, nil},
	{"XRP_Address", ae.XRP_Address, "base58", b58xrp, "doubleSHA256", "h160", 20, []byte{0x00}, nil},
	{"BTM_mainnetAddressBech32V0", ae.BTM_mainnetAddressBech32V0, "bech32", bechAlpha, "bm", "h160", 20, []byte{0}, nil},
	{"BTM_testnetAddressBech32V0", ae.BTM_testnetAddressBech32V0, "bech32", bechAlpha, "tm", "h160", 20, []byte{0}, nil},
	{"ZEC_mainnet_t_AddressP2PKH", ae.ZEC_mainnet_t_AddressP2PKH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x1C, 0xB8}, nil},
	{"ZEC_mainnet_t_AddressP2SH", ae.ZEC_mainnet_t_AddressP2SH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x1C, 0xBD}, nil},
	{"ZEC_testnet_t_AddressP2PKH", ae.ZEC_testnet_t_AddressP2PKH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x1D, 0x25}, nil},
	{"ZEC_testnet_t_AddressP2SH", ae.ZEC_testnet_t_AddressP2SH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x1C, 0xBA}, nil},
	{"LTC_mainnetAddressP2PKH", ae.LTC_mainnetAddressP2PKH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x30}, nil},
	{"LTC_mainnetAddressP2SH", ae.LTC_mainnetAddressP2SH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x05}, nil},
	{"LTC_mainnetAddressP2SH2", ae.LTC_mainnetAddressP2SH2, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x32}, nil},
	{"LTC_mainnetAddressBech32V0", ae.LTC_mainnetAddressBech32V0, "bech32", bechAlpha, "ltc", "h160", 20, []byte{0}, nil},
	{"LTC_mainnetPrivateWIF", ae.LTC_mainnetPrivateWIF, "base58", b58btc, "doubleSHA256", "", 32, []byte{0xB0}, nil},
	{"LTC_mainnetPrivateWIFCompressed", ae.LTC_mainnetPrivateWIFCompressed, "base58", b58btc, "doubleSHA256", "", 32, []byte{0xB0}, []byte{0x01}},
	{"LTC_mainnetPublicBIP32", ae.LTC_mainnetPublicBIP32, "base58", b58btc, "doubleSHA256", "", 74, []byte{0x04, 0x88, 0xB2, 0x1E}, nil},
	{"LTC_mainnetPrivateBIP32", ae.LTC_mainnetPrivateBIP32, "base58", b58btc, "doubleSHA256", "", 74, []byte{0x04, 0x88, 0xAD, 0xE4}, nil},
	{"LTC_testnetAddressP2PKH", ae.LTC_testnetAddressP2PKH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x6F}, nil},
	{"LTC_testnetAddressP2SH", ae.LTC_testnetAddressP2SH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0xC4}, nil},
	{"LTC_testnetAddressP2SH2", ae.LTC_testnetAddressP2SH2, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x3A}, nil},
	{"LTC_testnetAddressBech32V0", ae.LTC_testnetAddressBech32V0, "bech32", bechAlpha, "tltc", "h160", 20, []byte{0}, nil},
	{"LTC_testnetPrivateWIF", ae.LTC_testnetPrivateWIF, "base58", b58btc, "doubleSHA256", "", 32, []byte{0xEF}, nil},
	{"LTC_testnetPrivateWIFCompressed", ae.LTC_testnetPrivateWIFCompressed, "base58", b58btc, "doubleSHA256", "", 32, []byte{0xEF}, []byte{0x01}},
	{"LTC_testnetPublicBIP32", ae.LTC_testnetPublicBIP32, "base58", b58btc, "doubleSHA256", "", 74, []byte{0x04, 0x35, 0x87, 0xCF}, nil},
	{"LTC_testnetPrivateBIP32", ae.LTC_testnetPrivateBIP32, "base58", b58btc, "doubleSHA256", "", 74, []byte{0x04, 0x35, 0x83, 0x94}, nil},
	{"BCH_mainnetAddressLegacy", ae.BCH_mainnetAddressLegacy, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x00}, nil},
	{"BCH_mainnetAddressCash", ae.BCH_mainnetAddressCash, "base32PolyMod", bechAlpha, "bitcoincash", "h160", 21, nil, nil},
	{"XTZ_mainnetAddress_tz1", ae.XTZ_mainnetAddress_tz1, "base58", b58btc, "doubleSHA256", "blake2b160", 20, []byte{0x06, 0xA1, 0x9F}, nil},
	{"XTZ_mainnetAddress_tz2", ae.XTZ_mainnetAddress_tz2, "base58", b58btc, "doubleSHA256", "blake2b160", 20, []byte{0x06, 0xA1, 0xA1}, nil},
	{"XTZ_mainnetAddress_tz3", ae.XTZ_mainnetAddress_tz3, "base58", b58btc, "doubleSHA256", "blake2b160", 20, []byte{0x06, 0xA1, 0xA4}, nil},
	{"XTZ_mainnetPublic_edpk", ae.XTZ_mainnetPublic_edpk, "base58", b58btc, "doubleSHA256", "", 32, []byte{0x0D, 0x0F, 0x25, 0xD9}, nil},
	{"XTZ_mainnetPrivate_edsk", ae.XTZ_mainnetPrivate_edsk, "base58", b58btc, "doubleSHA256", "", 64, []byte{0x0D, 0x0F, 0x3A, 0x07}, nil},
	{"XTZ_mainnetPrivate_edsk2", ae.XTZ_mainnetPrivate_edsk2, "base58", b58btc, "doubleSHA256", "", 32, []byte{0x2B, 0xF6, 0x4E, 0x07}, nil},
	{"XTZ_mainnetPrivate_spsk", ae.XTZ_mainnetPrivate_spsk, "base58", b58btc, "doubleSHA256", "", 32, []byte{0x11, 0xA2, 0xE0, 0xC9}, nil},
	{"XTZ_mainnetPrivate_p2sk", ae.XTZ_mainnetPrivate_p2sk, "base58", b58btc, "doubleSHA256", "blake2b160", 32, []byte{0x10, 0x51, 0xEE, 0xBD}, nil},
	{"ETH_mainnetPublicAddress", ae.ETH_mainnetPublicAddress, "eip55", "", "", "keccak256", 32, nil, nil},
	{"QTUM_mainnetAddressP2PKH", ae.QTUM_mainnetAddressP2PKH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x3A}, nil},
	{"QTUM_mainnetAddressP2SH", ae.QTUM_mainnetAddressP2SH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x32}, nil},
	{"QTUM_mainnetPrivateWIF", ae.QTUM_mainnetPrivateWIF, "base58", b58btc, "doubleSHA256", "", 32, []byte{0x80}, nil},
	{"QTUM_mainnetPrivateWIFCompressed", ae.QTUM_mainnetPrivateWIFCompressed, "base58", b58btc, "doubleSHA256", "", 32, []byte{0x80}, []byte{0x01}},
	{"QTUM_mainnetPublicBIP32", ae.QTUM_mainnetPublicBIP32, "base58", b58btc, "doubleSHA256", "", 74, []byte{0x04, 0x88, 0xB2, 0x1E}, nil},
	{"QTUM_mainnetPrivateBIP32", ae.QTUM_mainnetPrivateBIP32, "base58", b58btc, "doubleSHA256", "", 74, []byte{0x04, 0x88, 0xAD, 0xE4}, nil},
	{"QTUM_testnetAddressP2PKH", ae.QTUM_testnetAddressP2PKH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x78}, nil},
	{"QTUM_testnetAddressP2SH", ae.QTUM_testnetAddressP2SH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x6E}, nil},
	{"QTUM_testnetPrivateWIF", ae.QTUM_testnetPrivateWIF, "base58", b58btc, "doubleSHA256", "", 32, []byte{0xEF}, nil},
	{"QTUM_testnetPrivateWIFCompressed", ae.QTUM_testnetPrivateWIFCompressed, "base58", b58btc, "doubleSHA256", "", 32, []byte{0xEF}, []byte{0x01}},
	{"QTUM_testnetPublicBIP32", ae.QTUM_testnetPublicBIP32, "base58", b58btc, "doubleSHA256", "", 74, []byte{0x04, 0x35, 0x87, 0xCF}, nil},
	{"QTUM_testnetPrivateBIP32", ae.QTUM_testnetPrivateBIP32, "base58", b58btc, "doubleSHA256", "", 74, []byte{0x04, 0x35, 0x83, 0x94}, nil},
	{"DCRD_mainnetAddressP2PKH", ae.DCRD_mainnetAddressP2PKH, "base58", b58btc, "doubleBlake256", "ripemd160", 20, []byte{0x07, 0x3f}, nil},
	{"DCRD_mainnetAddressP2PK", ae.DCRD_mainnetAddressP2PK, "base58", b58btc, "doubleBlake256", "ripemd160", 20, []byte{0x13, 0x86}, nil},
	{"DCRD_mainnetAddressPKHEdwards", ae.DCRD_mainnetAddressPKHEdwards, "base58", b58btc, "doubleBlake256", "ripemd160", 20, []byte{0x07, 0x1f}, nil},
	{"DCRD_mainnetAddressPKHSchnorr", ae.DCRD_mainnetAddressPKHSchnorr, "base58", b58btc, "doubleBlake256", "ripemd160", 20, []byte{0x07, 0x01}, nil},
	{"DCRD_mainnetAddressP2SH", ae.DCRD_mainnetAddressP2SH, "base58", b58btc, "doubleBlake256", "ripemd160", 20, []byte{0x07, 0x1a}, nil},
	{"DCRD_mainnetAddressPrivate", ae.DCRD_mainnetAddressPrivate, "base58", b58btc, "doubleBlake256", "ripemd160", 20, []byte{0x22, 0xde}, nil},
	{"DCRD_testnetAddressP2PKH", ae.DCRD_testnetAddressP2PKH, "base58", b58btc, "doubleBlake256", "ripemd160", 20, []byte{0x0f, 0x21}, nil},
	{"DCRD_testnetAddressP2PK", ae.DCRD_testnetAddressP2PK, "base58", b58btc, "doubleBlake256", "ripemd160", 20, []byte{0x28, 0xf7}, nil},
	{"DCRD_testnetAddressPKHEdwards", ae.DCRD_testnetAddressPKHEdwards, "base58", b58btc, "doubleBlake256", "ripemd160", 20, []byte{0x0f, 0x01}, nil},
	{"DCRD_testnetAddressP2PKHSchnorr", ae.DCRD_testnetAddressP2PKHSchnorr, "base58", b58btc, "doubleBlake256", "ripemd160", 20, []byte{0x0e, 0xe3}, nil},
	{"DCRD_testnetAddressP2SH", ae.DCRD_testnetAddressP2SH, "base58", b58btc, "doubleBlake256", "ripemd160", 20, []byte{0x0e, 0xfc}, nil},
	{"DCRD_testnetAddressPrivate", ae.DCRD_testnetAddressPrivate, "base58", b58btc, "doubleBlake256", "ripemd160", 20, []byte{0x23, 0x0e}, nil},
	{"DCRD_simnetAddressP2PKH", ae.DCRD_simnetAddressP2PKH, "base58", b58btc, "doubleBlake256", "ripemd160", 20, []byte{0x0e, 0x91}, nil},
	{"DCRD_simnetAddressP2PK", ae.DCRD_simnetAddressP2PK, "base58", b58btc, "doubleBlake256", "ripemd160", 20, []byte{0x27, 0x6f}, nil},
	{"DCRD_simnetAddressPKHEdwards", ae.DCRD_simnetAddressPKHEdwards, "base58", b58btc, "doubleBlake256", "ripemd160", 20, []byte{0x0e, 0x71}, nil},
	{"DCRD_simnetAddressPKHSchnorr", ae.DCRD_simnetAddressPKHSchnorr, "base58", b58btc, "doubleBlake256", "ripemd160", 20, []byte{0x0e, 0x53}, nil},
	{"DCRD_simnetAddressP2SH", ae.DCRD_simnetAddressP2SH, "base58", b58btc, "doubleBlake256", "ripemd160", 20, []byte{0x0e, 0x6c}, nil},
	{"DCRD_simnetAddressPrivate", ae.DCRD_simnetAddressPrivate, "base58", b58btc, "doubleBlake256", "ripemd160", 20, []byte{0x23, 0x07}, nil},
	{"NAS_AccountAddress", ae.NAS_AccountAddress, "base58", b58btc, "sha3_256", "sha3_256_ripemd160", 20, []byte{0x19, 0x57}, nil},
	{"NAS_SmartContractAddress", ae.NAS_SmartContractAddress, "base58", b58btc, "sha3_256", "sha3_256_ripemd160", 20, []byte{0x19, 0x58}, nil},
	{"TRON_mainnetAddress", ae.TRON_mainnetAddress, "base58", b58btc, "doubleSHA256", "keccak256_last_twenty", 20, []byte{0x41}, nil},
	{"TRON_testnetAddress", ae.TRON_testnetAddress, "base58", b58btc, "doubleSHA256", "keccak256_last_twenty", 20, []byte{0xa0}, nil},
	{"ICX_walletAddress", ae.ICX_walletAddress, "ICX", "", "hx", "sha3_256_last_twenty", 20, nil, nil},
	{"VSYS_mainnetAddress", ae.VSYS_mainnetAddress, "base58", b58btc, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, []byte{0x05, 0x4D}, nil},
	{"VSYS_testnetAddress", ae.VSYS_testnetAddress, "base58", b58btc, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, []byte{0x05, 0x54}, nil},
	{"EOS_mainnetPublic", ae.EOS_mainnetPublic, "eos", b58btc, "ripemd160", "", 33, []byte("EOS"), nil},
	{"EOS_mainnetPrivateWIF", ae.EOS_mainnetPrivateWIF, "base58", b58btc, "doubleSHA256", "", 32, []byte{0x80}, nil},
	{"EOS_mainnetPrivateWIFCompressed", ae.EOS_mainnetPrivateWIFCompressed, "base58", b58btc, "doubleSHA256", "", 32, []byte{0x80}, []byte{0x01}},
	{"AE_mainnetAddress", ae.AE_mainnetAddress, "aeternity", b58btc, "doubleSHA256", "", 32, []byte("ak_"), nil},
	{"ATOM_mainnetAddress", ae.ATOM_mainnetAddress, "bech32", bechAlpha, "cosmos", "h160", 20, nil, nil},
	{"ATOM_testnetAddress", ae.ATOM_testnetAddress, "bech32", bechAlpha, "cosmos", "h160", 20, nil, nil},
	{"ELA_Address", ae.ELA_Address, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x21}, nil},
	{"WICC_mainnetAddressP2PKH", ae.WICC_mainnetAddressP2PKH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x49}, nil},
	{"WICC_testnetAddressP2PKH", ae.WICC_testnetAddressP2PKH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x87}, nil},
	{"TV_mainnetAddress", ae.TV_mainnetAddress, "base58", b58btc, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, []byte{0x1D, 0x3B}, nil},
	{"TV_testnetAddress", ae.TV_testnetAddress, "base58", b58btc, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, []byte{0x1D, 0x54}, nil},
	{"HC_mainnetPublicAddress", ae.HC_mainnetPublicAddress, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x09, 0x7F}, nil},
	{"HC_mainnetAddressP2PK", ae.HC_mainnetAddressP2PK, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x19, 0xa4}, nil},
	{"HC_mainnetAddressP2PKBliss", ae.HC_mainnetAddressP2PKBliss, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x07, 0xc3}, nil},
	{"HC_mainnetAddressP2PKH", ae.HC_mainnetAddressP2PKH, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x09, 0x7f}, nil},
	{"HC_mainnetAddressPKHEdwards", ae.HC_mainnetAddressPKHEdwards, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x09, 0x60}, nil},
	{"HC_mainnetAddressPKHSchnorr", ae.HC_mainnetAddressPKHSchnorr, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x09, 0x41}, nil},
	{"HC_mainnetAddressPKHBliss", ae.HC_mainnetAddressPKHBliss, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x09, 0x58}, nil},
	{"HC_mainnetAddressP2SH", ae.HC_mainnetAddressP2SH, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x09, 0x5a}, nil},
	{"HC_mainnetAddressPrivate", ae.HC_mainnetAddressPrivate, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x19, 0xab}, nil},
	{"HC_testnetAddressP2PK", ae.HC_testnetAddressP2PK, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x28, 0xf7}, nil},
	{"HC_testnetAddressP2PKBliss", ae.HC_testnetAddressP2PKBliss, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x0c, 0x66}, nil},
	{"HC_testnetAddressP2PKH", ae.HC_testnetAddressP2PKH, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x0f, 0x21}, nil},
	{"HC_testnetAddressPKHEdwards", ae.HC_testnetAddressPKHEdwards, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x0f, 0x01}, nil},
	{"HC_testnetAddressP2PKHSchnorr", ae.HC_testnetAddressP2PKHSchnorr, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x0e, 0xe3}, nil},
	{"HC_testnetAddressPKHBliss", ae.HC_testnetAddressPKHBliss, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x0e, 0xf9}, nil},
	{"HC_testnetAddressP2SH", ae.HC_testnetAddressP2SH, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x0e, 0xfc}, nil},
	{"HC_testnetAddressPrivate", ae.HC_testnetAddressPrivate, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x23, 0x0e}, nil},
	{"HC_simnetAddressP2PK", ae.HC_simnetAddressP2PK, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x27, 0x6f}, nil},
	{"HC_simnetAddressP2PKBliss", ae.HC_simnetAddressP2PKBliss, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x0b, 0xef}, nil},
	{"HC_simnetAddressP2PKH", ae.HC_simnetAddressP2PKH, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x0e, 0x91}, nil},
	{"HC_simnetAddressPKHEdwards", ae.HC_simnetAddressPKHEdwards, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x0e, 0x71}, nil},
	{"HC_simnetAddressPKHSchnorr", ae.HC_simnetAddressPKHSchnorr, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x0e, 0x53}, nil},
	{"HC_simnetAddressPKHBliss", ae.HC_simnetAddressPKHBliss, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x0e, 0x69}, nil},
	{"HC_simnetAddressP2SH", ae.HC_simnetAddressP2SH, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x0e, 0x6c}, nil},
	{"HC_simnetAddressPrivate", ae.HC_simnetAddressPrivate, "base58", b58btc, "doubleBlake256", "h160", 20, []byte{0x23, 0x07}, nil},
	{"BNB_mainnetAddress", ae.BNB_mainnetAddress, "bech32", bechAlpha, "bnb", "h160", 20, nil, nil},
	{"BSV_mainnetAddressP2PKH", ae.BSV_mainnetAddressP2PKH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x00}, nil},
	{"BSV_mainnetAddressP2SH", ae.BSV_mainnetAddressP2SH, "base58", b58btc, "doubleSHA256", "h160", 20, []byte{0x05}, nil},
	{"EVA_mainnetAddress", ae.EVA_mainnetAddress, "bech32", bechAlpha, "eva", "h160", 20, nil, nil},
	{"EVA_testnetAddress", ae.EVA_testnetAddress, "bech32", bechAlpha, "eva", "h160", 20, nil, nil},
	{"XCH_mainnetAddress", ae.XCH_mainnetAddress, "bech32m", bechAlpha, "xch", "", 32, nil, nil},
}
