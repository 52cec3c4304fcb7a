module github.com/btcsuite/btclog

go 1.12
