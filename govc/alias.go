package main

import "math/big"

type bigIntAlias = big.Int
