package main

import (
	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/asap2Go/calibrationReader/ihex32"
	"github.com/asap2Go/calibrationReader/srec19"
)

func init() {
	setProcs = func(op string, n int) {
		ihex32.VerifSetProcs(n)
		srec19.VerifSetProcs(n)
		a2l.VerifSetProcs(n)
	}
}
