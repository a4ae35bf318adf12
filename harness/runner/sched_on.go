package main

import "github.com/asap2Go/calibrationReader/zzvsched"

func init() {
	setSched = zzvsched.Set
}
