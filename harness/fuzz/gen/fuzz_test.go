package fuzz

import (
	"testing"

	_ "verif/harness/genp"
	"verif/harness/pbt"
)

func FuzzProperty(f *testing.F) { pbt.Fuzz(f) }

func TestReduce(t *testing.T) { pbt.Reduce(t) }
