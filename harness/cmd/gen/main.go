package main

import (
	_ "verif/harness/genp"
	"verif/harness/pbt"
)

func main() { pbt.Main() }
