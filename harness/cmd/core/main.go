package main

import (
	_ "verif/harness/core"
	"verif/harness/pbt"
)

func main() { pbt.Main() }
