package main

import (
	"verif/harness/pbt"
	_ "verif/harness/wire"
)

func main() { pbt.Main() }
