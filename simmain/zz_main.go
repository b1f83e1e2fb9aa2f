package main

import "github.com/securego/gosec/v2/zz_sim/world"

func main() { world.MainCLI(zzGosecMain) }
