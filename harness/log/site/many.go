package site

import "flychain/log"

// Many has one logging statement per line.
var Many = []func(string, log.Lvl){
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
	func(m string, l log.Lvl) { log.Output(m, l, 0) },
}

// ManyLine is the line of the first.
const ManyLine = 7
