package site

import "github.com/go-stack/stack"

// Names are calls from files with ever longer names.
var Names = []func() stack.Call{
//line nnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:7
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:77
	func() stack.Call { return stack.Caller(0) },
//line nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.go:777
	func() stack.Call { return stack.Caller(0) },
}
