module verifharness

go 1.27

require (
	flychain v0.0.0
	github.com/go-stack/stack v1.8.1
	golang.org/x/crypto v0.5.0
)

replace flychain => /repo
