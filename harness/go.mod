module verif/harness

go 1.24

require (
	github.com/jtejido/linear v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/jtejido/linear => /repo
