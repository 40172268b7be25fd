module vh

go 1.23

require (
	github.com/Functional-Bus-Description-Language/go-fbdl v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/mattn/go-isatty v0.0.20 // indirect
	golang.org/x/exp v0.0.0-20230817173708-d852ddb80c63 // indirect
	golang.org/x/sys v0.11.0 // indirect
)

replace github.com/Functional-Bus-Description-Language/go-fbdl => /repo
