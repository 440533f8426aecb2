module verifharness

go 1.22.3

require (
	github.com/andybalholm/cascadia v1.3.2
	github.com/giulianopz/go-readability v0.0.0
	golang.org/x/net v0.25.0
)

replace github.com/giulianopz/go-readability => /repo
