module github.com/chronos-tachyon/flate/verifharness

go 1.16

require (
	github.com/chronos-tachyon/flate v0.0.0
	github.com/rs/zerolog v1.23.0
)

replace github.com/chronos-tachyon/flate => /repo
