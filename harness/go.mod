module verif/harness

go 1.25

require github.com/zenazn/goji v0.0.0

replace github.com/zenazn/goji => /repo
