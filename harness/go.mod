module verif/harness

go 1.24

require github.com/infobloxopen/go-trees v0.0.0

replace github.com/infobloxopen/go-trees => /repo
