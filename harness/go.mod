module verif/harness

go 1.16

require github.com/akito0107/xsqlparser v0.0.0

replace github.com/akito0107/xsqlparser => /repo
