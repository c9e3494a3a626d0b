module verif/harness

go 1.24

require github.com/savaki/kafka v0.0.0

replace github.com/savaki/kafka => /repo
