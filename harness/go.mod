module verif/harness

go 1.25

require github.com/muguangyi/ferry v0.0.0

replace github.com/muguangyi/ferry => /repo
