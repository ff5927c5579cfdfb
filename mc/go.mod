module verif/mc

go 1.23

require github.com/jtcaraball/goexpdt v0.0.0

replace github.com/jtcaraball/goexpdt => /repo
