//go:build mcsched

package main

import "github.com/jtcaraball/goexpdt/mcpoint"

func setPoint(f func(int)) bool {
	mcpoint.Hook = f
	return true
}
