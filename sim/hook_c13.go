//go:build c13

package main

import xw "github.com/shabbyrobe/xmlwriter"

func init() {
	stmtPoints = true
	xw.VerifYield = func() {
		if s := curSched; s != nil {
			s.yield()
		}
	}
	xw.VerifBlocked(func() {
		if s := curSched; s == nil || !s.blocked() {
			panic("deadlock")
		}
	})
}
