// Package spew is a stand-in.
package spew

func Dump(a ...interface{}) {}
