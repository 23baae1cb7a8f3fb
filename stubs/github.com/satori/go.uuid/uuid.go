// Package uuid is a stand-in: it hands out distinct identifiers.
package uuid

import "strconv"

type UUID struct{ n int }

var last int

func NewV4() UUID {
	last++
	return UUID{last}
}

func (u UUID) String() string { return "uuid-" + strconv.Itoa(u.n) }
