// Package ical is a stand-in with the declarations that suriya-go uses.
package ical

import (
	"io"
	"time"
)

type VComponent interface {
	EncodeIcal(w io.Writer) error
}

type VCalendar struct {
	VERSION, PRODID, URL, NAME, X_WR_CALNAME, DESCRIPTION, X_WR_CALDESC  string
	TIMEZONE_ID, X_WR_TIMEZONE, REFRESH_INTERVAL, X_PUBLISHED_TTL, COLOR string
	CALSCALE, METHOD                                                     string
	VComponent                                                           []VComponent
}

// Encoded holds the calendars handed to Encode.
var Encoded []*VCalendar

func (c *VCalendar) Encode(w io.Writer) error {
	Encoded = append(Encoded, c)
	return nil
}

type VEvent struct {
	UID     string
	DTSTAMP time.Time
	DTSTART time.Time
	DTEND   time.Time
	SUMMARY string
	TZID    string
	AllDay  bool
}

func (e *VEvent) EncodeIcal(w io.Writer) error { return nil }
