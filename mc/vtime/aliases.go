// Code generated by cmd/aliases; DO NOT EDIT.

package vtime

import nat "time"

type (
	Duration = nat.Duration
	Location = nat.Location
	Month = nat.Month
	ParseError = nat.ParseError
	Time = nat.Time
	Weekday = nat.Weekday
)

const (
	ANSIC = nat.ANSIC
	April = nat.April
	August = nat.August
	DateOnly = nat.DateOnly
	DateTime = nat.DateTime
	December = nat.December
	February = nat.February
	Friday = nat.Friday
	Hour = nat.Hour
	January = nat.January
	July = nat.July
	June = nat.June
	Kitchen = nat.Kitchen
	Layout = nat.Layout
	March = nat.March
	May = nat.May
	Microsecond = nat.Microsecond
	Millisecond = nat.Millisecond
	Minute = nat.Minute
	Monday = nat.Monday
	Nanosecond = nat.Nanosecond
	November = nat.November
	October = nat.October
	RFC1123 = nat.RFC1123
	RFC1123Z = nat.RFC1123Z
	RFC3339 = nat.RFC3339
	RFC3339Nano = nat.RFC3339Nano
	RFC822 = nat.RFC822
	RFC822Z = nat.RFC822Z
	RFC850 = nat.RFC850
	RubyDate = nat.RubyDate
	Saturday = nat.Saturday
	Second = nat.Second
	September = nat.September
	Stamp = nat.Stamp
	StampMicro = nat.StampMicro
	StampMilli = nat.StampMilli
	StampNano = nat.StampNano
	Sunday = nat.Sunday
	Thursday = nat.Thursday
	TimeOnly = nat.TimeOnly
	Tuesday = nat.Tuesday
	UnixDate = nat.UnixDate
	Wednesday = nat.Wednesday
)

var (
	Date = nat.Date
	FixedZone = nat.FixedZone
	LoadLocation = nat.LoadLocation
	LoadLocationFromTZData = nat.LoadLocationFromTZData
	Local = nat.Local
	Parse = nat.Parse
	ParseDuration = nat.ParseDuration
	ParseInLocation = nat.ParseInLocation
	UTC = nat.UTC
	Unix = nat.Unix
	UnixMicro = nat.UnixMicro
	UnixMilli = nat.UnixMilli
)

