// Code generated by shimgen from time; DO NOT EDIT.

package time

import p "time"

const ANSIC = p.ANSIC
const April = p.April
const August = p.August

var Date = p.Date

const DateOnly = p.DateOnly
const DateTime = p.DateTime
const December = p.December

type Duration = p.Duration

const February = p.February

var FixedZone = p.FixedZone

const Friday = p.Friday
const Hour = p.Hour
const January = p.January
const July = p.July
const June = p.June
const Kitchen = p.Kitchen
const Layout = p.Layout

var LoadLocation = p.LoadLocation
var LoadLocationFromTZData = p.LoadLocationFromTZData
var Local = p.Local

type Location = p.Location

const March = p.March
const May = p.May
const Microsecond = p.Microsecond
const Millisecond = p.Millisecond
const Minute = p.Minute
const Monday = p.Monday

type Month = p.Month

const Nanosecond = p.Nanosecond
const November = p.November
const October = p.October

var Parse = p.Parse
var ParseDuration = p.ParseDuration

type ParseError = p.ParseError

var ParseInLocation = p.ParseInLocation

const RFC1123 = p.RFC1123
const RFC1123Z = p.RFC1123Z
const RFC3339 = p.RFC3339
const RFC3339Nano = p.RFC3339Nano
const RFC822 = p.RFC822
const RFC822Z = p.RFC822Z
const RFC850 = p.RFC850
const RubyDate = p.RubyDate
const Saturday = p.Saturday
const Second = p.Second
const September = p.September
const Stamp = p.Stamp
const StampMicro = p.StampMicro
const StampMilli = p.StampMilli
const StampNano = p.StampNano
const Sunday = p.Sunday
const Thursday = p.Thursday

type Time = p.Time

const TimeOnly = p.TimeOnly
const Tuesday = p.Tuesday

var UTC = p.UTC
var Unix = p.Unix

const UnixDate = p.UnixDate

var UnixMicro = p.UnixMicro
var UnixMilli = p.UnixMilli

const Wednesday = p.Wednesday

type Weekday = p.Weekday
