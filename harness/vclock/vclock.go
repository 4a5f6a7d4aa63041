// Package vclock is the clock of the code under test.
package vclock

import "time"

// Time is the current time if it is set.
var Time time.Time

// Now replaces time.Now.
func Now() time.Time {
	if Time.IsZero() {
		return time.Now()
	}
	return Time
}

// Since replaces time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
