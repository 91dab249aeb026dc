package vp

import (
	"context"
	"math/rand"
	"net"
	"strconv"
	"time"
)

// The replay rewrites the repository's use of package time to these scaled versions.

func TimeAfter(d time.Duration) <-chan time.Time          { return time.After(d / scale) }
func TimeSleep(d time.Duration)                           { time.Sleep(d / scale) }
func TimeNewTimer(d time.Duration) *time.Timer            { return time.NewTimer(d / scale) }
func TimeNewTicker(d time.Duration) *time.Ticker          { return time.NewTicker(d / scale) }
func TimeTick(d time.Duration) <-chan time.Time           { return time.Tick(d / scale) }
func TimeAfterFunc(d time.Duration, f func()) *time.Timer { return time.AfterFunc(d/scale, f) }
func ContextWithTimeout(c context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithTimeout(c, d/scale)
}

// Scale is the factor by which replay shortens durations.
func Scale() time.Duration { return scale }

// TimeNow is the time of the scaled clock, RealTime the real time that stands for a time of it.
func TimeNow() time.Time {
	now := time.Now()
	return now.Add(now.Sub(start) * (scale - 1))
}

func RealTime(t time.Time) time.Time {
	if t.IsZero() {
		return t
	}
	return start.Add(t.Sub(start) / scale)
}

func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

func ContextWithDeadline(c context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return context.WithDeadline(c, RealTime(t))
}

func NetDialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return net.DialTimeout(network, address, d/scale)
}

// Random numbers are those of the path that is replayed.

func rnd(v int64) int64 {
	if s, ok := value("@rand"); ok {
		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
			return i
		}
	}
	return v
}

func RandIntn(n int) int       { return int(rnd(int64(rand.Intn(n)))) }
func RandInt63n(n int64) int64 { return rnd(rand.Int63n(n)) }
func RandInt31n(n int32) int32 { return int32(rnd(int64(rand.Int31n(n)))) }
func RandInt() int             { return int(rnd(int64(rand.Int()))) }
func RandInt63() int64         { return rnd(rand.Int63()) }
func RandInt31() int32         { return int32(rnd(int64(rand.Int31()))) }
