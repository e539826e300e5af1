package harness

import (
	"runtime"
	"time"
)

func mkTime(y, mo, d, h, mi, s int) time.Time {
	return time.Date(y, time.Month(mo), d, h, mi, s, 0, time.Local)
}

func yieldOnce() { runtime.Gosched() }
