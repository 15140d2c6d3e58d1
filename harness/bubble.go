package main

import (
	"flag"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
)

// progress is counted by whatever the harness observes.
var progress atomic.Int64

const stuckNote = "vmon: stuck in virtual time"

// stuckWatch ends the process when nothing was observed for 120 days of virtual time, all
// the while a goroutine was blocked in the same call into the library. (Timers of the
// library keep virtual time going, so the runtime does not tell a deadlock.)
func stuckWatch() {
	last, days, before := int64(-1), 0, ""
	for {
		time.Sleep(24 * time.Hour)
		if p := progress.Load(); p != last {
			last, days, before = p, 0, ""
			continue
		}
		if days++; days%60 != 0 {
			continue
		}
		buf := make([]byte, 1<<20)
		dump := string(buf[:runtime.Stack(buf, true)])
		now := ""
		for _, g := range strings.Split(dump, "\n\n") {
			if b := blockedInLib(g); b != "" && innermostInLib(g) {
				now += g + "\n\n"
			}
		}
		if now != "" && now == before {
			syscall.Write(2, []byte(stuckNote+"\n"+now))
			os.Exit(4)
		}
		before = now
	}
}

// inBubble runs f in a testing/synctest bubble: time is virtual, starts at
// 2000-01-01T00:00:00Z and advances only when every goroutine is blocked.
func inBubble(f func(), done func()) {
	testing.Init()
	os.Args = os.Args[:1]
	flag.Parse()
	testing.Main(func(_, _ string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "TestBubble", F: func(t *testing.T) {
		synctest.Test(t, func(t *testing.T) {
			go stuckWatch()
			f()
			done()
		})
	}}}, nil, nil)
}

func settle() { synctest.Wait() }

// slowWorkers run jobs of kind "slow" (see slow.go), in builds that have the os hook.
var slowWorkers = map[string]func(*W){}

func slowJobs(seed int64, n, c int) []Job {
	return jobs("slow", seed+100, n, c, map[string]int{"bubble": 1, "soft": 1})
}
