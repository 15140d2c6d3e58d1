package main

import (
	"fmt"
	"net"
	"os"
	"regexp"
	"strconv"
	"sync"
	"time"
)

// syslogd stands in for the local syslog daemon.
type syslogd struct {
	path string
	conn *net.UnixConn
	mu   sync.Mutex
	cond *sync.Cond
	msgs []string
	n    int
	done chan struct{}
	gate sync.Mutex // held while the daemon is paused
}

func startSyslogd(path string) *syslogd {
	d := &syslogd{path: path}
	d.cond = sync.NewCond(&d.mu)
	os.Setenv("VERIF_SYSLOG", path)
	d.start()
	return d
}

func (d *syslogd) start() {
	c, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: d.path, Net: "unixgram"})
	if err != nil {
		fatal("%v", err)
	}
	c.SetReadBuffer(4 << 20)
	d.conn = c
	d.done = make(chan struct{})
	go func(c *net.UnixConn, done chan struct{}) {
		defer close(done)
		buf := make([]byte, 1<<20)
		for {
			d.gate.Lock()
			d.gate.Unlock()
			n, err := c.Read(buf)
			if err != nil {
				return
			}
			d.mu.Lock()
			d.msgs = append(d.msgs, string(buf[:n]))
			d.cond.Broadcast()
			d.mu.Unlock()
		}
	}(c, d.done)
}

// pause makes the daemon receive at most one more message until resume.
func (d *syslogd) pause()  { d.gate.Lock() }
func (d *syslogd) resume() { d.gate.Unlock() }

func (d *syslogd) stop() {
	d.conn.Close()
	<-d.done
	os.Remove(d.path)
}

// sync waits until everything sent so far was received and returns it.
func (d *syslogd) sync() []string {
	d.mu.Lock()
	d.n++
	mark := fmt.Sprintf("<0>MARK%d", d.n)
	d.mu.Unlock()
	c, err := net.Dial("unixgram", d.path)
	if err != nil {
		return nil
	}
	c.Write([]byte(mark))
	c.Close()
	dead := time.AfterFunc(60*time.Second, func() { d.mu.Lock(); d.msgs = append(d.msgs, mark); d.cond.Broadcast(); d.mu.Unlock() })
	defer dead.Stop()
	d.mu.Lock()
	defer d.mu.Unlock()
	for {
		for i, m := range d.msgs {
			if m == mark {
				got := append([]string(nil), d.msgs[:i]...)
				d.msgs = append([]string(nil), d.msgs[i+1:]...)
				return got
			}
		}
		d.cond.Wait()
	}
}

var sysRe = regexp.MustCompile(`(?s)^<(\d+)>(.*?) (\S*)\[(\d+)\]: (.*)$`)

type sysMsg struct {
	sev, pid int
	tag      string
	text     string
}

func parseSyslog(s string) (m sysMsg, ok bool) {
	x := sysRe.FindStringSubmatch(s)
	if x == nil {
		return m, false
	}
	p, _ := strconv.Atoi(x[1])
	m.sev = p & 7
	m.tag = x[3]
	m.pid, _ = strconv.Atoi(x[4])
	m.text = x[5]
	return m, true
}
