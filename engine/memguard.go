package main

import (
	"runtime/metrics"
	"sync"
	"sync/atomic"
	"time"
)

// The memory guard: new jobs wait while the live heap is large, and when it
// grows on towards the limit of the machine the job started last is stopped
// (and reported as incomplete, never as a verdict).
const (
	memHold = 9 << 30
	memStop = 18 << 30
)

var guard struct {
	sync.Mutex
	running []*atomic.Bool
}

func liveHeap() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func guardEnter() *atomic.Bool {
	for {
		guard.Lock()
		if len(guard.running) == 0 || liveHeap() < memHold {
			f := new(atomic.Bool)
			guard.running = append(guard.running, f)
			guard.Unlock()
			return f
		}
		guard.Unlock()
		time.Sleep(200 * time.Millisecond)
	}
}

func guardLeave(f *atomic.Bool) {
	guard.Lock()
	defer guard.Unlock()
	for i, g := range guard.running {
		if g == f {
			guard.running = append(guard.running[:i:i], guard.running[i+1:]...)
			return
		}
	}
}

func guardWatch() {
	for {
		time.Sleep(500 * time.Millisecond)
		if liveHeap() < memStop {
			continue
		}
		guard.Lock()
		for i := len(guard.running) - 1; i >= 0; i-- {
			if !guard.running[i].Load() {
				guard.running[i].Store(true)
				break
			}
		}
		guard.Unlock()
		time.Sleep(4 * time.Second)
	}
}
