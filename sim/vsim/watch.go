package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/metrics"
	"sync/atomic"
	"time"
)

// beats counts the cases that were begun.
var beats atomic.Int64

// patience is how long a case may take. Most take milliseconds; one that exceeds its bound of
// steps ends long before.
const patience = 40 * time.Second

// most is how much memory a process may hold.
const most = 2500 << 20

// watch ends the process if a case does not end where the simulator does not count its steps, or
// takes all memory.
func watch() {
	go func() {
		last, since := beats.Load(), time.Now()
		sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(100 * time.Millisecond)
			metrics.Read(sample)
			word := ""
			if n := beats.Load(); n != last {
				last, since = n, time.Now()
			} else if time.Since(since) > patience {
				word = "stuck"
			}
			if sample[0].Value.Uint64() > most {
				word = "out of memory"
			}
			if word != "" {
				stacks := make([]byte, 1<<20)
				stacks = stacks[:runtime.Stack(stacks, true)]
				fmt.Fprintf(os.Stderr, "fatal error: %s\n\n%s\n", word, stacks)
				os.Exit(2)
			}
		}
	}()
}
