// Package jit disturbs the scheduling of the code under test when a schedule
// found by the checker is looked for natively.
package jit

import (
	"math/rand/v2"
	"os"
	"runtime"
	"time"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
)

var on = os.Getenv("VERIF_JITTER") != ""

// Y pauses now and then. It must not synchronise goroutines.
func Y() {
	if nd.Stressing {
		runtime.GC()
	}
	if nd.Counting {
		nd.Steps++
	}
	if !on {
		return
	}
	switch r := rand.Uint32(); {
	case r%8 == 0:
		time.Sleep(time.Duration(r>>8%60) * time.Microsecond)
	case r%8 < 4:
		runtime.Gosched()
	}
}
