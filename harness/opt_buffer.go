package zzverif

import (
	"time"

	"github.com/matrix-org/sliding-sync/sync3/handler"
)

func init() { setBufferWait = func(d time.Duration) { handler.BufferWaitTime = d } }
