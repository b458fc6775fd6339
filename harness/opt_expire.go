package zzverif

import "github.com/matrix-org/sliding-sync/sync2/handler2"

func init() {
	expireOld = func(h any) { h.(*handler2.Handler).ExpireOldPollers() }
}
