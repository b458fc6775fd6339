package zzverif

import "github.com/matrix-org/sliding-sync/sync2"

func init() { setPollSleep = sync2.VerifSetSleep }
