package sync2

import "time"

// VerifSetSleep replaces the pause between failed polls (verification builds only).
func VerifSetSleep(f func(time.Duration)) { timeSleep = f }
