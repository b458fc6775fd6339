package zzverif

import (
	"context"
	"sort"
)

func ctxBG() context.Context { return context.Background() }

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func sortStrings(xs []string) { sort.Strings(xs) }
