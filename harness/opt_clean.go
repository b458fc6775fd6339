package zzverif

// The periodic cleanup, run on the proxy's database while it works.

import (
	"time"

	"github.com/matrix-org/sliding-sync/state"
)

func init() {
	newCleaner = func(pq string) (clean func(), stop func()) {
		st := state.NewStorage(pq)
		st.DB.SetMaxOpenConns(2)
		return func() {
			_ = st.TransactionsTable.Clean(time.Now().Add(-time.Hour))
			if err := st.RemoveInaccessibleStateSnapshots(); err != nil {
				panic(err)
			}
		}, st.Teardown
	}
}
