package zzharness

import "zzmc/mc"

func init() {
	prop = &Property{ID: "C01", Scns: c01,
		Rule: "All corpora of up to three documents over the listed contents of two fields, each asked 21 queries (0-4 sub-queries, 0-12 terms, repeated, empty and unknown terms and fields) on the memory store and on disk stores of cache capacity 0, 1 and 9, running, flushed and reopened; a scan over numbers of hits and of terms beyond the engine's concurrency limits with 1 and 4 CPUs; a scan over numbers of sub-queries. Compared with the set computed from the saved fields."}
}

func c01() []mc.Scenario { return searchScns(diffIDs2) }
