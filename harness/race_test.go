package harness

import (
	"sync"
	"testing"

	geo "github.com/hzw456/go-geo"
	"pgregory.net/rapid"
)

// ---- C34 concurrent readers ----

// runConcurrent executes the scripts (indices into ops) at the same time and compares every result with that of the
// same call made alone: before, or (so that nothing is warmed up by it) after the concurrent phase.
func runConcurrent(rt *rapid.T, ops []apiOp, scripts [][]int) {
	var want []string
	before := ir(rt, 0, 3, "alone first") == 3
	if before {
		want = alone(ops)
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	got := make([][]string, len(scripts))
	for g, sc := range scripts {
		wg.Add(1)
		go func(g int, sc []int) {
			defer wg.Done()
			<-start
			for _, i := range sc {
				var res string
				if msg := noPanic(func() { res = ops[i].f() }); msg != "" {
					res = msg
				}
				got[g] = append(got[g], res)
			}
		}(g, sc)
	}
	close(start)
	wg.Wait()
	if !before {
		want = alone(ops)
	}
	for g, sc := range scripts {
		for j, i := range sc {
			if got[g][j] != want[i] {
				rt.Fatalf("%s among concurrent readers gives\n%s\nalone:\n%s", ops[i].name, got[g][j], want[i])
			}
		}
	}
}

func alone(ops []apiOp) []string {
	want := make([]string, len(ops))
	for i, op := range ops {
		if msg := noPanic(func() { want[i] = op.f() }); msg != "" {
			want[i] = msg
		}
	}
	return want
}

func TestC34_API(t *testing.T) {
	run(t, 50, "shared arguments for the whole public API (as in C32) and an index with a history; 2 to 6 goroutines, each making every read-only call in an order of its own, under the race detector; every case is non-trivial", func(rt *rapid.T, c *Case) {
		w := genWorld(rt, c, pick(rt, "spare", 0, 2), false)
		n := ir(rt, 2, 6, "goroutines")
		var scripts [][]int
		all := make([]int, len(w.ops))
		for i := range all {
			all[i] = i
		}
		for i := 0; i < n; i++ {
			scripts = append(scripts, rapid.Permutation(all).Draw(rt, "script"))
		}
		c.D("%d goroutines", n)
		c.NT(true)
		runConcurrent(rt, w.ops, scripts)
		if s := w.a.changed(); s != "" {
			rt.Fatalf("arguments modified: %s", s)
		}
	})
}

func TestC34_Index(t *testing.T) {
	run(t, 200, "an index with a construct/insert/delete history of up to 200 objects; 2 to 8 goroutines, each with a drawn script of window, conditional, id, nearest-neighbour and box queries, under the race detector; non-trivial: an index of depth at least 2", func(rt *rapid.T, c *Case) {
		m := newMachine(rt, c, false, true)
		for i := ir(rt, 0, 30, "steps"); i > 0; i-- {
			m.step(rt)
		}
		for i := ir(rt, 0, 2, "last"); i > 0; i-- { // queries so far may have left something cached
			s := m.genObj(rt)
			m.tree.Insert(s)
			m.objs = append(m.objs, rtObj{s, envel(s.Geom)})
		}
		c.NT(m.tree.Depth() > 1)
		var ops []apiOp
		n := ir(rt, 4, 12, "nops")
		for i := 0; i < n; i++ {
			switch ir(rt, 0, 4, "op") {
			case 0:
				w := m.genWindow(rt)
				ops = append(ops, apiOp{"SearchIntersect", func() string { return showSps(m.tree.SearchIntersect(&w)) }})
			case 1:
				w := m.genWindow(rt)
				ops = append(ops, apiOp{"SearchIntersectWithCond", func() string {
					return showSps(m.tree.SearchIntersectWithCond(&w, func(o ...geo.Spatial) bool { return len(o[0].ID)%2 == 0 }))
				}})
			case 2:
				id := "none"
				if len(m.objs) > 0 {
					id = pickObj(rt, m.objs).sp.ID
				}
				ops = append(ops, apiOp{"SearchBySpatialID", func() string {
					if m.tree.Size() == 0 {
						return ""
					}
					return showSps(m.tree.SearchBySpatialID(id))
				}})
			case 3:
				k, p := ir(rt, 0, 12, "k"), m.l.pt(genIP(rt, m.l.r, "q"))
				ops = append(ops, apiOp{"NearestNeighbors", func() string { return showSps(m.tree.NearestNeighbors(k, p)) }})
			case 4:
				ops = append(ops, apiOp{"GetAllBoundingBoxes", func() string {
					s := show(m.tree.Size(), m.tree.Depth())
					for _, b := range m.tree.GetAllBoundingBoxes() {
						s += show(b)
					}
					return s
				}})
			}
		}
		g := ir(rt, 2, 8, "goroutines")
		var scripts [][]int
		for i := 0; i < g; i++ {
			scripts = append(scripts, sliceOf(rt, "script", 3, 20, func(rt *rapid.T) int { return ir(rt, 0, len(ops)-1, "op") }))
		}
		c.D("%d goroutines", g)
		runConcurrent(rt, ops, scripts)
	})
}
