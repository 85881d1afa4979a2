package harness

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"testing"

	geo "github.com/hzw456/go-geo"
	"pgregory.net/rapid"
)

// Large indexes: few drawn values (constructor, size, capacities, seed, kind of data) determine hundreds to thousands
// of objects, so that many sizes and node capacities are met; the objects are checked against a linear scan.

type bigIndex struct {
	r     *rand.Rand
	tree  *geo.Rtree
	objs  map[string]rtObj
	ids   []string
	min   int
	max   int
	n     int
	kind  int
	grid  float64
	grown bool
	c     *Case
}

func (b *bigIndex) pt() geo.Point {
	switch b.kind {
	case 0: // coarse grid: many equal coordinates
		return geo.Point{X: float64(b.r.Intn(40)) * b.grid, Y: float64(b.r.Intn(40)) * b.grid}
	case 1: // one line
		return geo.Point{X: float64(b.r.Intn(5000)) * b.grid, Y: b.grid}
	case 2: // clusters
		return geo.Point{X: (float64(b.r.Intn(6))*1000 + b.r.Float64()) * b.grid, Y: (float64(b.r.Intn(6))*1000 + b.r.Float64()) * b.grid}
	}
	return geo.Point{X: (b.r.Float64() - 0.5) * 1000 * b.grid, Y: (b.r.Float64() - 0.5) * 1000 * b.grid}
}

func (b *bigIndex) geom() geo.Geometry {
	p := b.pt()
	switch b.r.Intn(6) {
	case 0:
		q := b.pt()
		return geo.LineString{p, {X: p.X + (q.X-p.X)*0.05, Y: p.Y + (q.Y-p.Y)*0.05}}
	case 1:
		w, h := b.r.Float64()*30*b.grid, b.r.Float64()*30*b.grid
		return geo.Polygon{geo.LinearRing{p, {X: p.X + w, Y: p.Y}, {X: p.X + w, Y: p.Y + h}, {X: p.X, Y: p.Y + h}, p}}
	case 2:
		return geo.MultiPoint{p, b.pt()}
	}
	return p
}

func (b *bigIndex) add(id string) geo.Spatial {
	s := geo.Spatial{ID: id, Geom: b.geom()}
	if b.r.Intn(3) == 0 {
		s.Properties = b.r.Intn(5)
	}
	b.objs[id] = rtObj{s, envelope(s.Geom)}
	b.ids = append(b.ids, id)
	return s
}

func (b *bigIndex) drop(i int) {
	delete(b.objs, b.ids[i])
	b.ids[i] = b.ids[len(b.ids)-1]
	b.ids = b.ids[:len(b.ids)-1]
}

func newBig(rt *rapid.T, c *Case, top float64) *bigIndex {
	b := &bigIndex{objs: map[string]rtObj{}, c: c}
	n := int(math.Exp(uf(rt, 0, math.Log(top), "n")))
	ctor := ir(rt, 0, 3, "ctor")
	b.max = pick(rt, "max", 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 16, 20, 27, 32, 50, 64, 80, 100)
	b.min = ir(rt, 1, b.max/2, "min")
	switch ir(rt, 0, 5, "round") { // sizes around products and powers of the capacity
	case 0:
		n = b.max*ir(rt, 1, b.max+1, "f") + ir(rt, -1, 1, "d")
	case 1:
		n = b.max*b.max*ir(rt, 1, 4, "f") + ir(rt, -1, 1, "d")
	}
	n = min(max(n, 1), int(top))
	b.kind = ir(rt, 0, 3, "kind")
	b.grid = pick(rt, "grid", 1.0, 0.25, 1e-5, 0.1, 1e6)
	seed := rapid.Uint64().Draw(rt, "seed")
	b.r = rand.New(rand.NewSource(int64(seed)))
	grown := bl(rt, "grown")
	b.grown = grown
	c.D("n=%d ctor=%d min=%d max=%d kind=%d grid=%v seed=%d grown=%v", n, ctor, b.min, b.max, b.kind, b.grid, seed, grown)
	var ss []geo.Spatial
	for i := 0; i < n; i++ {
		ss = append(ss, b.add(fmt.Sprintf("o%d", i)))
	}
	in := append([]geo.Spatial(nil), ss...)
	if grown {
		in = nil
	}
	switch ctor {
	case 0:
		b.tree = geo.NewTree(in...)
		b.min, b.max = 2, 10
		if len(in) >= 10 {
			b.min, b.max = len(in)/6, len(in)/2
		}
	default:
		b.tree = geo.NewMinMaxTree(b.min, b.max, in...)
	}
	for i := range in {
		if !reflect.DeepEqual(in[i], ss[i]) {
			rt.Fatalf("building the index reordered the caller's objects at %d", i)
		}
	}
	if grown {
		for _, s := range ss {
			b.tree.Insert(s)
		}
	}
	b.n = n
	return b
}

// churn deletes and inserts many objects.
func (b *bigIndex) churn(rt *rapid.T) {
	del := ir(rt, 0, 3, "del")
	c := len(b.ids) * del / 4
	if del == 3 && bl(rt, "nearlyall") {
		c = len(b.ids) - ir(rt, 0, min(3, len(b.ids)), "left")
	}
	ins := pick(rt, "ins", 0, 1, 20, b.n/4, b.n/2)
	b.c.D("\n churn delete=%d insert=%d", c, ins)
	for i := 0; i < c; i++ {
		k := b.r.Intn(len(b.ids))
		s := b.objs[b.ids[k]].sp
		if b.r.Intn(12) == 0 {
			if !b.tree.DeleteBySpatialID(s.ID) {
				rt.Fatalf("DeleteBySpatialID(%q) of a stored object reports false", s.ID)
			}
		} else if !b.tree.Delete(s) {
			rt.Fatalf("Delete of a stored object reports false: %s", spKey(s))
		}
		b.drop(k)
	}
	for i := 0; i < ins; i++ {
		if len(b.ids) > 0 && b.r.Intn(8) == 0 {
			k := b.r.Intn(len(b.ids))
			id := b.ids[k]
			b.drop(k)
			b.tree.UpsertBySpatialID(b.add(id))
			continue
		}
		b.n++
		b.tree.Insert(b.add(fmt.Sprintf("n%d", b.n)))
	}
	if b.tree.Size() != len(b.objs) {
		rt.Fatalf("Size() = %d, want %d", b.tree.Size(), len(b.objs))
	}
}

func (b *bigIndex) window() geo.Box {
	p := b.pt()
	switch b.r.Intn(4) {
	case 0:
		return geo.Box{MinX: p.X, MinY: p.Y, MaxX: p.X, MaxY: p.Y}
	case 1:
		w := math.Pow(10, b.r.Float64()*4-1) * b.grid
		return geo.Box{MinX: p.X, MinY: p.Y, MaxX: p.X + w, MaxY: p.Y + w*b.r.Float64()}
	case 2:
		q := b.pt()
		return geo.Box{MinX: math.Min(p.X, q.X), MinY: math.Min(p.Y, q.Y), MaxX: math.Max(p.X, q.X), MaxY: math.Max(p.Y, q.Y)}
	}
	return geo.Box{MinX: -1e12, MinY: -1e12, MaxX: 1e12, MaxY: 1e12}
}

// same compares a result with the expected ids: each once, content unchanged.
func (b *bigIndex) same(rt *rapid.T, what string, got []geo.Spatial, want map[string]bool) {
	seen := map[string]bool{}
	for _, s := range got {
		if seen[s.ID] {
			rt.Fatalf("%s: %q is returned twice", what, s.ID)
		}
		seen[s.ID] = true
		if !want[s.ID] {
			rt.Fatalf("%s: %q should not be returned", what, s.ID)
		}
		if !reflect.DeepEqual(s, b.objs[s.ID].sp) {
			rt.Fatalf("%s: %s is returned as %s", what, spKey(b.objs[s.ID].sp), spKey(s))
		}
	}
	if len(seen) != len(want) {
		for id := range want {
			if !seen[id] {
				rt.Fatalf("%s: %d of %d objects are missing, e.g. %s", what, len(want)-len(seen), len(want), spKey(b.objs[id].sp))
			}
		}
	}
}

const bigRule = "index of 1 to a few thousand seeded objects (grid, line, clusters, spread), bulk-loaded or grown, node capacity 2..100 or the default, then up to two rounds of mass deletion and insertion; "

func TestC01_Large(t *testing.T) {
	run(t, 12, bigRule+"windows and conditional windows compared with a linear scan; non-trivial: more objects than one node holds and a window that hits some but not all", func(rt *rapid.T, c *Case) {
		b := newBig(rt, c, 4000)
		for round := ir(rt, 0, 2, "rounds"); ; round-- {
			for k := 0; k < 12; k++ {
				w := b.window()
				if k == 0 {
					w = geo.Box{MinX: -1e12, MinY: -1e12, MaxX: 1e12, MaxY: 1e12}
				}
				want, cw := map[string]bool{}, map[string]bool{}
				for id, o := range b.objs {
					if boxMeet(o.box, w) {
						want[id] = true
						if o.sp.Properties == nil {
							cw[id] = true
						}
					}
				}
				c.NT(b.n > b.max && len(want) > 0 && len(want) < len(b.objs))
				b.same(rt, fmt.Sprintf("SearchIntersect(%v)", w), b.tree.SearchIntersect(&w), want)
				b.same(rt, fmt.Sprintf("SearchIntersectWithCond(%v)", w), b.tree.SearchIntersectWithCond(&w, func(s ...geo.Spatial) bool { return s[0].Properties == nil }), cw)
			}
			if round == 0 {
				break
			}
			b.churn(rt)
			b.grown = false
		}
	})
}

func TestC02_Large(t *testing.T) {
	run(t, 8, bigRule+"every operation's report, the size, the full content and id lookups compared with a map; non-trivial: more objects than one node holds and at least one round of deletion", func(rt *rapid.T, c *Case) {
		b := newBig(rt, c, 3000)
		for round := ir(rt, 0, 2, "rounds"); ; round-- {
			all := map[string]bool{}
			for id := range b.objs {
				all[id] = true
			}
			b.same(rt, "full content", b.tree.SearchIntersect(&geo.Box{MinX: -1e12, MinY: -1e12, MaxX: 1e12, MaxY: 1e12}), all)
			for k := 0; k < 3 && len(b.ids) > 0; k++ {
				id := b.ids[b.r.Intn(len(b.ids))]
				b.same(rt, "SearchBySpatialID("+id+")", b.tree.SearchBySpatialID(id), map[string]bool{id: true})
			}
			if got := b.tree.SearchBySpatialID("gone"); len(got) != 0 {
				rt.Fatalf("lookup of an absent id gives %v", got)
			}
			if b.tree.Delete(geo.Spatial{ID: "gone", Geom: b.pt()}) || b.tree.DeleteBySpatialID("gone") {
				rt.Fatalf("deleting an absent object reports true")
			}
			if b.tree.Size() != len(b.objs) {
				rt.Fatalf("Size() = %d, want %d", b.tree.Size(), len(b.objs))
			}
			if round == 0 {
				break
			}
			c.NT(b.n > b.max)
			b.churn(rt)
			b.grown = false
		}
	})
}

func TestC03_Large(t *testing.T) {
	run(t, 8, bigRule+"k-nearest queries with k from 1 to the size compared with a sorted linear scan; non-trivial: more objects than one node holds", func(rt *rapid.T, c *Case) {
		b := newBig(rt, c, 5000)
		c.NT(b.n > b.max)
		for round := ir(rt, 0, 2, "rounds"); ; round-- {
			for q := 0; q < 30; q++ {
				p := b.pt()
				if q%2 == 0 {
					p = geo.Point{X: p.X + 3.3*b.grid, Y: p.Y - 2.1*b.grid}
				}
				k := 1 + b.r.Intn(20)
				if q > 27 {
					k = b.r.Intn(len(b.objs) + 2)
				}
				c.D("\n knn k=%d p=%v", k, p)
				got := b.tree.NearestNeighbors(k, p)
				if len(got) != min(k, len(b.objs)) {
					rt.Fatalf("%d nearest of %d: %d objects returned", k, len(b.objs), len(got))
				}
				seen := map[string]bool{}
				var all []float64
				for _, o := range b.objs {
					all = append(all, distToBox(p, o.box))
				}
				sort.Float64s(all)
				for i, s := range got {
					o, ok := b.objs[s.ID]
					if !ok || seen[s.ID] || !reflect.DeepEqual(o.sp, s) {
						rt.Fatalf("%d nearest: %s is not stored or returned twice", k, spKey(s))
					}
					seen[s.ID] = true
					if d := distToBox(p, o.box); math.Abs(d-all[i]) > 1e-12*math.Max(d, all[i]) {
						rt.Fatalf("neighbour %d of %v is at squared distance %v, the true one at %v", i, p, d, all[i])
					}
				}
			}
			if round == 0 {
				break
			}
			b.churn(rt)
			b.grown = false
		}
	})
}

func TestC04_Large(t *testing.T) {
	run(t, 4, bigRule+"every reported internal box is tight and the boxes cover the objects level by level; non-trivial: depth of 3 or more", func(rt *rapid.T, c *Case) {
		b := newBig(rt, c, 1200)
		for round := ir(rt, 0, 2, "rounds"); ; round-- {
			d := b.tree.Depth()
			c.NT(d >= 3)
			c.L("depth=%d", min(d, 8))
			if b.grown && b.min >= 2 {
				bound := math.Max(1, 1+math.Log(float64(len(b.objs))/2)/math.Log(float64(b.min)))
				if float64(d) > bound+1e-9 {
					rt.Fatalf("depth %d of a grown index of %d objects, min fill %d, bound %.3f", d, len(b.objs), b.min, bound)
				}
			}
			boxes := b.tree.GetAllBoundingBoxes()
			cover := map[string]int{}
			for _, bx := range boxes {
				var sides [4]bool
				for id, o := range b.objs {
					if boxIn(*bx, o.box) {
						cover[id]++
						sides[0] = sides[0] || o.box.MinX == bx.MinX
						sides[1] = sides[1] || o.box.MaxX == bx.MaxX
						sides[2] = sides[2] || o.box.MinY == bx.MinY
						sides[3] = sides[3] || o.box.MaxY == bx.MaxY
					}
				}
				if sides != [4]bool{true, true, true, true} {
					rt.Fatalf("internal box %v is not tight (minX,maxX,minY,maxY attained: %v)", *bx, sides)
				}
			}
			if d == 1 && len(boxes) != 0 {
				rt.Fatalf("index of depth 1 reports %d internal boxes", len(boxes))
			}
			for id := range b.objs {
				if cover[id] < d-1 {
					rt.Fatalf("only %d internal boxes contain %s, depth is %d", cover[id], id, d)
				}
			}
			if round == 0 {
				break
			}
			b.churn(rt)
			b.grown = false
		}
	})
}
