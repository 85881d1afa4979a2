package harness

import (
	"math"
	"math/big"
	"testing"

	geo "github.com/hzw456/go-geo"
	"pgregory.net/rapid"
)

// ---- C11 bounding boxes ----

func clampGeom2(g geo.Geometry, lim float64) geo.Geometry {
	cl := func(v float64) float64 {
		if math.Abs(v) > lim {
			return math.Mod(v, lim)
		}
		return v
	}
	pts := func(ps []geo.Point) {
		for i := range ps {
			ps[i] = geo.Point{X: cl(ps[i].X), Y: cl(ps[i].Y)}
		}
	}
	switch g := g.(type) {
	case geo.Point:
		return geo.Point{X: cl(g.X), Y: cl(g.Y)}
	case geo.MultiPoint:
		pts(g)
	case geo.LineString:
		pts(g)
	case geo.MultiLineString:
		for _, l := range g {
			pts(l)
		}
	case geo.Polygon:
		for _, r := range g {
			pts(r)
		}
	case geo.MultiPolygon:
		for _, p := range g {
			for _, r := range p {
				pts(r)
			}
		}
	}
	return g
}

// pullIn moves the holes of a polygon into the envelope of its exterior ring.
func pullIn(rt *rapid.T, p geo.Polygon) {
	if len(p) < 2 {
		return
	}
	e := envelope(p)
	for _, r := range p[1:] {
		for i := range r {
			r[i].X = math.Min(math.Max(r[i].X, e.MinX), e.MaxX)
			r[i].Y = math.Min(math.Max(r[i].Y, e.MinY), e.MaxY)
		}
	}
}

func TestC11_Envelope(t *testing.T) {
	run(t, 2500, "non-empty geometries of all twelve types, one-signed and mixed coordinates, any finite magnitude; non-trivial: at least two different vertices", func(rt *rapid.T, c *Case) {
		k := ir(rt, 0, 5, "gtype")
		g := clampGeom2(genGeomOf(rt, k), pick(rt, "lim", 2e9, 1e15, math.MaxFloat64))
		// shift most geometries into one quadrant, where zero-initialised extremes would show
		if ir(rt, 0, 2, "shift") > 0 {
			dx, dy := pick(rt, "dx", 0, 1e3, -1e3, 1e8, -1e8, 1e12, -1e200), pick(rt, "dy", 0, 1e3, -1e3, 1e8, -1e8, 1e200, -1e10)
			for _, p := range pointRefs(g) {
				p.X, p.Y = math.Mod(p.X, 1e8)+dx, math.Mod(p.Y, 1e8)+dy
			}
			if pt, ok := g.(geo.Point); ok {
				g = geo.Point{X: math.Mod(pt.X, 1e8) + dx, Y: math.Mod(pt.Y, 1e8) + dy}
			}
		}
		switch p := g.(type) {
		case geo.Polygon:
			pullIn(rt, p)
		case geo.MultiPolygon:
			for _, q := range p {
				pullIn(rt, q)
			}
		}
		if ir(rt, 0, 3, "lift") == 2 {
			g = lift(g, genCoord(rt, "height"))
		}
		c.D("%T%v", g, g)
		vs := vertices2(g)
		for _, v := range vs[1:] {
			if v != vs[0] {
				c.NT(true)
			}
		}
		c.L("%s", g.Type())
		b := geo.BoundingBox(g)
		want := envelope(g)
		if b == nil || *b != want {
			rt.Fatalf("BoundingBox = %v, envelope of the vertices is %v", b, want)
		}
		for _, v := range vs {
			if !geo.IsPointInBox(b, v) {
				rt.Fatalf("vertex %v not in box %v", v, b)
			}
		}
	})
}

// pointRefs returns pointers to all vertices of a 2-D geometry except a bare Point.
func pointRefs(g geo.Geometry) []*geo.Point {
	var out []*geo.Point
	add := func(ps []geo.Point) {
		for i := range ps {
			out = append(out, &ps[i])
		}
	}
	switch g := g.(type) {
	case geo.MultiPoint:
		add(g)
	case geo.LineString:
		add(g)
	case geo.MultiLineString:
		for _, l := range g {
			add(l)
		}
	case geo.Polygon:
		for _, r := range g {
			add(r)
		}
	case geo.MultiPolygon:
		for _, p := range g {
			for _, r := range p {
				add(r)
			}
		}
	}
	return out
}

func genBox(rt *rapid.T, name string) geo.Box {
	switch ir(rt, 0, 3, name+"k") {
	case 0:
		x, y := ir(rt, -6, 6, name+"x"), ir(rt, -6, 6, name+"y")
		return geo.Box{MinX: float64(x), MinY: float64(y), MaxX: float64(x + ir(rt, 0, 5, name+"w")), MaxY: float64(y + ir(rt, 0, 5, name+"h"))}
	case 1:
		x, y := uf(rt, -180, 180, name+"x"), uf(rt, -90, 90, name+"y")
		w, h := uf(rt, 0, 50, name+"w"), uf(rt, 0, 50, name+"h")
		if ir(rt, 0, 4, name+"flat") == 0 {
			w = 0
		}
		if ir(rt, 0, 4, name+"flat2") == 0 {
			h = 0
		}
		return geo.Box{MinX: x, MinY: y, MaxX: x + w, MaxY: y + h}
	case 2:
		a, b := genPt(rt, name+"a"), genPt(rt, name+"b")
		return geo.Box{MinX: math.Min(a.X, b.X), MinY: math.Min(a.Y, b.Y), MaxX: math.Max(a.X, b.X), MaxY: math.Max(a.Y, b.Y)}
	}
	x, y := float64(ir(rt, -50, 50, name+"x"))/10, float64(ir(rt, -50, 50, name+"y"))/10
	return geo.Box{MinX: x, MinY: y, MaxX: x + float64(ir(rt, 0, 40, name+"w"))/10, MaxY: y + float64(ir(rt, 0, 40, name+"h"))/10}
}

func TestC11_BoxToGeo(t *testing.T) {
	run(t, 2500, "boxes whose extents are 0 or at least 1e-5, |c| < 1e100; non-trivial: positive area", func(rt *rapid.T, c *Case) {
		b := genBox(rt, "b")
		lim := pick(rt, "lim", 2e9, 1e30, 1e100)
		cl := func(v float64) float64 { return math.Mod(v, lim) }
		x0, x1, y0, y1 := cl(b.MinX), cl(b.MaxX), cl(b.MinY), cl(b.MaxY)
		b = geo.Box{MinX: math.Min(x0, x1), MaxX: math.Max(x0, x1), MinY: math.Min(y0, y1), MaxY: math.Max(y0, y1)}
		if b.MaxX-b.MinX < 1e-5 {
			b.MaxX = b.MinX
		}
		if b.MaxY-b.MinY < 1e-5 {
			b.MaxY = b.MinY
		}
		w, h := b.MaxX-b.MinX, b.MaxY-b.MinY
		c.D("%v", b)
		c.NT(w > 0 && h > 0)
		g := geo.BoxToGeo(b)
		switch {
		case w > 0 && h > 0:
			p, ok := g.(geo.Polygon)
			if !ok || len(p) != 1 || len(p[0]) != 5 || p[0][0] != p[0][4] {
				rt.Fatalf("BoxToGeo = %T %v, want a closed ring of the four corners", g, g)
			}
			seen := map[geo.Point]bool{}
			for i, v := range p[0][:4] {
				seen[v] = true
				n := p[0][i+1]
				if (v.X != b.MinX && v.X != b.MaxX) || (v.Y != b.MinY && v.Y != b.MaxY) || (v.X == n.X) == (v.Y == n.Y) {
					rt.Fatalf("BoxToGeo ring %v does not run along the sides of the box", p[0])
				}
			}
			if len(seen) != 4 {
				rt.Fatalf("BoxToGeo ring %v lacks a corner", p[0])
			}
		case w > 0 || h > 0:
			if l, ok := g.(geo.LineString); !ok || len(l) < 2 {
				rt.Fatalf("BoxToGeo = %T %v, want a line", g, g)
			}
		default:
			if _, ok := g.(geo.Point); !ok {
				rt.Fatalf("BoxToGeo = %T %v, want a point", g, g)
			}
		}
		if e := geo.BoundingBox(g); *e != b {
			rt.Fatalf("envelope of BoxToGeo is %v", e)
		}
		m := math.Max(math.Max(math.Abs(b.MinX), math.Abs(b.MaxX)), math.Max(math.Abs(b.MinY), math.Abs(b.MaxY)))
		if a := geo.GetArea(g); !closeTo(a, b.Size(), 1e-14*m*m+1e-12*w*h) {
			rt.Fatalf("area of BoxToGeo %v, size of the box %v", a, b.Size())
		}
		if !closeTo(b.Size(), w*h, 1e-12*w*h) {
			rt.Fatalf("Size = %v, want %v", b.Size(), w*h)
		}
	})
}

func TestC11_Regress(t *testing.T) {
	run(t, 1, "the repaired defects of this property, one case each", func(rt *rapid.T, c *Case) {
		c.D("BoxToGeo 0,0,2,1")
		c.NT(true)
		p := geo.BoxToGeo(geo.Box{MinX: 0, MinY: 0, MaxX: 2, MaxY: 1}).(geo.Polygon)
		if geo.GetArea(p) != 2 || p[0][0] != p[0][len(p[0])-1] {
			rt.Fatalf("BoxToGeo ring is not closed: %v", p)
		}
	})
}

// ---- C12 box lattice ----

func TestC12_Boxes(t *testing.T) {
	run(t, 3000, "2 to 6 (sometimes up to 40) boxes: touching, nested, equal, degenerate, decimal and wild; non-trivial: at least two different boxes that share a point", func(rt *rapid.T, c *Case) {
		n := ir(rt, 2, 6, "n")
		if ir(rt, 0, 14, "many") == 0 {
			n = ir(rt, 7, 40, "nmany")
		}
		bs := make([]geo.Box, n)
		for i := range bs {
			bs[i] = genBox(rt, "b")
			if i > 0 {
				o := bs[ir(rt, 0, i-1, "o")]
				switch ir(rt, 0, 9, "rel") {
				case 0: // equal
					bs[i] = o
				case 1: // touches on the right, at a common or different height
					bs[i] = geo.Box{MinX: o.MaxX, MaxX: o.MaxX + math.Abs(bs[i].MaxX-bs[i].MinX), MinY: bs[i].MinY, MaxY: bs[i].MaxY}
				case 2: // touches above
					bs[i] = geo.Box{MinY: o.MaxY, MaxY: o.MaxY + math.Abs(bs[i].MaxY-bs[i].MinY), MinX: bs[i].MinX, MaxX: bs[i].MaxX}
				case 3: // corner touch
					bs[i] = geo.Box{MinX: o.MaxX, MinY: o.MaxY, MaxX: o.MaxX + 1, MaxY: o.MaxY + 1}
				case 4: // inside, sharing sides
					bs[i] = geo.Box{MinX: o.MinX, MinY: o.MinY, MaxX: o.MinX/2 + o.MaxX/2, MaxY: o.MaxY}
					if bs[i].MaxX < bs[i].MinX || bs[i].MaxX > o.MaxX {
						bs[i].MaxX = o.MinX
					}
				case 5: // the next float beyond a side
					bs[i].MinX = math.Nextafter(o.MaxX, math.Inf(1))
					bs[i].MaxX = math.Max(bs[i].MinX, bs[i].MaxX)
				case 6:
					bs[i].MaxY = math.Nextafter(o.MinY, math.Inf(-1))
					bs[i].MinY = math.Min(bs[i].MinY, bs[i].MaxY)
				}
			}
			for _, v := range []float64{bs[i].MinX, bs[i].MinY, bs[i].MaxX, bs[i].MaxY} {
				if math.IsInf(v, 0) {
					bs[i] = geo.Box{}
				}
			}
		}
		c.D("%v", bs)
		ptr := func(b geo.Box) *geo.Box { return &b }
		inter := func(a, b geo.Box) bool {
			return math.Max(a.MinX, b.MinX) <= math.Min(a.MaxX, b.MaxX) && math.Max(a.MinY, b.MinY) <= math.Min(a.MaxY, b.MaxY)
		}
		cont := func(a, b geo.Box) bool {
			return a.MinX <= b.MinX && b.MaxX <= a.MaxX && a.MinY <= b.MinY && b.MaxY <= a.MaxY
		}
		union := func(bs ...geo.Box) geo.Box {
			u := bs[0]
			for _, b := range bs {
				u = geo.Box{MinX: math.Min(u.MinX, b.MinX), MinY: math.Min(u.MinY, b.MinY), MaxX: math.Max(u.MaxX, b.MaxX), MaxY: math.Max(u.MaxY, b.MaxY)}
			}
			return u
		}
		for i := range bs {
			for j := range bs {
				a, b := ptr(bs[i]), ptr(bs[j])
				gi, gc := a.Intersect(b), a.Contain(b)
				if gi != inter(bs[i], bs[j]) {
					rt.Fatalf("%v.Intersect(%v) = %v", bs[i], bs[j], gi)
				}
				if gc != cont(bs[i], bs[j]) {
					rt.Fatalf("%v.Contain(%v) = %v", bs[i], bs[j], gc)
				}
				u := a.Union(b)
				if *u != union(bs[i], bs[j]) {
					rt.Fatalf("%v.Union(%v) = %v", bs[i], bs[j], u)
				}
				if gc != (*u == bs[i]) {
					rt.Fatalf("contain and union disagree for %v and %v", bs[i], bs[j])
				}
				if s := u.Size(); !math.IsInf(s, 0) && !math.IsNaN(s) && s < a.Size()*(1-1e-12) {
					rt.Fatalf("union %v of %v and %v is smaller than a part", u, bs[i], bs[j])
				}
				if gc && !gi {
					rt.Fatalf("contained but not intersecting: %v %v", bs[i], bs[j])
				}
				if gi && bs[i] != bs[j] {
					c.NT(true)
				}
				if *a != bs[i] || *b != bs[j] {
					rt.Fatalf("operands changed: %v -> %v, %v -> %v", bs[i], a, bs[j], b)
				}
				u.MinX, u.MaxX = u.MinX-1, u.MaxX+1
				if *a != bs[i] || *b != bs[j] {
					rt.Fatalf("the union shares memory with an operand")
				}
				for _, p := range []geo.Point{{X: b.MinX, Y: b.MinY}, {X: b.MaxX, Y: b.MaxY}, {X: b.MinX, Y: b.MaxY}, {X: b.MaxX, Y: b.MinY},
					{X: math.Max(a.MinX, b.MinX), Y: math.Max(a.MinY, b.MinY)}, {X: math.Nextafter(b.MaxX, math.Inf(1)), Y: b.MinY}, {X: b.MinX, Y: math.Nextafter(b.MinY, math.Inf(-1))},
					{X: math.Nextafter(b.MinX, math.Inf(-1)), Y: b.MaxY}, {X: b.MaxX, Y: math.Nextafter(b.MaxY, math.Inf(1))}} {
					for _, q := range []*geo.Box{a, b} {
						want := q.MinX <= p.X && p.X <= q.MaxX && q.MinY <= p.Y && p.Y <= q.MaxY
						if geo.IsPointInBox(q, p) != want {
							rt.Fatalf("IsPointInBox(%v, %v) = %v", q, p, !want)
						}
					}
				}
			}
		}
		// union of many, any order and grouping
		perm := rapid.Permutation(bs).Draw(rt, "perm")
		var ps, qs []*geo.Box
		sharing := map[geo.Box]*geo.Box{} // equal boxes may be one and the same
		shared := func(b geo.Box) *geo.Box {
			if sharing[b] == nil || bl(rt, "own") {
				sharing[b] = ptr(b)
			}
			return sharing[b]
		}
		for i := range bs {
			ps = append(ps, shared(bs[i]))
			qs = append(qs, shared(perm[i]))
		}
		want := union(bs...)
		if u := geo.BoxUnion(ps...); *u != want {
			rt.Fatalf("BoxUnion = %v want %v", u, want)
		}
		if u := geo.BoxUnion(qs...); *u != want {
			rt.Fatalf("BoxUnion of %v = %v want %v", perm, u, want)
		}
		k := ir(rt, 1, n-1, "group")
		if u := geo.BoxUnion(geo.BoxUnion(ps[:k]...), geo.BoxUnion(ps[k:]...)); *u != want {
			rt.Fatalf("grouped BoxUnion = %v want %v", u, want)
		}
		if ir(rt, 0, 39, "crowd") == 20 { // a box that matters anywhere among hundreds that do not
			m := bigOf(rt, 50, 300, "crowdn")
			var qs []*geo.Box
			for i := 0; i < m; i++ {
				qs = append(qs, ps[1+i%(n-1)])
			}
			qs[ir(rt, 0, m-1, "crowdat")] = ps[0]
			for i, q := range ps[1:] {
				if m > 2*n {
					qs[(ir(rt, 0, m-1, "crowdall")+i)%m] = q
				}
			}
			all := make([]geo.Box, m)
			for i := range qs {
				all[i] = *qs[i]
			}
			if u := geo.BoxUnion(qs...); *u != union(all...) {
				rt.Fatalf("BoxUnion of %d boxes = %v want %v", m, u, union(all...))
			}
		}
		if u := geo.BoxUnion(ps[0]); *u != bs[0] {
			rt.Fatalf("BoxUnion of one box = %v", u)
		}
		for i := range bs {
			if *ps[i] != bs[i] || *qs[i] != perm[i] {
				rt.Fatalf("BoxUnion changed its operand %d", i)
			}
		}
		b := bs[0]
		if got := geo.NewBox(b.MinX, b.MinY, b.MaxX, b.MaxY); *got != b {
			rt.Fatalf("NewBox = %v", got)
		}
		w, h := b.MaxX-b.MinX, b.MaxY-b.MinY
		if s := b.Size(); w < 1e100 && h < 1e100 && !closeTo(s, w*h, 1e-12*w*h) {
			rt.Fatalf("Size = %v", s)
		}
		// centre and half lengths
		cx, cy := float64(ir(rt, -1000, 1000, "cx"))/4, float64(ir(rt, -1000, 1000, "cy"))/4
		lx, ly := float64(ir(rt, 0, 1000, "lx"))/4, float64(ir(rt, 0, 1000, "ly"))/4
		if got := geo.NewRectBox(geo.Point{X: cx, Y: cy}, lx, ly); *got != (geo.Box{MinX: cx - lx, MinY: cy - ly, MaxX: cx + lx, MaxY: cy + ly}) {
			rt.Fatalf("NewRectBox(%v %v, %v %v) = %v", cx, cy, lx, ly, got)
		}
	})
}

// ---- C13 area ----

// extent of a ring: the larger side of its envelope, and its largest coordinate.
func extent(r []geo.Point) (ext, mag float64) {
	b := envelope(geo.MultiPoint(r))
	ext = math.Max(b.MaxX-b.MinX, b.MaxY-b.MinY)
	return ext, math.Max(math.Max(math.Abs(b.MinX), math.Abs(b.MaxX)), math.Max(math.Abs(b.MinY), math.Abs(b.MaxY)))
}

// shoelaceBig is the exact signed area; tol bounds the rounding of a sum taken over coordinates relative to a vertex.
func shoelaceBig(r geo.LinearRing) (val, tol float64) {
	s := new(big.Float).SetPrec(2000)
	t := new(big.Float).SetPrec(2000)
	for i := 0; i+1 < len(r); i++ {
		a, b := r[i], r[i+1]
		t.Mul(big.NewFloat(a.X).SetPrec(200), big.NewFloat(b.Y).SetPrec(200))
		s.Add(s, t)
		t.Mul(big.NewFloat(a.Y).SetPrec(200), big.NewFloat(b.X).SetPrec(200))
		s.Sub(s, t)
	}
	v, _ := s.Float64()
	ext, _ := extent(r)
	n := float64(len(r))
	return v / 2, 8 * n * 2.3e-16 * ext * ext * math.Sqrt(n)
}

func genHoles(rt *rapid.T, l lat, r int) []geo.LinearRing {
	var out []geo.LinearRing
	for i := irb(rt, 0, 2, 25, "holes"); i > 0; i-- {
		h, _ := genSimple(rt, max(3, r/2))
		out = append(out, l.ring(h))
	}
	return out
}

// polyMaker makes polygons with one set of holes, mostly none: what is promised depends on the exterior ring only.
func polyMaker(rt *rapid.T, c *Case, l lat) func(ps []ip) geo.Polygon {
	var holes []geo.LinearRing
	if ir(rt, 0, 3, "withholes") == 0 {
		holes = genHoles(rt, l, min(l.r, 1000))
		c.D("holes %v", holes)
	}
	return func(ps []ip) geo.Polygon { return append(l.poly(ps), holes...) }
}

func TestC13_Lattice(t *testing.T) {
	run(t, 2500, "simple and arbitrary rings on exact lattices with holes, plus their reversals, rotations, translations and scalings; non-trivial: non-zero area", func(rt *rapid.T, c *Case) {
		l := genLat(rt)
		var ps []ip
		kind := "arbitrary"
		if ir(rt, 0, 2, "simple") > 0 {
			ps, kind = genSimple(rt, l.r)
		} else {
			ps = genIPs(rt, l.r, 3, 9, "pts")
		}
		ring := l.ring(ps)
		poly := append(geo.Polygon{ring}, genHoles(rt, l, l.r)...)
		c.D("%v %v", kind, poly)
		c.L("%s", kind)
		a2 := area2(ps)
		c.NT(a2 != 0)
		want := math.Abs(float64(a2)) / 2 * l.scale * l.scale
		check := func(what string, p geo.Polygon, want float64, ccw bool) {
			if got := geo.GetArea(p); got != want {
				rt.Fatalf("%s: area %v, exact %v", what, got, want)
			}
			if p.IsCCW() != ccw {
				rt.Fatalf("%s: IsCCW %v, signed area has the other sign", what, !ccw)
			}
		}
		check("ring", poly, want, a2 > 0)
		check("reversed", geo.Polygon{l.ring(reversed(ps))}, want, a2 < 0)
		k := ir(rt, 0, len(ps)-1, "k")
		check("rotated", geo.Polygon{l.ring(rotated(ps, k))}, want, a2 > 0)
		l2 := l
		l2.ox, l2.oy = int64(ir(rt, -5000, 5000, "tx")), int64(ir(rt, -5000, 5000, "ty"))
		check("translated", geo.Polygon{l2.ring(ps)}, want, a2 > 0)
		l3 := l
		l3.scale *= 4
		check("scaled", geo.Polygon{l3.ring(ps)}, 16*want, a2 > 0)
		// multipolygon
		mp := geo.MultiPolygon{poly}
		sum := want
		for i := irb(rt, 0, 3, 40, "parts"); i > 0; i-- {
			q, _ := genSimple(rt, l.r)
			mp = append(mp, append(geo.Polygon{l.ring(q)}, genHoles(rt, l, l.r)...))
			sum += math.Abs(float64(area2(q))) / 2 * l.scale * l.scale
		}
		if a, b := geo.GetArea(mp), geo.MultiPolyArea(mp); !closeTo(a, sum, 1e-12*sum) || !closeTo(b, sum, 1e-12*sum) {
			rt.Fatalf("multipolygon area %v / %v, sum of parts %v", a, b, sum)
		}
		for _, g := range []geo.Geometry{ring[0], geo.MultiPoint(ring), geo.LineString(ring), geo.MultiLineString{geo.LineString(ring)}} {
			if got := geo.GetArea(g); got != 0 {
				rt.Fatalf("area of a %s is %v", g.Type(), got)
			}
		}
	})
}

func TestC13_Float(t *testing.T) {
	run(t, 1500, "rings of arbitrary decimals, from a millionth to a billion wide and up to a hundred million from the origin, against a 2000-bit shoelace sum, to rounding relative to the extent of the ring; non-trivial: the signed area exceeds the rounding bound", func(rt *rapid.T, c *Case) {
		n := sz(rt, "n", 3, 4, 6, 12, 60)
		span := sc(rt, "span", 1e-3, 1, 180, 1e6, 1e-6, 1e9)
		offX, offY := so(rt, "offx", 0.0, 0, 116.397, -1e4, 448251.8), so(rt, "offy", 0.0, 0, 39.917, -1e4, 4421234.6, 1e8)
		ring := geo.LinearRing{}
		for i := 0; i < n; i++ {
			ring = append(ring, geo.Point{X: offX + uf(rt, -span, span, "x"), Y: offY + uf(rt, -span, span, "y")})
		}
		ring = append(ring, ring[0])
		c.D("%v", ring)
		want, tol := shoelaceBig(ring)
		poly := geo.Polygon{ring}
		if got := geo.GetArea(poly); !closeTo(got, math.Abs(want), tol) {
			rt.Fatalf("area %v, exact %v (tolerance %g)", got, want, tol)
		}
		if math.Abs(want) > tol {
			c.NT(true)
			if poly.IsCCW() != (want > 0) {
				rt.Fatalf("IsCCW = %v, signed area %v", poly.IsCCW(), want)
			}
		}
	})
}

// ---- C14 centroids ----

// exactCentroid of the closed lattice ring: value and the conditioning of the sum.
func exactCentroid(l lat, ps []ip) (geo.Point, float64, bool) {
	var cx, cy, a big.Int
	n := len(ps)
	lo, hi := ps[0], ps[0]
	for i := range ps {
		lo, hi = ip{min(lo.x, ps[i].x), min(lo.y, ps[i].y)}, ip{max(hi.x, ps[i].x), max(hi.y, ps[i].y)}
		p, q := ps[i], ps[(i+1)%n]
		p.x, p.y, q.x, q.y = p.x+l.ox, p.y+l.oy, q.x+l.ox, q.y+l.oy
		cr := big.NewInt(p.x*q.y - p.y*q.x)
		a.Add(&a, cr)
		cx.Add(&cx, new(big.Int).Mul(big.NewInt(p.x+q.x), cr))
		cy.Add(&cy, new(big.Int).Mul(big.NewInt(p.y+q.y), cr))
	}
	if a.Sign() == 0 {
		return geo.Point{}, 0, false
	}
	den := new(big.Int).Mul(&a, big.NewInt(3))
	x, _ := new(big.Rat).SetFrac(&cx, den).Float64()
	y, _ := new(big.Rat).SetFrac(&cy, den).Float64()
	d, _ := new(big.Float).SetInt(den).Float64()
	// rounding of a sum over coordinates relative to a vertex, and of the coordinates of the result
	ext := float64(max(hi.x-lo.x, hi.y-lo.y))
	tol := 16 * float64(n) * 2.3e-16 * math.Sqrt(float64(n)) * ext * ext * ext / math.Abs(d) * l.scale
	tol *= 1 + math.Max(math.Abs(x-float64(lo.x+l.ox)), math.Abs(y-float64(lo.y+l.oy)))/ext // a crossing ring's may lie far outside
	tol += 5e-16 * (math.Abs(x) + math.Abs(y) + ext) * l.scale
	return geo.Point{X: x * l.scale, Y: y * l.scale}, tol, true
}

func nearPt(a, b geo.Point, tol float64) bool {
	return closeTo(a.X, b.X, tol) && closeTo(a.Y, b.Y, tol)
}

func TestC14_Polygons(t *testing.T) {
	run(t, 2500, "simple lattice rings (with holes, reversed, rotated, translated) against the exact rational centre of mass, lines closed into rings, rings of zero area; non-trivial: non-zero area", func(rt *rapid.T, c *Case) {
		l := genLat(rt)
		if ir(rt, 0, 3, "line") == 0 { // arbitrary vertex sequences as lines
			ps := sliceB(rt, "pts", 3, 8, 150, func(rt *rapid.T) ip { return genIP(rt, l.r, "") })
			ps = collapse(ps)
			if len(ps) < 3 {
				ps = []ip{{0, 0}, {1, 0}, {0, 1}}
			}
			want, tol, ok := exactCentroid(l, ps)
			line := l.line(ps)
			if bl(rt, "closed") {
				line = append(line, line[0])
			}
			c.D("line %v", line)
			c.L("line")
			c.NT(ok)
			got := geo.Centroid(line)
			got2 := geo.LinearCentroid(l.ring(ps))
			if !ok {
				if !math.IsNaN(got2.X) || !math.IsNaN(got2.Y) {
					rt.Fatalf("centroid of a ring of zero area is %v", got2)
				}
				return
			}
			if !nearPt(got, want, tol) || !nearPt(got2, want, tol) {
				rt.Fatalf("centroid of line %v / ring %v, exact %v (tolerance %g)", got, got2, want, tol)
			}
			return
		}
		ps, kind := genSimple(rt, l.r)
		poly := append(geo.Polygon{l.ring(ps)}, genHoles(rt, l, l.r)...)
		c.D("%s %v", kind, poly)
		c.L("%s", kind)
		c.NT(true)
		want, tol, _ := exactCentroid(l, ps)
		check := func(what string, g geo.Geometry, want geo.Point, tol float64) {
			got := geo.Centroid(g)
			if !nearPt(got, want, tol) {
				rt.Fatalf("%s: centroid %v, exact %v (tolerance %g)", what, got, want, tol)
			}
		}
		check("polygon", poly, want, tol)
		check("reversed", geo.Polygon{l.ring(reversed(ps))}, want, tol)
		check("rotated", geo.Polygon{l.ring(rotated(ps, ir(rt, 0, len(ps)-1, "k")))}, want, tol)
		check("open line", l.line(ps), want, tol)
		check("closed line", geo.LineString(l.ring(ps)), want, tol)
		if got := geo.LinearCentroid(l.ring(ps)); !nearPt(got, want, tol) {
			rt.Fatalf("LinearCentroid %v, exact %v", got, want)
		}
		l2 := l
		l2.ox, l2.oy, l2.scale = int64(ir(rt, -300, 300, "tx")), int64(ir(rt, -300, 300, "ty")), l.scale*2
		w2, t2, _ := exactCentroid(l2, ps)
		check("moved and scaled", geo.Polygon{l2.ring(ps)}, w2, t2)
		// in the convex hull: on the inner side of every hull edge
		got := geo.Centroid(poly)
		h := exactHull(ps)
		for i := range h {
			a, b := l.pt(h[i]), l.pt(h[(i+1)%len(h)])
			d := ((b.X-a.X)*(got.Y-a.Y) - (b.Y-a.Y)*(got.X-a.X)) / math.Hypot(b.X-a.X, b.Y-a.Y)
			if d < -4*tol-1e-12 {
				rt.Fatalf("centroid %v outside the convex hull by %g", got, -d)
			}
		}
	})
}

// centroidBig is the exact centre of mass of a ring of floats, with the tolerance of exactCentroid.
func centroidBig(r geo.LinearRing) (want geo.Point, tol float64, ok bool) {
	rat := func(v float64) *big.Rat { return new(big.Rat).SetFloat64(v) }
	var cx, cy, a, t, u big.Rat
	for i := 0; i+1 < len(r); i++ {
		p, q := r[i], r[i+1]
		t.Mul(rat(p.X), rat(q.Y))
		u.Mul(rat(p.Y), rat(q.X))
		t.Sub(&t, &u)
		a.Add(&a, &t)
		u.Add(rat(p.X), rat(q.X))
		cx.Add(&cx, u.Mul(&u, &t))
		u.Add(rat(p.Y), rat(q.Y))
		cy.Add(&cy, u.Mul(&u, &t))
	}
	if a.Sign() == 0 {
		return
	}
	a.Mul(&a, big.NewRat(3, 1))
	want.X, _ = cx.Quo(&cx, &a).Float64()
	want.Y, _ = cy.Quo(&cy, &a).Float64()
	d, _ := a.Float64()
	ext, mag := extent(r)
	n := float64(len(r))
	out := 1 + math.Max(math.Abs(want.X-r[0].X), math.Abs(want.Y-r[0].Y))/ext // a crossing ring's may lie far outside
	return want, out*16*n*2.3e-16*math.Sqrt(n)*ext*ext*ext/math.Abs(d) + 1e-15*mag, true
}

func TestC14_Float(t *testing.T) {
	run(t, 800, "rings of decimals (stars, convex, arbitrary) from a millionth to a million wide at geographic and projected positions against exact rationals; non-trivial: area well above rounding", func(rt *rapid.T, c *Case) {
		span := sc(rt, "span", 1e-6, 1e-5, 1e-4, 1e-2, 1, 50, 1e3, 1e6)
		ox, oy := so(rt, "offx", 0.0, 116.397123, -73.98, 448251.8, 1e8), so(rt, "offy", 0.0, 39.917456, -33.4, 4421234.6)
		n := sz(rt, "n", 3, 4, 5, 12, 40)
		ring := geo.LinearRing{}
		kind := pick(rt, "kind", "star", "convex", "any")
		for i := 0; i < n; i++ {
			r := 1.0
			if kind == "star" {
				r = uf(rt, 0.2, 1, "r")
			}
			a := 2 * math.Pi * (float64(i) + uf(rt, 0, 0.9, "turn")) / float64(n)
			p := geo.Point{X: ox + span*r*math.Cos(a), Y: oy + span*r*math.Sin(a)}
			if kind == "any" {
				p = geo.Point{X: ox + uf(rt, -span, span, "x"), Y: oy + uf(rt, -span, span, "y")}
			}
			ring = append(ring, p)
		}
		ring = append(ring, ring[0])
		c.D("%s %v", kind, ring)
		c.L("%s", kind)
		want, tol, ok := centroidBig(ring)
		if !ok || tol > span {
			return
		}
		c.NT(tol < 1e-3*span)
		rev := geo.LinearRing{}
		for i := range ring {
			rev = append(rev, ring[len(ring)-1-i])
		}
		for what, got := range map[string]geo.Point{"polygon": geo.Centroid(geo.Polygon{ring}), "ring": geo.LinearCentroid(ring), "reversed": geo.Centroid(geo.Polygon{rev}),
			"rotated": geo.Centroid(geo.Polygon{rotRing(ring, ir(rt, 0, n-1, "k"))}), "line": geo.Centroid(geo.LineString(ring))} {
			if !nearPt(got, want, tol) {
				rt.Fatalf("%s: centroid %v, exact %v (tolerance %g)", what, got, want, tol)
			}
		}
	})
}

func TestC14_Points(t *testing.T) {
	run(t, 1000, "points and multipoints of any size; non-trivial: at least two points", func(rt *rapid.T, c *Case) {
		n := pickb(rt, "n", 400, 1, 2, 3, 7, 40)
		span := sc(rt, "span", 1e-3, 1.0, 180, 1e7, 1e-6, 1e9)
		off := so(rt, "off", 0.0, 0, 116, -1e6)
		mp := geo.MultiPoint{}
		var sx, sy big.Float
		sx.SetPrec(300)
		sy.SetPrec(300)
		mag := 0.0
		for i := 0; i < n; i++ {
			p := geo.Point{X: off + uf(rt, -span, span, "x"), Y: uf(rt, -span, span, "y")}
			if ir(rt, 0, 5, "rep") == 0 && i > 0 {
				p = mp[0]
			}
			mp = append(mp, p)
			sx.Add(&sx, big.NewFloat(p.X))
			sy.Add(&sy, big.NewFloat(p.Y))
			mag = math.Max(mag, math.Max(math.Abs(p.X), math.Abs(p.Y)))
		}
		c.D("%v", mp)
		c.NT(n > 1)
		x, _ := sx.Float64()
		y, _ := sy.Float64()
		want := geo.Point{X: x / float64(n), Y: y / float64(n)}
		if got := geo.Centroid(mp); !nearPt(got, want, mag*float64(n+4)*3e-16) {
			rt.Fatalf("centroid %v, mean %v", got, want)
		}
		if got := geo.Centroid(mp[0]); got != mp[0] {
			rt.Fatalf("centroid of a point %v", got)
		}
	})
}

// ---- C15 point in polygon ----

var relaName = map[geo.GeometryRealation]string{geo.RELA_UNKNOWN: "UNKNOWN", geo.RELA_DISJOINT: "DISJOINT", geo.RELA_CONTAIN: "CONTAIN",
	geo.RELA_EQUAL: "EQUAL", geo.RELA_TOUCH: "TOUCH", geo.RELA_COVER: "COVER", geo.RELA_INTERSECT: "INTERSECT"}

func pipWant(k int) geo.GeometryRealation {
	return []geo.GeometryRealation{geo.RELA_DISJOINT, geo.RELA_TOUCH, geo.RELA_CONTAIN}[k]
}

func TestC15_Lattice(t *testing.T) {
	run(t, 1500, "simple lattice rings and 8 points each near their vertices, edges, vertex rows and columns, for every start and both directions; non-trivial: the points fall into at least two classes", func(rt *rapid.T, c *Case) {
		l := genLatFlat(rt)
		fine(rt, &l)
		ps, kind := genSimple(rt, l.r)
		n := 8
		qs := make([]ip, n)
		for i := range qs {
			qs[i] = genNear(rt, ps, l.r, "q")
		}
		c.D("%s scale=%v off=%d,%d ring=%v points=%v", kind, l.scale, l.ox, l.oy, ps, qs)
		c.L("%s", kind)
		classes := map[int]bool{}
		mk := polyMaker(rt, c, l)
		polys := []geo.Polygon{mk(ps), mk(reversed(ps))}
		if len(ps) <= 16 {
			for k := 1; k < len(ps); k++ {
				polys = append(polys, mk(rotated(ps, k)))
			}
		} else {
			polys = append(polys, mk(rotated(ps, ir(rt, 1, len(ps)-1, "rot"))))
		}
		for _, q := range qs {
			k := pip(ps, q)
			classes[k] = true
			c.L("%s", relaName[pipWant(k)])
			for _, p := range polys {
				if got := geo.IsPointInPolygon(l.pt(q), p); got != pipWant(k) {
					rt.Fatalf("IsPointInPolygon(%v, %v) = %s, exact %s", l.pt(q), p, relaName[got], relaName[pipWant(k)])
				}
			}
		}
		c.NT(len(classes) > 1)
	})
}

// genStar draws a star-shaped decimal polygon (open vertex list) around a centre.
func genStar(rt *rapid.T) (geo.Point, []geo.Point) {
	n := sz(rt, "n", 3, 4, 5, 8, 20, 100)
	span := sc(rt, "span", 0.02, 1.0, 50, 5000, 0.003, 1e6)
	ctr := geo.Point{X: uf(rt, -170, 170, "cx"), Y: uf(rt, -80, 80, "cy")}
	var ps []geo.Point
	for i := 0; i < n; i++ {
		r := span * uf(rt, 0.2, 1, "r")
		a := 2 * math.Pi * (float64(i) + uf(rt, 0, 0.8, "a")) / float64(n)
		ps = append(ps, geo.Point{X: math.Round((ctr.X+r*math.Cos(a))*1e5) / 1e5, Y: math.Round((ctr.Y+r*math.Sin(a))*1e5) / 1e5})
	}
	return ctr, ps
}

// refPip decides with exact rationals; ok is false if the point is within eps of the ring.
func refPip(ps []geo.Point, q geo.Point, eps float64) (in, ok bool) {
	n := len(ps)
	rat := func(v float64) *big.Rat { return new(big.Rat).SetFloat64(v) }
	for i := range ps {
		a, b := ps[i], ps[(i+1)%n]
		if refSegDist(q, a, b) < eps {
			return false, false
		}
		if (a.Y > q.Y) != (b.Y > q.Y) {
			l := new(big.Rat).Mul(new(big.Rat).Sub(rat(b.X), rat(a.X)), new(big.Rat).Sub(rat(q.Y), rat(a.Y)))
			r := new(big.Rat).Mul(new(big.Rat).Sub(rat(b.Y), rat(a.Y)), new(big.Rat).Sub(rat(q.X), rat(a.X)))
			s := l.Sub(l, r).Sign()
			if b.Y < a.Y {
				s = -s
			}
			if s > 0 {
				in = !in
			}
		}
	}
	return in, true
}

func refSegDist(p, a, b geo.Point) float64 {
	d, _ := refSegNear(p, a, b)
	return d
}

// refSegNear: distance and parameter of the point of segment ab nearest to p.
func refSegNear(p, a, b geo.Point) (float64, float64) {
	dx, dy := b.X-a.X, b.Y-a.Y
	px, py := p.X-a.X, p.Y-a.Y
	l2 := dx*dx + dy*dy
	if l2 == 0 {
		return math.Hypot(px, py), 0
	}
	u := (px*dx + py*dy) / l2
	if u <= 0 {
		return math.Hypot(px, py), 0
	}
	if u >= 1 {
		return math.Hypot(p.X-b.X, p.Y-b.Y), 1
	}
	return math.Abs(dx*py-dy*px) / math.Sqrt(l2), u
}

func TestC15_Decimal(t *testing.T) {
	run(t, 1000, "star-shaped decimal rings of 3 to 100 vertices anywhere on the globe, points at or next to vertex heights and around the ring, at least 1e-9 of the magnitude from it; non-trivial: some point inside and some outside", func(rt *rapid.T, c *Case) {
		ctr, ps := genStar(rt)
		if bl(rt, "level") { // an almost level edge
			i := ir(rt, 0, len(ps)-1, "li")
			ps[(i+1)%len(ps)].Y = ps[i].Y + math.Ldexp(uf(rt, -1, 1, "ld"), -ir(rt, 15, 40, "le"))
		}
		c.D("ring=%v", ps)
		ring := append(geo.LinearRing(append([]geo.Point(nil), ps...)), ps[0])
		rev := geo.LinearRing(reversed(ring))
		k := ir(rt, 0, len(ps)-1, "rot")
		rot := geo.LinearRing(rotated(ps, k))
		rot = append(rot, rot[0])
		ins, outs := 0, 0
		for i := 0; i < 6; i++ {
			v := ps[ir(rt, 0, len(ps)-1, "v")]
			var q geo.Point
			f := uf(rt, 0, 1.3, "f")
			switch ir(rt, 0, 2, "qk") {
			case 0:
				q = geo.Point{X: ctr.X + (v.X-ctr.X)*f, Y: ctr.Y + (v.Y-ctr.Y)*f}
			case 1: // at the height of a vertex
				q = geo.Point{X: ctr.X + (v.X-ctr.X)*uf(rt, -2, 2, "g"), Y: v.Y}
			case 2:
				q = geo.Point{X: v.X, Y: ctr.Y + (v.Y-ctr.Y)*f}
			}
			if e := math.Ldexp(1, -ir(rt, 15, 45, "e")); bl(rt, "nudge") {
				q.Y += e
			} else if bl(rt, "nudge2") {
				q.Y -= e
			}
			mag := math.Max(math.Abs(q.X), math.Abs(q.Y))
			for _, p := range ps {
				mag = math.Max(mag, math.Max(math.Abs(p.X), math.Abs(p.Y)))
			}
			in, ok := refPip(ps, q, 1e-9*mag)
			if !ok {
				continue
			}
			want := geo.RELA_DISJOINT
			if in {
				want = geo.RELA_CONTAIN
				ins++
			} else {
				outs++
			}
			for _, r := range []geo.LinearRing{ring, rev, rot} {
				if got := geo.IsPointInPolygon(q, geo.Polygon{r}); got != want {
					rt.Fatalf("IsPointInPolygon(%v, %v) = %s, exact %s", q, r, relaName[got], relaName[want])
				}
			}
		}
		c.NT(ins > 0 && outs > 0)
	})
}

// ---- C16 segments and lines ----

// Touching is decided exactly even at the finest resolution at which the cross product still is exact.
func TestC15_Touch(t *testing.T) {
	run(t, 800, "triangles and quadrilaterals up to 2^26 wide with long slanted edges, and points on them or beside them by the smallest possible amount: touching exactly when on the ring; non-trivial: the point is on the line of an edge or as near to it as can be", func(rt *rapid.T, c *Case) {
		l := genLatFlat(rt)
		l.ox, l.oy = 0, 0
		l.r = pick(rt, "finerange", 1<<20, 1<<25, 1<<25)
		r := int64(l.r)
		corner := func(sx, sy int64) ip {
			return ip{sx * (r - int64(ir(rt, 0, 9, "cx"))), sy * (r - int64(ir(rt, 0, 9, "cy")))}
		}
		ps := []ip{corner(-1, -1), corner(1, 1), corner(-1, 1)}
		if bl(rt, "four") {
			ps = []ip{corner(-1, -1), {int64(ir(rt, -9, 9, "mx")), -int64(ir(rt, 1, 9, "my"))}, corner(1, 1), corner(-1, 1)}
		}
		if bl(rt, "mirror") {
			for i, p := range ps {
				ps[i] = ip{p.y, -p.x}
			}
		}
		ps = rotated(ps, ir(rt, 0, len(ps)-1, "start"))
		if bl(rt, "reversed") {
			ps = reversed(ps)
		}
		poly := l.poly(ps)
		for k := 0; k < 6; k++ {
			i := ir(rt, 0, len(ps)-1, "edge")
			a, b := ps[i], ps[(i+1)%len(ps)]
			q := a
			if p, ok := besideEdge(a, b, pick(rt, "side", int64(1), -1), uf(rt, 0, 1, "t")); ok {
				q = p
			}
			if ir(rt, 0, 3, "near") == 0 {
				q = genNear(rt, ps, l.r, "q")
			}
			c.D("scale=%v %v %v", l.scale, ps, q)
			c.NT(abs64(cross(a, b, q)) <= gcd(abs64(b.x-a.x), abs64(b.y-a.y)))
			want := pip(ps, q) == 1
			if got := geo.IsPointInPolygon(l.pt(q), poly); (got == geo.RELA_TOUCH) != want {
				rt.Fatalf("IsPointInPolygon(%v, %v) = %s, on the ring: %v", l.pt(q), poly, relaName[got], want)
			}
		}
	})
}

func segWant(k int) geo.GeometryRealation {
	return []geo.GeometryRealation{geo.RELA_DISJOINT, geo.RELA_TOUCH, geo.RELA_INTERSECT}[k]
}

// genSegPair draws two non-degenerate lattice segments that often meet in special positions.
func genSegPair(rt *rapid.T, r int) (a, b, c, d ip) {
	a, b = genIP(rt, r, "a"), genIP(rt, r, "b")
	if a == b {
		b.x++
	}
	onab := func(name string) ip {
		dx, dy := b.x-a.x, b.y-a.y
		g := gcd(abs64(dx), abs64(dy))
		k := int64(ir(rt, -2, int(min(g, 50))+2, name))
		return ip{a.x + dx/g*k, a.y + dy/g*k}
	}
	switch ir(rt, 0, 7, "pos") {
	case 6: // one end as near to the line of ab as can be, without being on it
		c, d = genIP(rt, r, "c"), genIP(rt, r, "d")
		if q, ok := besideEdge(a, b, pick(rt, "side", int64(1), -1), pick(rt, "t", 0, 1, uf(rt, 0, 1, "tf"))); ok {
			c = q
		}
		if bl(rt, "swapped") {
			a, b, c, d = c, d, a, b
		}
	case 7: // both ends beside ab, on the same side or on both
		c, d = a, b
		if q, ok := besideEdge(a, b, pick(rt, "side", int64(1), -1), uf(rt, -0.5, 1, "tc")); ok {
			c = q
		}
		if q, ok := besideEdge(a, b, pick(rt, "side2", int64(1), -1), uf(rt, 0, 1.5, "td")); ok {
			d = q
		}
	case 0: // collinear, anywhere along the line of ab
		c, d = onab("c"), onab("d")
	case 1: // one end on the line of ab
		c, d = onab("c"), genIP(rt, r, "d")
	case 2: // shares an end
		c, d = pick(rt, "end", a, b), genIP(rt, r, "d")
	case 3: // parallel
		s := genIP(rt, 3, "s")
		c = ip{a.x + s.x, a.y + s.y}
		k := int64(ir(rt, -2, 2, "k"))
		d = ip{c.x + k*(b.x-a.x), c.y + k*(b.y-a.y)}
	default:
		c, d = genIP(rt, r, "c"), genIP(rt, r, "d")
	}
	if c == d {
		d.y++
	}
	return
}

func TestC16_Segments(t *testing.T) {
	run(t, 4000, "pairs of lattice segments: collinear, parallel, sharing ends, touching, crossing, apart; every order and direction; non-trivial: they meet or are collinear/parallel", func(rt *rapid.T, c *Case) {
		l := genLatFlat(rt)
		fine(rt, &l)
		p, q, r, s := genSegPair(rt, l.r)
		k := segRel(p, q, r, s)
		want := segWant(k)
		c.D("scale=%v off=%d,%d %v-%v %v-%v", l.scale, l.ox, l.oy, p, q, r, s)
		par := (q.x-p.x)*(s.y-r.y) == (q.y-p.y)*(s.x-r.x)
		c.NT(k > 0 || par)
		c.L("%s parallel=%v", relaName[want], par)
		seg := func(a, b ip) geo.LineSegment { return geo.LineSegment{Start: l.pt(a), End: l.pt(b)} }
		for _, pr := range [][2]geo.LineSegment{{seg(p, q), seg(r, s)}, {seg(q, p), seg(r, s)}, {seg(p, q), seg(s, r)}, {seg(q, p), seg(s, r)},
			{seg(r, s), seg(p, q)}, {seg(s, r), seg(p, q)}, {seg(r, s), seg(q, p)}, {seg(s, r), seg(q, p)}} {
			if got := geo.SegmentRelation(pr[0], pr[1]); got != want {
				rt.Fatalf("SegmentRelation(%v, %v) = %s, exact %s", pr[0], pr[1], relaName[got], relaName[want])
			}
		}
		for _, x := range []ip{r, s, p, q, {(p.x + q.x) / 2, (p.y + q.y) / 2}, {r.x, p.y}} {
			want := onSeg(p, q, x)
			if geo.IsPointOnSegment(l.pt(p), l.pt(q), l.pt(x)) != want || geo.IsPointOnSegment(l.pt(q), l.pt(p), l.pt(x)) != want {
				rt.Fatalf("IsPointOnSegment(%v, %v, %v) != %v", l.pt(p), l.pt(q), l.pt(x), want)
			}
		}
	})
}

// On-segment at the finest resolution at which the cross product still is exact.
func TestC16_OnSegment(t *testing.T) {
	run(t, 1500, "lattice segments up to 2^26 wide and points that are on them, beside them by the smallest possible amount, or beyond their ends; non-trivial: the point is on the line through the segment or as near to it as can be", func(rt *rapid.T, c *Case) {
		l := genLatFlat(rt)
		l.ox, l.oy = 0, 0
		l.r = pick(rt, "finerange", 1000, 1<<20, 1<<25, 1<<25)
		a, b := genIP(rt, l.r, "a"), genIP(rt, l.r, "b")
		if bl(rt, "wide") { // corner to corner, nearly
			a = ip{-int64(l.r) + int64(ir(rt, 0, 9, "ax")), -int64(l.r) + int64(ir(rt, 0, 9, "ay"))}
			b = ip{int64(l.r) - int64(ir(rt, 0, 9, "bx")), int64(l.r) - int64(ir(rt, 0, 9, "by"))}
		}
		if a == b {
			b.x++
		}
		for i := 0; i < 6; i++ {
			q := genNear(rt, []ip{a, b}, l.r, "q")
			want := onSeg(a, b, q)
			c.D("scale=%v %v-%v %v", l.scale, a, b, q)
			c.NT(abs64(cross(a, b, q)) <= gcd(abs64(b.x-a.x), abs64(b.y-a.y)))
			for _, s := range [][2]ip{{a, b}, {b, a}} {
				if got := geo.IsPointOnSegment(l.pt(s[0]), l.pt(s[1]), l.pt(q)); got != want {
					rt.Fatalf("IsPointOnSegment(%v, %v, %v) = %v, exact %v", l.pt(s[0]), l.pt(s[1]), l.pt(q), got, want)
				}
			}
		}
	})
}

func TestC16_Lines(t *testing.T) {
	run(t, 2000, "pairs of lattice lines of 2 to 8 points and points on and off them; non-trivial: the lines' boxes meet", func(rt *rapid.T, c *Case) {
		l := genLatFlat(rt)
		fine(rt, &l)
		walk := func(name string) []ip {
			n := irb(rt, 2, 8, 120, name+"n")
			step := pick(rt, name+"step", 1, 3, l.r)
			a := genIP(rt, l.r, name)
			out := []ip{a}
			for len(out) < n {
				d := genIP(rt, step, name+"d")
				a = ip{a.x + d.x, a.y + d.y}
				if l.r > 1<<20 && max(abs64(a.x), abs64(a.y)) > int64(l.r) { // stay where the arithmetic is exact
					a = d
				}
				out = append(out, a)
			}
			return out
		}
		as, bs := walk("a"), walk("b")
		if bl(rt, "share") {
			bs[ir(rt, 0, len(bs)-1, "bi")] = genNear(rt, as, l.r, "m")
		}
		c.D("scale=%v off=%d,%d %v %v", l.scale, l.ox, l.oy, as, bs)
		meet := false
		for i := 0; i+1 < len(as); i++ {
			for j := 0; j+1 < len(bs); j++ {
				if segRel(as[i], as[i+1], bs[j], bs[j+1]) != 0 {
					meet = true
				}
			}
		}
		want := geo.RELA_DISJOINT
		if meet {
			want = geo.RELA_INTERSECT
		}
		c.L("%s", relaName[want])
		la, lb := l.line(as), l.line(bs)
		c.NT(geo.BoundingBox(la).Intersect(geo.BoundingBox(lb)))
		ra, rb := l.line(reversed(as)), l.line(reversed(bs))
		for _, pr := range [][2]geo.LineString{{la, lb}, {lb, la}, {ra, lb}, {la, rb}, {rb, ra}} {
			if got := geo.LineRelation(pr[0], pr[1]); got != want {
				rt.Fatalf("LineRelation(%v, %v) = %s, exact %s", pr[0], pr[1], relaName[got], relaName[want])
			}
		}
		for i := 0; i < 5; i++ {
			q := genNear(rt, as, l.r, "q")
			on := false
			for i := 0; i+1 < len(as); i++ {
				on = on || onSeg(as[i], as[i+1], q)
			}
			got := geo.IsPointOnLine(l.pt(q), la)
			if on && !got {
				rt.Fatalf("IsPointOnLine(%v, %v) = false, the point is on a segment", l.pt(q), la)
			}
			if got && !on && !onSeg(as[len(as)-1], as[0], q) {
				rt.Fatalf("IsPointOnLine(%v, %v) = true, the point is on no segment", l.pt(q), la)
			}
		}
	})
}

func TestC16_Decimal(t *testing.T) {
	run(t, 2000, "pairs of decimal segments whose ends keep a relative distance of 1e-7 from the other segment's line; non-trivial: they cross", func(rt *rapid.T, c *Case) {
		span := sc(rt, "span", 1e-3, 1.0, 180, 1e6, 1e-5, 1e9)
		off := so(rt, "off", 0.0, 116.3, -75)
		p := func(n string) geo.Point {
			return geo.Point{X: off + uf(rt, -span, span, n+"x"), Y: off/2 + uf(rt, -span, span, n+"y")}
		}
		a, b, q, r := p("a"), p("b"), p("c"), p("d")
		c.D("%v-%v %v-%v", a, b, q, r)
		or := func(a, b, p geo.Point) int {
			v := (b.X-a.X)*(p.Y-a.Y) - (b.Y-a.Y)*(p.X-a.X)
			d := v / math.Hypot(b.X-a.X, b.Y-a.Y)
			if !(math.Abs(d) > 1e-7*span+1e-11*math.Abs(off)) {
				return 0
			}
			if v > 0 {
				return 1
			}
			return -1
		}
		o1, o2, o3, o4 := or(a, b, q), or(a, b, r), or(q, r, a), or(q, r, b)
		if o1 == 0 || o2 == 0 || o3 == 0 || o4 == 0 {
			return
		}
		want := geo.RELA_DISJOINT
		if o1 != o2 && o3 != o4 {
			want = geo.RELA_INTERSECT
			c.NT(true)
		}
		s1, s2 := geo.LineSegment{Start: a, End: b}, geo.LineSegment{Start: q, End: r}
		if g1, g2 := geo.SegmentRelation(s1, s2), geo.SegmentRelation(s2, s1); g1 != want || g2 != want {
			rt.Fatalf("SegmentRelation = %s / %s, want %s", relaName[g1], relaName[g2], relaName[want])
		}
		wantL := want
		if got := geo.LineRelation(geo.LineString{a, b}, geo.LineString{q, r}); got != wantL {
			rt.Fatalf("LineRelation = %s, want %s", relaName[got], relaName[wantL])
		}
	})
}

// ---- C17 relations to a polygon ----

func TestC17_Relations(t *testing.T) {
	run(t, 1500, "simple lattice polygons against segments, lines, rings and polygons; every start, both directions; non-trivial: the two crossing or nested", func(rt *rapid.T, c *Case) {
		l := genLatFlat(rt)
		fine(rt, &l)
		ps, kind := genSimple(rt, l.r)
		n := len(ps)
		var ls []ip
		form := ir(rt, 0, 3, "form") // 0 segment 1 line 2 ring 3 polygon
		switch form {
		case 0, 1:
			m := 2
			if form == 1 {
				m = irb(rt, 2, 6, 150, "m")
			}
			if form == 1 && ir(rt, 0, 19, "late") == 7 { // long outside, and only then near
				x := ps[0].x
				for _, p := range ps {
					x = max(x, p.x)
				}
				for i := bigOf(rt, 4, 200, "aside"); i > 0; i-- {
					ls = append(ls, ip{x + 1 + int64(i%2), int64(i%3) + ps[0].y})
				}
				m = ir(rt, 1, 3, "after")
			}
			for i := len(ls); m > 0; i, m = i+1, m-1 {
				if i > 0 && ir(rt, 0, 2, "near") > 0 { // short steps stay inside or outside
					p := ls[i-1]
					d := genIP(rt, max(1, l.r/4), "d")
					ls = append(ls, ip{p.x + d.x, p.y + d.y})
					continue
				}
				ls = append(ls, genNear(rt, ps, l.r, "p"))
			}
		default:
			ls, _ = genSimple(rt, max(3, l.r/pick(rt, "div", 1, 2, 4)))
			d := genIP(rt, l.r, "shift")
			for i := range ls {
				ls[i] = ip{ls[i].x + d.x, ls[i].y + d.y}
			}
			ls = append(ls, ls[0])
		}
		c.D("%s scale=%v off=%d,%d poly=%v form=%d %v", kind, l.scale, l.ox, l.oy, ps, form, ls)
		proper, meets, degenerate := false, false, false
		for i := 0; i+1 < len(ls); i++ {
			if ls[i] == ls[i+1] {
				degenerate = true
			}
			for j := range ps {
				switch segRel(ls[i], ls[i+1], ps[j], ps[(j+1)%n]) {
				case 2:
					proper, meets = true, true
				case 1:
					meets = true
				}
			}
		}
		if degenerate { // zero-length segments are outside the statement
			return
		}
		var want geo.GeometryRealation
		decided := true
		switch {
		case proper:
			want = geo.RELA_INTERSECT
		case !meets && pip(ps, ls[0]) == 2:
			want = geo.RELA_CONTAIN
		case !meets:
			want = geo.RELA_DISJOINT
		default:
			decided = false
		}
		if decided {
			c.L("form%d %s", form, relaName[want])
		} else {
			c.L("form%d touching", form)
		}
		c.NT(proper || want == geo.RELA_CONTAIN || !decided)
		mk, mk1 := polyMaker(rt, c, l), polyMaker(rt, c, l)
		call := func(ls []ip, poly geo.Polygon) geo.GeometryRealation {
			switch form {
			case 0:
				return geo.SegPolyRelation(geo.LineSegment{Start: l.pt(ls[0]), End: l.pt(ls[1])}, poly)
			case 1:
				return geo.LinePolyRelation(l.line(ls), poly)
			case 2:
				return geo.LinearPolyRelation(geo.LinearRing(l.line(ls)), poly)
			}
			return geo.PolyRelation(mk1(ls[:len(ls)-1]), poly)
		}
		base := call(ls, mk(ps))
		if decided && base != want {
			rt.Fatalf("relation %s, exact %s", relaName[base], relaName[want])
		}
		for k := 0; k < n; k++ {
			if n > 16 && k%(n/8) != 1 {
				continue
			}
			rot := rotated(ps, k)
			for _, q := range []geo.Polygon{mk(rot), mk(reversed(rot))} {
				if got := call(ls, q); got != base {
					rt.Fatalf("relation %s, with polygon ring %v it is %s", relaName[base], q, relaName[got])
				}
			}
		}
		if got := call(reversed(ls), mk(ps)); got != base {
			rt.Fatalf("relation %s, reversed %s", relaName[base], relaName[got])
		}
	})
}

func TestC17_Regress(t *testing.T) {
	run(t, 1, "the repaired defects of this property, one case each", func(rt *rapid.T, c *Case) {
		c.D("closing edge")
		c.NT(true)
		sq := geo.Polygon{{{X: 0, Y: 0}, {X: 4, Y: 0}, {X: 4, Y: 4}, {X: 0, Y: 4}, {X: 0, Y: 0}}}
		seg := geo.LineSegment{Start: geo.Point{X: -1, Y: 2}, End: geo.Point{X: 1, Y: 2}}
		if got := geo.SegPolyRelation(seg, sq); got != geo.RELA_INTERSECT {
			rt.Fatalf("segment through the closing edge: %s", relaName[got])
		}
		if got := geo.LinearPolyRelation(geo.LinearRing{{X: 1, Y: 1}, {X: 2, Y: 1}, {X: -2, Y: 2}, {X: 1, Y: 1}}, sq); got != geo.RELA_INTERSECT {
			rt.Fatalf("ring through the closing edge: %s", relaName[got])
		}
	})
}

// ---- C18 validation ----

func TestC18_SelfIntersect(t *testing.T) {
	run(t, 2000, "arbitrary and simple lattice rings, every start and both directions; non-trivial: a proper crossing, or a simple ring of more than 4 vertices", func(rt *rapid.T, c *Case) {
		l := genLatFlat(rt)
		fine(rt, &l)
		var ps []ip
		switch ir(rt, 0, 2, "form") {
		case 0:
			ps, _ = genSimple(rt, l.r)
			if bl(rt, "swap") && len(ps) > 3 { // swap two vertices: usually makes one crossing
				i := ir(rt, 0, len(ps)-1, "i")
				j := (i + ir(rt, 1, 2, "dj")) % len(ps)
				ps[i], ps[j] = ps[j], ps[i]
			}
		default:
			ps = collapse(genIPs(rt, l.r, 3, 8, "pts"))
			if len(ps) < 3 {
				ps = []ip{{0, 0}, {1, 0}, {0, 1}}
			}
		}
		want := hasProperCross(ps)
		c.D("scale=%v off=%d,%d %v", l.scale, l.ox, l.oy, ps)
		c.NT(want || (len(ps) > 4 && isSimple(ps)))
		c.L("crossing=%v", want)
		mk := polyMaker(rt, c, l)
		for k := range ps {
			if len(ps) > 16 && k%(len(ps)/8) != 0 {
				continue
			}
			rot := rotated(ps, k)
			for _, q := range []geo.Polygon{mk(rot), mk(reversed(rot))} {
				if got := q.SelfIntersect(); got != want {
					rt.Fatalf("SelfIntersect(%v) = %v, exact %v", q, got, want)
				}
			}
		}
	})
}

func TestC18_Verify(t *testing.T) {
	run(t, 2500, "lattice rings as longitude/latitude polygons, plain and damaged (too few points, no area, out of range, crossing); non-trivial: a valid ring of more than 3 vertices, or a damaged one", func(rt *rapid.T, c *Case) {
		// a lattice that stays within lon/lat
		l := lat{scale: pick(rt, "scale", 1.0, 0.5, 1.0/64, 1.0/1024, 1.0/8192), r: pick(rt, "r", 3, 8, 20)}
		l.ox = int64(pick(rt, "ox", 0.0, -100, 100, 50, 178, -178, 180, -180) / l.scale)
		l.oy = int64(pick(rt, "oy", 0.0, -40, 40, 88, -88, 90, -90) / l.scale)
		ps, _ := genSimple(rt, l.r)
		inRange := func(r geo.LinearRing) bool {
			for _, p := range r {
				if p.X < -180 || p.X > 180 || p.Y < -90 || p.Y > 90 {
					return false
				}
			}
			return true
		}
		dmg := ir(rt, 0, 6, "damage")
		if ir(rt, 0, 199, "many") == 111 {
			dmg = 7
		}
		var ring geo.LinearRing
		valid := false
		why := "valid"
		switch dmg {
		case 0, 1:
			ring = l.ring(ps)
			valid = inRange(ring)
			if !valid {
				why = "range"
			}
		case 2: // touches the limits of the range exactly
			x, y := float64(ir(rt, 1, 179, "x")), float64(ir(rt, 1, 89, "y"))
			sx, sy := pick(rt, "sx", 1.0, -1), pick(rt, "sy", 1.0, -1)
			ring = geo.LinearRing{{X: 180 * sx, Y: 90 * sy}, {X: x, Y: 90 * sy}, {X: x, Y: y}, {X: 180 * sx, Y: y}, {X: 180 * sx, Y: 90 * sy}}
			valid, why = true, "limits"
		case 3: // one vertex just outside
			x, y := float64(ir(rt, 0, 100, "x")), float64(ir(rt, 0, 50, "y"))
			d := pick(rt, "d", 1e-9, 1, 90.5, 1000)
			bad := pick(rt, "side", geo.Point{X: 180 + d, Y: y}, geo.Point{X: -180 - d, Y: y}, geo.Point{X: x, Y: 90 + d}, geo.Point{X: x, Y: -90 - d})
			vs := rotated([]geo.Point{{X: x, Y: y}, {X: x + 1, Y: y}, {X: x + 1, Y: y + 1}}, ir(rt, 0, 2, "rot"))
			// away from degenerate positions
			vs = append(vs, bad)
			vs = rotated(vs, ir(rt, 0, 3, "rot2"))
			ring = append(geo.LinearRing(vs), vs[0])
			why = "range"
		case 7: // a long strip, whole or with one vertex anywhere too high
			m := bigOf(rt, 4, 300, "strip") + 3
			for i := 0; i < m; i++ {
				ring = append(ring, geo.Point{X: float64(i) / 64, Y: 89 + float64(i%3)/4})
			}
			for i := m - 1; i >= 0; i-- {
				ring = append(ring, geo.Point{X: float64(i) / 64, Y: 89.75 + float64(i%2)/4})
			}
			valid = true
			if bl(rt, "high") {
				i := ir(rt, m, 2*m-1, "highat")
				ring[i].Y = 90 + pick(rt, "highby", 1e-9, 0.25, 1)
				valid, why = false, "range"
			}
			ring = rotated(ring, ir(rt, 0, 2*m-1, "rot"))
			ring = append(ring, ring[0])
		case 4: // too few points
			n := ir(rt, 0, 2, "n")
			for i := 0; i < n; i++ {
				ring = append(ring, l.pt(ps[i]))
			}
			if n > 0 {
				ring = append(ring, ring[0])
			}
			why = "few"
		case 5: // no area
			a, d := genIP(rt, l.r, "a"), genIP(rt, 3, "d")
			for _, k := range sliceOf(rt, "ks", 3, 6, func(rt *rapid.T) int { return ir(rt, -3, 3, "k") }) {
				ring = append(ring, l.pt(ip{a.x + int64(k)*d.x, a.y + int64(k)*d.y}))
			}
			ring = append(ring, ring[0])
			why = "area"
		case 6: // crossing
			qs := collapse(genIPs(rt, l.r, 4, 7, "cross"))
			if len(qs) < 4 || !hasProperCross(qs) || area2(qs) == 0 {
				qs = rotated([]ip{{0, 0}, {3, 2}, {3, 0}, {0, 3}}, ir(rt, 0, 3, "rot"))
			}
			ring = l.ring(qs)
			why = "crossing"
		}
		c.D("%s %v", why, ring)
		c.L("%s", why)
		c.NT(!valid || len(ring) > 4)
		p := geo.Polygon{ring}
		var holes []geo.LinearRing
		if ring == nil {
			p = geo.Polygon{}
		} else if ir(rt, 0, 3, "withholes") == 0 {
			holes = genHoles(rt, lat{scale: 1, r: 9}, 9)
			p = append(p, holes...)
			c.D("holes %v", holes)
		}
		err := p.Verify()
		if valid && err != nil {
			rt.Fatalf("Verify rejects a valid ring: %v", err)
		}
		if !valid && err == nil {
			rt.Fatalf("Verify accepts a ring with defect %q", why)
		}
		if valid {
			r2 := reversed(ring)
			p2 := append(geo.Polygon{geo.LinearRing(r2)}, holes...)
			if err := p2.Verify(); err != nil {
				rt.Fatalf("Verify rejects the reversed ring: %v", err)
			}
		}
		ln := geo.LineString(ring)
		if (ln.Verify() == nil) != (len(ln) >= 2) {
			rt.Fatalf("LineString.Verify of %d points: %v", len(ln), ln.Verify())
		}
	})
}
