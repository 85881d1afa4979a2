package harness

import (
	"math"
	"math/big"
	"sort"
	"testing"

	geo "github.com/hzw456/go-geo"
	"pgregory.net/rapid"
)

// ---- C24 convex hull ----

// orient is the exact sign of the turn a, b, c.
func orient(a, b, c geo.Point) int {
	l, r := (b.X-a.X)*(c.Y-a.Y), (b.Y-a.Y)*(c.X-a.X)
	d := l - r
	// the differences are rounded too, so the filter is generous
	m := (math.Abs(a.X)+math.Abs(b.X))*(math.Abs(a.Y)+math.Abs(c.Y)) + (math.Abs(b.Y)+math.Abs(a.Y))*(math.Abs(c.X)+math.Abs(a.X))
	if d > 1e-15*4*m {
		return 1
	}
	if d < -1e-15*4*m {
		return -1
	}
	f := func(v float64) *big.Rat { return new(big.Rat).SetFloat64(v) }
	sub := func(a, b float64) *big.Rat { return new(big.Rat).Sub(f(a), f(b)) }
	x := new(big.Rat).Mul(sub(b.X, a.X), sub(c.Y, a.Y))
	y := new(big.Rat).Mul(sub(b.Y, a.Y), sub(c.X, a.X))
	return x.Cmp(y)
}

// refHull: exact strict hull of float points, counter-clockwise, nil if all are collinear.
func refHull(in []geo.Point) []geo.Point {
	ps := append([]geo.Point(nil), in...)
	sort.Slice(ps, func(i, j int) bool { return ps[i].X < ps[j].X || ps[i].X == ps[j].X && ps[i].Y < ps[j].Y })
	k := 0
	for i, p := range ps {
		if i == 0 || p != ps[k-1] {
			ps[k] = p
			k++
		}
	}
	ps = ps[:k]
	if k < 3 {
		return nil
	}
	var h []geo.Point
	for _, p := range ps {
		for len(h) >= 2 && orient(h[len(h)-2], h[len(h)-1], p) <= 0 {
			h = h[:len(h)-1]
		}
		h = append(h, p)
	}
	lo := len(h)
	for i := k - 2; i >= 0; i-- {
		for len(h) > lo && orient(h[len(h)-2], h[len(h)-1], ps[i]) <= 0 {
			h = h[:len(h)-1]
		}
		h = append(h, ps[i])
	}
	h = h[:len(h)-1]
	if len(h) < 3 {
		return nil
	}
	return h
}

func diameter(ps []geo.Point) float64 {
	b := geo.Box{MinX: math.Inf(1), MinY: math.Inf(1), MaxX: math.Inf(-1), MaxY: math.Inf(-1)}
	for _, p := range ps {
		b.MinX, b.MaxX = math.Min(b.MinX, p.X), math.Max(b.MaxX, p.X)
		b.MinY, b.MaxY = math.Min(b.MinY, p.Y), math.Max(b.MaxY, p.Y)
	}
	return math.Hypot(b.MaxX-b.MinX, b.MaxY-b.MinY)
}

// ringWidth is the smallest width of a convex ring (0 for nil).
func ringWidth(h []geo.Point) float64 {
	w := math.Inf(1)
	if len(h) < 3 {
		return 0
	}
	for i := range h {
		a, b := h[i], h[(i+1)%len(h)]
		m := 0.0
		for _, p := range h {
			m = math.Max(m, math.Abs((b.X-a.X)*(p.Y-a.Y)-(b.Y-a.Y)*(p.X-a.X))/math.Hypot(b.X-a.X, b.Y-a.Y))
		}
		w = math.Min(w, m)
	}
	return w
}

// hullOf calls ConvexHull and checks everything that does not need the true hull.
func hullOf(rt *rapid.T, pts []geo.Point, tol float64) geo.LinearRing {
	poly := geo.ConvexHull(pts...)
	if poly == nil {
		return nil
	}
	if len(poly) != 1 || len(poly[0]) < 4 {
		rt.Fatalf("hull %v is not one ring", poly)
	}
	r := poly[0]
	if r[0] != r[len(r)-1] {
		rt.Fatalf("hull ring %v is not closed", r)
	}
	among := map[geo.Point]bool{}
	for _, p := range pts {
		among[p] = true
	}
	for _, v := range r {
		if !among[v] {
			rt.Fatalf("hull vertex %v is not one of the points", v)
		}
	}
	return r
}

func areaOf(r []geo.Point) float64 {
	s := 0.0
	for i := range r {
		a, b := r[i], r[(i+1)%len(r)]
		s += (a.X-r[0].X)*(b.Y-r[0].Y) - (a.Y-r[0].Y)*(b.X-r[0].X)
	}
	return s / 2
}

func genCloud(rt *rapid.T, r int) []ip {
	n := sz(rt, "n", 1, 2, 3, 4, 5, 8, 15, 40, 150)
	var ps []ip
	shape := ir(rt, 0, 6, "shape")
	a, d := genIP(rt, r, "a"), genIP(rt, 3, "d")
	for i := 0; i < n; i++ {
		switch shape {
		case 0, 1: // anywhere
			ps = append(ps, genIP(rt, r, "p"))
		case 2: // collinear
			k := int64(ir(rt, -r, r, "k"))
			ps = append(ps, ip{a.x + k*d.x, a.y + k*d.y})
		case 3: // two parallel rows
			k := int64(ir(rt, -r, r, "k"))
			o := int64(ir(rt, 0, 1, "row"))
			ps = append(ps, ip{a.x + k*d.x - o*d.y, a.y + k*d.y + o*d.x + o})
		case 4: // square frame: many points on the hull edges
			k := int64(ir(rt, 0, r, "k"))
			rr := int64(r)
			ps = append(ps, pick(rt, "side", ip{k, 0}, ip{rr, k}, ip{k, rr}, ip{0, k}))
		case 5: // few positions, many repetitions
			ps = append(ps, ip{int64(ir(rt, 0, 2, "x")), int64(ir(rt, 0, 2, "y"))})
		case 6: // parabola: all on the hull
			k := int64(i) - int64(n)/2
			if abs64(k) > 300 {
				k = 300
			}
			ps = append(ps, ip{k, k * k})
		}
	}
	return ps
}

func TestC24_Lattice(t *testing.T) {
	run(t, 3000, "1 to 150 lattice points: scattered, collinear, in rows, on a frame, repeated, on a parabola, in any order; non-trivial: a hull with area and at least one point off its vertices", func(rt *rapid.T, c *Case) {
		l := genLat(rt)
		ps := genCloud(rt, l.r)
		c.D("scale=%v off=%d,%d %v", l.scale, l.ox, l.oy, ps)
		want := exactHull(ps)
		c.NT(want != nil && len(want) < len(ps))
		inv := map[geo.Point]ip{}
		for _, p := range ps {
			inv[l.pt(p)] = p
		}
		check := func(ps []ip) {
			r := hullOf(rt, l.pts(ps), 0)
			if want == nil {
				if r != nil && geo.GetArea(geo.Polygon{r}) != 0 {
					rt.Fatalf("collinear or too few points have the hull %v", r)
				}
				if len(ps) < 3 && r != nil {
					rt.Fatalf("%d points have the hull %v", len(ps), r)
				}
				return
			}
			if r == nil {
				rt.Fatalf("no hull for points with the hull %v", want)
			}
			// back on the lattice: drop repeated and straight vertices, then the ring is the exact hull
			var vs []ip
			for _, v := range r[:len(r)-1] {
				vs = append(vs, inv[v])
			}
			vs = collapse(vs)
			for i := range vs {
				if cross(vs[(i+len(vs)-1)%len(vs)], vs[i], vs[(i+1)%len(vs)]) < 0 {
					rt.Fatalf("hull ring %v turns right at %v", r, vs[i])
				}
			}
			var strict []ip
			for i := range vs {
				if cross(vs[(i+len(vs)-1)%len(vs)], vs[i], vs[(i+1)%len(vs)]) != 0 {
					strict = append(strict, vs[i])
				}
			}
			if len(strict) != len(want) {
				rt.Fatalf("hull ring %v, exact hull %v", strict, want)
			}
			at := -1
			for i := range strict {
				if strict[i] == want[0] {
					at = i
				}
			}
			for i := range want {
				if at < 0 || strict[(at+i)%len(strict)] != want[i] {
					rt.Fatalf("hull ring %v, exact hull %v", strict, want)
				}
			}
			exact := float64(area2(want)) / 2 * l.scale * l.scale
			if got := geo.GetArea(geo.Polygon{r}); got != exact || !(geo.Polygon{r}).IsCCW() {
				rt.Fatalf("hull %v: area %v (exact %v), counter-clockwise %v", r, got, exact, geo.Polygon{r}.IsCCW())
			}
			// each vertex is passed once around: no ring that winds twice
			if n := len(vs); n > len(dedup(vs)) {
				rt.Fatalf("hull ring %v visits a vertex twice", vs)
			}
		}
		check(ps)
		check(rapid.Permutation(ps).Draw(rt, "perm"))
		if len(ps) >= 3 {
			more := append(append([]ip(nil), ps...), ps[ir(rt, 0, len(ps)-1, "dup")])
			check(reversed(more))
		}
	})
}

func TestC24_Decimal(t *testing.T) {
	run(t, 2500, "decimal point sets: scattered, near-collinear, on circles, with close neighbours; non-trivial: the hull is at least 1e-6 of the diameter wide", func(rt *rapid.T, c *Case) {
		s := genScene(rt)
		n := sz(rt, "n", 3, 4, 6, 12, 50, 300)
		shape := ir(rt, 0, 5, "shape")
		slope := pick(rt, "slope", 0.1, 1.0/3, 1, -0.7, 3.3)
		var ps []geo.Point
		for i := 0; i < n; i++ {
			var x, y float64
			switch shape {
			case 0:
				x, y = uf(rt, -1, 1, "x"), uf(rt, -1, 1, "y")
			case 1: // decimals along a sloped line
				k := float64(ir(rt, -10, 10, "k"))
				x = k / 10
				y = slope * x / 4
			case 2: // circle
				a := uf(rt, 0, 2*math.Pi, "a")
				x, y = math.Cos(a), math.Sin(a)
			case 3: // grid of tenths
				x, y = float64(ir(rt, -9, 9, "gx"))/10, float64(ir(rt, -9, 9, "gy"))/10
			case 4: // clusters
				k := float64(ir(rt, 0, 2, "cl"))
				x, y = k/3+1e-9*uf(rt, -1, 1, "cx"), k*k/9+1e-9*uf(rt, -1, 1, "cy")
			case 5: // near a line, noise of a few ulps
				k := uf(rt, -1, 1, "k")
				x = k
				y = slope*k/4 + 1e-16*float64(ir(rt, -3, 3, "ulp"))
			}
			ps = append(ps, geo.Point{X: s.ox + s.span*x, Y: s.oy + s.span*y})
		}
		if bl(rt, "apex") { // gives thin sets an area
			ps[ir(rt, 0, n-1, "ai")] = geo.Point{X: s.ox + s.span*uf(rt, -1, 1, "ax"), Y: s.oy + s.span*uf(rt, -1, 1, "ay")}
		}
		c.D("%v", ps)
		tol := 1e-9*s.span + 1e-14*s.mag()
		want := refHull(ps)
		width := ringWidth(want)
		c.NT(width > 1e-6*s.span)
		for _, in := range [][]geo.Point{ps, rapid.Permutation(ps).Draw(rt, "perm")} {
			r := hullOf(rt, in, tol)
			if width < 4*tol { // not distinguishable from collinear points
				continue
			}
			if r == nil {
				rt.Fatalf("no hull for points with the hull %v", want)
			}
			if a, b := areaOf(r), areaOf(want); !closeTo(a, b, tol*diameter(ps)*4) {
				rt.Fatalf("hull %v has area %v, the true hull %v", r, a, b)
			}
			for i := 0; i+1 < len(r); i++ {
				a, b := r[i], r[i+1]
				ln := math.Hypot(b.X-a.X, b.Y-a.Y)
				if ln < 1e-6*s.span {
					continue
				}
				for _, p := range ps {
					if d := ((b.X-a.X)*(p.Y-a.Y) - (b.Y-a.Y)*(p.X-a.X)) / ln; d < -tol*(1+s.span/ln*2) {
						rt.Fatalf("point %v is %g outside the hull edge %v %v", p, -d, a, b)
					}
				}
			}
		}
	})
}

func TestC24_Large(t *testing.T) {
	run(t, 20, "1000 to 6000 lattice points in one call, scattered or all on one parabola (a hull of thousands of vertices); non-trivial: all", func(rt *rapid.T, c *Case) {
		n := ir(rt, 1000, 6000, "n")
		r := pick(rt, "r", 3, 50, 5000)
		seed := rapid.Uint64().Draw(rt, "seed")
		ps := make([]ip, n)
		pts := make([]geo.Point, n)
		x := seed | 1
		curve := ir(rt, 0, 4, "curve")
		for i := range ps {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			ps[i] = ip{int64(x%uint64(2*r+1)) - int64(r), int64((x>>32)%uint64(2*r+1)) - int64(r)}
			if curve == 1 {
				ps[i].y = ps[i].x * ps[i].x
			} else if curve == 2 {
				ps[i].x = -ps[i].y * ps[i].y
			}
			pts[i] = geo.Point{X: float64(ps[i].x), Y: float64(ps[i].y)}
		}
		c.D("n=%d r=%d seed=%d curve=%d", n, r, seed, curve)
		c.NT(true)
		poly := geo.ConvexHull(pts...)
		if got, want := geo.GetArea(poly), float64(area2(exactHull(ps)))/2; got != want {
			rt.Fatalf("hull area %v, exact %v", got, want)
		}
	})
}

func TestC24_Area2(t *testing.T) {
	run(t, 500, "lattice triples: Area2 is twice the signed triangle area; non-trivial: not collinear", func(rt *rapid.T, c *Case) {
		l := genLat(rt)
		p, q, r := genIP(rt, l.r, "p"), genIP(rt, l.r, "q"), genIP(rt, l.r, "r")
		c.D("scale=%v off=%d,%d %v %v %v", l.scale, l.ox, l.oy, p, q, r)
		want := float64(cross(p, q, r)) * l.scale * l.scale
		c.NT(want != 0)
		if got := geo.Area2(l.pt(p), l.pt(q), l.pt(r)); got != want {
			rt.Fatalf("Area2 = %v, want %v", got, want)
		}
	})
}

// ---- C25 minimum bounding rectangle ----

// refMinRect: area of the smallest enclosing rectangle (one side along a hull edge).
func refMinRect(h []geo.Point) float64 {
	best := math.Inf(1)
	for i := range h {
		a, b := h[i], h[(i+1)%len(h)]
		ln := math.Hypot(b.X-a.X, b.Y-a.Y)
		ux, uy := (b.X-a.X)/ln, (b.Y-a.Y)/ln
		u0, u1, v1 := math.Inf(1), math.Inf(-1), 0.0
		for _, p := range h {
			u := (p.X-a.X)*ux + (p.Y-a.Y)*uy
			v := -(p.X-a.X)*uy + (p.Y-a.Y)*ux
			u0, u1, v1 = math.Min(u0, u), math.Max(u1, u), math.Max(v1, v)
		}
		best = math.Min(best, (u1-u0)*v1)
	}
	return best
}

func TestC25_Mbr(t *testing.T) {
	run(t, 2500, "geometries of all six 2-D types, extents 0.02 to 1e5, also rotated rectangles and long thin ones, and points/collinear ones; non-trivial: the best rectangle is not axis-parallel", func(rt *rapid.T, c *Case) {
		span := sc(rt, "span", 0.05, 1.0, 30, 1e3, 1e5)
		ctr := geo.Point{X: so(rt, "cx", 0.0, 116.4, -1000, 5e5), Y: so(rt, "cy", 0.0, 39.9, -200)}
		n := sz(rt, "n", 3, 4, 5, 8, 20, 60)
		var ps []geo.Point
		flat := false
		rot := uf(rt, 0, math.Pi, "rot")
		asp := pick(rt, "aspect", 1, 0.5, 0.05)
		shape := ir(rt, 0, 5, "shape")
		if ir(rt, 0, 99, "manyEdges") == 0 { // an even arc: one hull edge a point, the chord the longest of them
			shape, n = 6, ir(rt, 60, 500, "nEdges")
		}
		arc0, arc := uf(rt, 0, 2*math.Pi, "arc0"), pick(rt, "arc", 0.3, 1.6, 3, 6.28)
		for i := 0; i < n; i++ {
			var x, y float64
			switch shape {
			case 6:
				a := arc0 + arc*float64(i)/float64(n)
				x, y = math.Cos(a), asp*math.Sin(a)
			case 5: // a rounded side and straight ones: hulls of many edges, unevenly spread
				if a := arc0 + arc*uf(rt, 0, 1, "a"); i < n-3 {
					x, y = math.Cos(a), asp*math.Sin(a)
				} else {
					x, y = uf(rt, -2, 2, "x"), asp*uf(rt, -2, 2, "y")
				}
			case 0, 1:
				x, y = uf(rt, -1, 1, "x"), asp*uf(rt, -1, 1, "y")
			case 2: // corners and interior of a rotated rectangle
				if i < 4 {
					x, y = []float64{-1, 1, 1, -1}[i], asp*[]float64{-1, -1, 1, 1}[i]
				} else {
					x, y = uf(rt, -1, 1, "x"), asp*uf(rt, -1, 1, "y")
				}
			case 3: // grid
				x, y = float64(ir(rt, -4, 4, "gx"))/4, asp*float64(ir(rt, -4, 4, "gy"))/4
			case 4: // collinear: exact on a lattice
				flat = true
				k := float64(ir(rt, -8, 8, "k"))
				x, y = k, k*2
			}
			if shape == 4 {
				ps = append(ps, geo.Point{X: x, Y: y})
				continue
			}
			u, v := x*math.Cos(rot)-y*math.Sin(rot), x*math.Sin(rot)+y*math.Cos(rot)
			if shape == 3 {
				u, v = x, y
			}
			ps = append(ps, geo.Point{X: ctr.X + span*u, Y: ctr.Y + span*v})
		}
		gt := ir(rt, 0, 5, "gtype")
		parts := ir(rt, 2, 6, "nparts")
		mk := func(ps []geo.Point) geo.Geometry {
			k := len(ps) / 2
			if gt == 3 || gt == 5 { // many parts, each point in at least one of them
				if parts = min(parts, len(ps)/2); parts > 2 {
					var ml geo.MultiLineString
					var mp geo.MultiPolygon
					for i := 0; i < parts; i++ {
						a, b := i*len(ps)/parts, (i+1)*len(ps)/parts
						ml = append(ml, geo.LineString(ps[a:b]))
						mp = append(mp, geo.Polygon{append(append(geo.LinearRing{}, ps[a:b]...), ps[a])})
					}
					if gt == 3 {
						return ml
					}
					return mp
				}
			}
			switch gt {
			case 1:
				return geo.MultiPoint(ps)
			case 2:
				return geo.LineString(ps)
			case 3:
				return geo.MultiLineString{geo.LineString(ps[:k]), geo.LineString(ps[k:])}
			case 4:
				return geo.Polygon{append(append(geo.LinearRing{}, ps...), ps[0])}
			case 5:
				return geo.MultiPolygon{{append(append(geo.LinearRing{}, ps...), ps[0])}, {append(append(geo.LinearRing{}, ps[k:]...), ps[k])}}
			}
			return ps[0]
		}
		g := mk(ps)
		c.D("%T%v", g, g)
		if gt == 0 {
			flat = true
		}
		if flat {
			c.L("flat")
			if r := geo.Mbr(g); len(r) != 0 {
				rt.Fatalf("a point or collinear geometry has the rectangle %v", r)
			}
			return
		}
		h := refHull(ps)
		if ringWidth(h) < 2e-3 { // below the resolution of the rotation
			return
		}
		best := refMinRect(h)
		e := envelope(geo.MultiPoint(ps))
		c.NT(best < 0.999*(e.MaxX-e.MinX)*(e.MaxY-e.MinY))
		c.L("%s", g.Type())
		dia := diameter(ps)
		tol := 4e-4 + 1e-11*(dia+math.Abs(ctr.X)+math.Abs(ctr.Y))
		check := func(g geo.Geometry) {
			r := geo.Mbr(g)
			if len(r) != 1 || len(r[0]) != 5 || r[0][0] != r[0][4] {
				rt.Fatalf("Mbr = %v, want a closed ring of four corners", r)
			}
			q := r[0]
			side := func(i int) (float64, float64) { return q[i+1].X - q[i].X, q[i+1].Y - q[i].Y }
			ax, ay := side(0)
			bx, by := side(1)
			cx, cy := side(2)
			if !closeTo(ax, -cx, 2*tol) || !closeTo(ay, -cy, 2*tol) {
				rt.Fatalf("Mbr %v is not a parallelogram", q)
			}
			la, lb := math.Hypot(ax, ay), math.Hypot(bx, by)
			// each side is off by at most tol, so the angle is off by tol/la + tol/lb
			if dot := ax*bx + ay*by; math.Abs(dot) > 2*tol*(la+lb)+4*tol*tol {
				rt.Fatalf("Mbr %v is not a rectangle", q)
			}
			// any direction:
			area := math.Abs(areaOf(q[:4]))
			if area > best+tol*(2*dia+4*(la+lb))+4*tol*tol {
				rt.Fatalf("Mbr %v has area %v, an enclosing rectangle of area %v exists", q, area, best)
			}
			or := 1.0
			if areaOf(q[:4]) < 0 {
				or = -1
			}
			for i := 0; i < 4; i++ {
				a := q[i]
				dx, dy := side(i)
				ln := math.Hypot(dx, dy)
				if ln == 0 {
					rt.Fatalf("Mbr %v is degenerate", q)
				}
				for _, p := range ps {
					// the corners are off by tol, which a short side turns into a larger lever
					if d := or * (dx*(p.Y-a.Y) - dy*(p.X-a.X)) / ln; d < -tol*(1+math.Hypot(p.X-a.X, p.Y-a.Y)/ln) {
						rt.Fatalf("Mbr %v: vertex %v is %g outside", q, p, -d)
					}
				}
			}
		}
		check(g)
		if gt == 1 || gt == 2 || gt == 3 {
			check(mk(rapid.Permutation(ps).Draw(rt, "perm")))
		}
		if gt == 4 {
			check(mk(rotated(ps, ir(rt, 0, n-1, "st"))))
			check(mk(reversed(ps)))
		}
	})
}

func TestC25_Regress(t *testing.T) {
	run(t, 1, "the repaired defects of this property, one case each", func(rt *rapid.T, c *Case) {
		c.D("last hull edge; tiny geometry")
		c.NT(true)
		// a square turned by 45 degrees: every hull edge gives area 2
		sq := geo.MultiPoint{{X: 1, Y: 0}, {X: 0, Y: 1}, {X: -1, Y: 0}, {X: 0, Y: -1}}
		if a := geo.GetArea(geo.Mbr(sq)); math.Abs(a-2) > 0.01 {
			rt.Fatalf("rectangle of a turned square has area %v", a)
		}
		thin := geo.MultiPoint{{X: 0, Y: 0}, {X: 10, Y: 6}, {X: 9.5, Y: 6.6}, {X: -0.5, Y: 0.7}}
		if a := geo.GetArea(geo.Mbr(thin)); a > refMinRect(refHull(thin))+0.05 {
			rt.Fatalf("rectangle of a thin quadrilateral has area %v", a)
		}
		for _, e := range []float64{1e-5, 1e-7, 1e-12} {
			geo.Mbr(geo.MultiPoint{{X: 0, Y: 0}, {X: e, Y: 0}, {X: 0, Y: e}, {X: e, Y: 3 * e}})
		}
	})
}

// ---- C26 rotation and buffers ----

func TestC26_Rotate(t *testing.T) {
	run(t, 2500, "points and polygons rotated by angles of several turns around near and far centres; non-trivial: angle not a multiple of a turn and a vertex off the centre", func(rt *rapid.T, c *Case) {
		s := genScene(rt)
		ctr := s.pt(rt, "c")
		a := pick(rt, "ak", 0, 1, 2) // kinds of angle
		ang := 0.0
		switch a {
		case 0:
			ang = float64(ir(rt, -8, 8, "q")) * math.Pi / 4
		case 1:
			ang = uf(rt, -7, 7, "ang")
		default:
			ang = uf(rt, -50, 50, "ang")
		}
		var ps []geo.Point
		n := pickb(rt, "n", 150, 1, 3, 4, 10)
		for i := 0; i < n; i++ {
			ps = append(ps, s.pt(rt, "p"))
		}
		if ir(rt, 0, 5, "atc") == 0 {
			ps[0] = ctr
		}
		c.D("%v around %v by %v", ps, ctr, ang)
		tol := 1.001e-4 + 1e-12*s.mag()
		rad := func(p geo.Point) float64 { return math.Hypot(p.X-ctr.X, p.Y-ctr.Y) }
		one := func(p geo.Point, ang float64, q geo.Point) {
			sn, cs := math.Sincos(ang)
			dx, dy := p.X-ctr.X, p.Y-ctr.Y
			want := geo.Point{X: ctr.X + dx*cs + dy*sn, Y: ctr.Y - dx*sn + dy*cs}
			if !nearPt(q, want, tol) {
				rt.Fatalf("%v rotated clockwise by %v around %v is %v, want %v", p, ang, ctr, q, want)
			}
			if !closeTo(rad(p), rad(q), 1.5*tol) {
				rt.Fatalf("distance to the centre changed from %v to %v", rad(p), rad(q))
			}
		}
		c.NT(math.Mod(ang, 2*math.Pi) != 0 && rad(ps[0]) > 1e-3)
		for _, p := range ps {
			q, ok := geo.RotateCW(p, ctr, ang).(geo.Point)
			if !ok {
				rt.Fatalf("a rotated point is not a point")
			}
			one(p, ang, q)
			q2, ok := geo.RotateCCW(p, ctr, ang).(geo.Point)
			if !ok {
				rt.Fatalf("a rotated point is not a point")
			}
			one(p, -ang, q2)
			if q3 := geo.RotateCW(p, ctr, -ang).(geo.Point); !nearPt(q2, q3, 1.01e-4) {
				rt.Fatalf("RotateCCW(%v) = %v, RotateCW(-%v) = %v", ang, q2, ang, q3)
			}
			if back := geo.RotateCCW(q, ctr, ang).(geo.Point); !nearPt(back, p, 3*tol) {
				rt.Fatalf("rotating %v there and back gives %v", p, back)
			}
		}
		if n < 3 {
			return
		}
		ring := append(append(geo.LinearRing{}, ps...), ps[0])
		poly := geo.Polygon{ring}
		for h := irb(rt, 0, 2, 12, "holes"); h > 0; h-- {
			hole := geo.LinearRing{s.pt(rt, "h"), s.pt(rt, "h"), s.pt(rt, "h")}
			poly = append(poly, append(hole, hole[0]))
		}
		c.D("with holes %v", poly[1:])
		for dir, f := range map[float64]func(geo.Geometry, geo.Point, float64) geo.Geometry{1: geo.RotateCW, -1: geo.RotateCCW} {
			r, ok := f(poly, ctr, ang).(geo.Polygon)
			if !ok || len(r) != len(poly) {
				rt.Fatalf("rotated polygon %v has other rings than %v", r, poly)
			}
			for k, ring := range poly {
				if len(r[k]) != len(ring) {
					rt.Fatalf("rotated ring %v has other vertices than %v", r[k], ring)
				}
				for i, q := range r[k] {
					one(ring[i], dir*ang, q)
				}
				if r[k][0] != r[k][len(ring)-1] {
					rt.Fatalf("rotated ring %v is not closed", r[k])
				}
			}
		}
	})
}

func TestC26_Buffer(t *testing.T) {
	run(t, 2500, "points anywhere with widths 1e-12 to 1e12, 0 and negative; non-trivial: positive width", func(rt *rapid.T, c *Case) {
		p := geo.Point{X: pick(rt, "ox", 0.0, 116, -1e5) + uf(rt, -100, 100, "x"), Y: uf(rt, -90, 90, "y")}
		w := math.Pow(10, uf(rt, -5, sc(rt, "wmax", 6.0, 12), "w"))
		if ir(rt, 0, 3, "smallscene") == 0 {
			k := pick(rt, "smallscale", 0, 1e-6, 1e-12, 1e-3)
			p = geo.Point{X: k * p.X, Y: k * p.Y}
			w = math.Pow(10, uf(rt, -12, 3, "sw"))
		}
		switch ir(rt, 0, 9, "wk") {
		case 0:
			w = 0
		case 1:
			w = -w
		case 2:
			w = float64(ir(rt, 1, 1000, "wi"))
		}
		c.D("%v width %v", p, w)
		c.NT(w > 0)
		poly := p.Buffer(w)
		if w < 0 {
			if len(poly) != 0 {
				rt.Fatalf("a negative width gives %v", poly)
			}
			return
		}
		if len(poly) != 1 {
			rt.Fatalf("buffer %v is not one ring", poly)
		}
		r := poly[0]
		tol := 1e-12*w + 2e-15*(math.Abs(p.X)+math.Abs(p.Y))
		for _, v := range r {
			if d := math.Hypot(v.X-p.X, v.Y-p.Y); !closeTo(d, w, tol) {
				rt.Fatalf("vertex %v is at %v from the point", v, d)
			}
		}
		if !nearPt(r[0], r[len(r)-1], 1e-6) {
			rt.Fatalf("buffer ring is not closed: %v %v", r[0], r[len(r)-1])
		}
		if w == 0 {
			return
		}
		if len(r) != 25 {
			rt.Fatalf("buffer has %d edges", len(r)-1)
		}
		for i := 0; i < 24; i++ {
			a, b := math.Atan2(r[i].Y-p.Y, r[i].X-p.X), math.Atan2(r[i+1].Y-p.Y, r[i+1].X-p.X)
			step := math.Mod(b-a+4*math.Pi, 2*math.Pi)
			if !closeTo(step, math.Pi/12, 4*tol/w+1e-12) {
				rt.Fatalf("buffer turns by %v between vertices %d and %d", step, i, i+1)
			}
		}
		if !poly.IsCCW() && (w > 1e-3 || p.X == 0 && p.Y == 0) {
			rt.Fatalf("buffer is not counter-clockwise")
		}
	})
}

func TestC26_Regress(t *testing.T) {
	run(t, 1, "the repaired defect of this property; non-trivial: always", func(rt *rapid.T, c *Case) {
		c.D("a buffer of width 7.5e9")
		c.NT(true)
		for _, w := range []float64{5e9, 7.5e9, 1e12} {
			if r := (geo.Point{X: -100, Y: -90}).Buffer(w)[0]; len(r) != 25 || r[24] != r[0] {
				rt.Fatalf("buffer of width %v: %v", w, r)
			}
		}
	})
}

// ---- C27 angles, convexity, vectors ----

func TestC27_Angles(t *testing.T) {
	run(t, 3000, "lattice and decimal triples and directions on and off the axes, with coinciding points; non-trivial: no coincidence", func(rt *rapid.T, c *Case) {
		var p, o, q geo.Point
		lattice := bl(rt, "lattice")
		l := genLat(rt)
		var ipp, ipo, ipq ip
		if lattice {
			ipp, ipo, ipq = genIP(rt, l.r, "p"), genIP(rt, l.r, "o"), genIP(rt, l.r, "q")
			if ir(rt, 0, 3, "line") == 0 { // same or opposite direction
				k := int64(ir(rt, -3, 3, "k"))
				ipq = ip{ipo.x + k*(ipp.x-ipo.x), ipo.y + k*(ipp.y-ipo.y)}
			}
			if ir(rt, 0, 4, "axis") == 0 {
				ipp = pick(rt, "ax", ip{ipo.x + 1, ipo.y}, ip{ipo.x - 2, ipo.y}, ip{ipo.x, ipo.y + 3}, ip{ipo.x, ipo.y - 1})
			}
			p, o, q = l.pt(ipp), l.pt(ipo), l.pt(ipq)
		} else {
			s := genScene(rt)
			if ir(rt, 0, 5, "farscene") == 0 {
				s.span = pick(rt, "farspan", 1e15, 1e17, 1e18, 1e60, 1e-20)
				if bl(rt, "centred") {
					s.ox, s.oy = 0, 0
				}
			}
			p, o, q = s.pt(rt, "p"), s.pt(rt, "o"), s.pt(rt, "q")
			switch ir(rt, 0, 9, "eq") {
			case 0:
				p = o
			case 1:
				q = o
			case 2: // very near the centre: whatever difference is left
				e := math.Pow(10, uf(rt, -12, -3, "e"))
				p = geo.Point{X: o.X + e*uf(rt, -1, 1, "ex"), Y: o.Y + e*uf(rt, -1, 1, "ey")}
			case 3:
				e := math.Pow(10, uf(rt, -12, -3, "e"))
				q = geo.Point{X: o.X + e*uf(rt, -1, 1, "ex"), Y: o.Y + e*uf(rt, -1, 1, "ey")}
			}
		}
		c.D("%v %v %v", p, o, q)
		coincide := p == o || q == o
		c.NT(!coincide)
		ang, err := geo.CacAngle(p, o, q)
		gna, err2 := geo.CacAngle(q, o, p)
		if (err != nil) != coincide || (err2 != nil) != coincide {
			rt.Fatalf("CacAngle error %v / %v, coincidence %v", err, err2, coincide)
		}
		cvx, err := geo.CacConvex(p, o, q)
		if (err != nil) != coincide {
			rt.Fatalf("CacConvex error %v, coincidence %v", err, coincide)
		}
		qa, err := geo.CacQuadrantAngle(o, q)
		if (err != nil) != (q == o) {
			rt.Fatalf("CacQuadrantAngle error %v, coincidence %v", err, q == o)
		}
		wrap := func(d float64) float64 {
			d = math.Mod(d, 2*math.Pi)
			return math.Min(math.Abs(d), 2*math.Pi-math.Abs(d))
		}
		if q != o {
			if !(qa >= 0 && qa <= 2*math.Pi) {
				rt.Fatalf("quadrant angle %v", qa)
			}
			if w := math.Atan2(q.Y-o.Y, q.X-o.X); wrap(qa-w) > 1e-12 {
				rt.Fatalf("quadrant angle of %v from %v is %v, direction %v", q, o, qa, math.Mod(w+2*math.Pi, 2*math.Pi))
			}
		}
		if coincide {
			return
		}
		if !(ang >= 0 && ang <= 2*math.Pi && gna >= 0 && gna <= 2*math.Pi) {
			rt.Fatalf("angles %v, %v not in [0, 2pi]", ang, gna)
		}
		want := math.Atan2((p.X-o.X)*(q.Y-o.Y)-(p.Y-o.Y)*(q.X-o.X), (p.X-o.X)*(q.X-o.X)+(p.Y-o.Y)*(q.Y-o.Y))
		if wrap(ang-want) > 1e-12 {
			rt.Fatalf("angle %v, turn from the first to the second direction %v", ang, math.Mod(want+2*math.Pi, 2*math.Pi))
		}
		if wrap(ang+gna) > 1e-12 {
			rt.Fatalf("angles %v and %v are not complementary", ang, gna)
		}
		turn := 0
		if lattice {
			turn = sgn(cross(ipp, ipo, ipq))
		} else {
			turn = orient(p, o, q)
			if math.Abs(math.Sin(want)) < 1e-12 {
				return // within rounding of straight
			}
		}
		if w := []int8{1, 2, 0}[turn+1]; cvx != w {
			rt.Fatalf("CacConvex = %d, want %d", cvx, w)
		}
	})
}

func TestC27_Vectors(t *testing.T) {
	run(t, 2000, "pairs of vectors and scalars of any moderate magnitude; non-trivial: neither is zero", func(rt *rapid.T, c *Case) {
		span := sc(rt, "span", 1e-3, 1, 1e6, 1e-9, 1e12)
		v2 := func(n string) geo.Vector2 {
			if bl(rt, n+"int") {
				return geo.Vector2{X: float64(ir(rt, -5, 5, n+"x")), Y: float64(ir(rt, -5, 5, n+"y"))}
			}
			return geo.Vector2{X: uf(rt, -span, span, n+"x"), Y: uf(rt, -span, span, n+"y")}
		}
		a, b := v2("a"), v2("b")
		k := pick(rt, "k", -1, 0, 0.5, 1, 3, uf(rt, -100, 100, "kf"), uf(rt, -100, 100, "kf2"))
		c.D("%v %v %v", a, b, k)
		zero := geo.Vector2{}
		c.NT(a != zero && b != zero)
		if w := (geo.Vector2{X: a.X + b.X, Y: a.Y + b.Y}); a.Add(b) != w || geo.Add(a, b) != w {
			rt.Fatalf("Add = %v / %v", a.Add(b), geo.Add(a, b))
		}
		if w := (geo.Vector2{X: a.X - b.X, Y: a.Y - b.Y}); a.Sub(b) != w {
			rt.Fatalf("Sub = %v", a.Sub(b))
		}
		m := math.Abs(a.X*b.X) + math.Abs(a.Y*b.Y) + math.Abs(a.X*b.Y) + math.Abs(a.Y*b.X)
		if got := a.Dot(b); !closeTo(got, a.X*b.X+a.Y*b.Y, 1e-15*m) {
			rt.Fatalf("Dot = %v", got)
		}
		if got := a.Cross(b); !closeTo(got, a.X*b.Y-a.Y*b.X, 1e-15*m) {
			rt.Fatalf("Cross = %v", got)
		}
		ln := math.Hypot(a.X, a.Y)
		if got := a.Length(); !closeTo(got, ln, 1e-14*ln) {
			rt.Fatalf("Length = %v", got)
		}
		if got := a.LengthSq(); !closeTo(got, ln*ln, 1e-14*ln*ln) {
			rt.Fatalf("LengthSq = %v", got)
		}
		if !a.Equal(a) || a.Equal(b) != (a == b) {
			rt.Fatalf("Equal")
		}
		cl := a.Clone()
		cl.Multiply(k)
		if !closeTo(cl.X, k*a.X, 1e-15*math.Abs(k*a.X)) || !closeTo(cl.Y, k*a.Y, 1e-15*math.Abs(k*a.Y)) {
			rt.Fatalf("Multiply = %v", cl)
		}
		if k != 0 {
			dv := a.Clone()
			dv.Divide(k)
			if !closeTo(dv.X, a.X/k, 1e-14*math.Abs(a.X/k)) || !closeTo(dv.Y, a.Y/k, 1e-14*math.Abs(a.Y/k)) {
				rt.Fatalf("Divide = %v", dv)
			}
		}
		if ln > 0 {
			u := geo.Normalize(a)
			w := a.Clone()
			w.Normalize()
			for _, v := range []*geo.Vector2{u, w} {
				if !closeTo(v.X, a.X/ln, 1e-13) || !closeTo(v.Y, a.Y/ln, 1e-13) {
					rt.Fatalf("Normalize = %v", v)
				}
			}
		}
		if n := geo.NewVector2(a.X, a.Y); *n != a {
			rt.Fatalf("NewVector2")
		}
		p, q := geo.Point{X: a.X, Y: a.Y}, geo.Point{X: b.X, Y: b.Y}
		w := geo.Vector2{X: b.X - a.X, Y: b.Y - a.Y}
		if *geo.ConvertPointToVector(p, q) != w || *geo.ConvertSegToVector(geo.LineSegment{Start: p, End: q}) != w {
			rt.Fatalf("ConvertPointToVector")
		}
	})
}
