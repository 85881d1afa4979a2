package harness

import (
	"math"
	"testing"

	geo "github.com/hzw456/go-geo"
	"pgregory.net/rapid"
)

const earthR = 6371000.0

var planarSRIDs = []geo.SRID{geo.SRID_WGS84_PSEUDO_MERCATOR, geo.SRID_WGS84_UTM_ZONE_50N, 0, geo.SRID_WGS84_UTM_ZONE_44N}

// refSphere: great-circle distance by Vincenty's spherical formula (well conditioned everywhere).
func refSphere(p, q geo.Point) float64 {
	a1, a2 := p.Y*math.Pi/180, q.Y*math.Pi/180
	dl := (q.X - p.X)
	dl = math.Mod(dl, 360) * math.Pi / 180
	s1, c1 := math.Sincos(a1)
	s2, c2 := math.Sincos(a2)
	sd, cd := math.Sincos(dl)
	y := math.Hypot(c2*sd, c1*s2-s1*c2*cd)
	return math.Atan2(y, s1*s2+c1*c2*cd) * earthR
}

// sphereTol is the accuracy asked of a great-circle distance: the haversine loses digits near the antipodes.
func sphereTol(d float64) float64 {
	return 1e-6 + math.Min(0.6, 0.3/math.Max(0, math.Pi*earthR-d))
}

// genPlanarPt draws points of a common scene: span and offset are those of the scene.
type scene struct{ span, ox, oy float64 }

func genScene(rt *rapid.T) scene {
	return scene{sc(rt, "span", 1e-3, 1, 10, 1e3, 1e6, 1e-6, 1e8, 1e11, 1e-11), so(rt, "sox", 0.0, 0, 116, -1e3, 4e5), so(rt, "soy", 0.0, 0, 39.9, 5e6)}
}
func (s scene) pt(rt *rapid.T, name string) geo.Point {
	if bl(rt, name+"grid") {
		return geo.Point{X: s.ox + s.span*float64(ir(rt, -8, 8, name+"x"))/8, Y: s.oy + s.span*float64(ir(rt, -8, 8, name+"y"))/8}
	}
	return geo.Point{X: s.ox + uf(rt, -s.span, s.span, name+"x"), Y: s.oy + uf(rt, -s.span, s.span, name+"y")}
}

// mag is the largest coordinate of the scene: rounding of coordinates is relative to it.
func (s scene) mag() float64 { return s.span + math.Max(math.Abs(s.ox), math.Abs(s.oy)) }
func (s scene) tol() float64 { return 1e-9*s.span + 1e-14*s.mag() }

// ---- C19 ----

func TestC19_Segment(t *testing.T) {
	run(t, 3000, "points against segments and infinite lines (including zero-length) in planar systems, from 1e-3 to 1e6 wide and up to 5e6 off the origin; non-trivial: the foot falls inside the segment", func(rt *rapid.T, c *Case) {
		s := genScene(rt)
		p, a, b := s.pt(rt, "p"), s.pt(rt, "a"), s.pt(rt, "b")
		switch ir(rt, 0, 7, "special") {
		case 0:
			b = a
		case 1:
			p = pick(rt, "at", a, b)
		case 2:
			f := uf(rt, -1, 2, "f")
			p = geo.Point{X: a.X + f*(b.X-a.X), Y: a.Y + f*(b.Y-a.Y)}
		case 3: // a short segment seen from afar
			e := s.span * math.Pow(10, float64(ir(rt, -7, -1, "short")))
			b = geo.Point{X: a.X + uf(rt, -e, e, "shx"), Y: a.Y + uf(rt, -e, e, "shy")}
		}
		srid := pick(rt, "srid", planarSRIDs...)
		c.D("%v %v-%v %d", p, a, b, srid)
		tol := s.tol()
		want, u := refSegNear(p, a, b)
		c.NT(u > 0 && u < 1)
		d, q := geo.PointToSegmentDistance(p, a, b, srid)
		if !closeTo(d, want, tol) {
			rt.Fatalf("PointToSegmentDistance = %v, minimum over the segment %v", d, want)
		}
		if !closeTo(math.Hypot(p.X-q.X, p.Y-q.Y), d, tol) {
			rt.Fatalf("returned point %v is not at the returned distance %v", q, d)
		}
		if e := refSegDist(q, a, b); e > tol {
			rt.Fatalf("returned point %v is %g off the segment", q, e)
		}
		if d2, _ := geo.PointToSegmentDistance(p, b, a, srid); !closeTo(d2, d, tol) {
			rt.Fatalf("distance to the reversed segment %v, %v", d2, d)
		}
		// no sampled point of the segment is nearer
		f := uf(rt, 0, 1, "sample")
		if x := math.Hypot(p.X-(a.X+f*(b.X-a.X)), p.Y-(a.Y+f*(b.Y-a.Y))); x < d-tol {
			rt.Fatalf("the point at %v of the segment is nearer: %v < %v", f, x, d)
		}
		// infinite line
		ld, foot, k := geo.PointToLineDistance(p, a, b, srid)
		dx, dy := b.X-a.X, b.Y-a.Y
		l2 := dx*dx + dy*dy
		if l2 == 0 {
			if !closeTo(ld, want, tol) || foot != a {
				rt.Fatalf("line through equal points: %v %v", ld, foot)
			}
			return
		}
		ln := math.Sqrt(l2)
		if ln < 1e-3*s.span {
			return // badly conditioned direction
		}
		tl := tol * 2e3
		wantK := ((p.X-a.X)*dx + (p.Y-a.Y)*dy) / l2
		if !closeTo(ld, math.Abs(dx*(p.Y-a.Y)-dy*(p.X-a.X))/ln, tl) {
			rt.Fatalf("PointToLineDistance = %v", ld)
		}
		if !closeTo(k, wantK, 1e-9*(1+math.Abs(wantK))+tl/ln) {
			rt.Fatalf("parameter %v, want %v", k, wantK)
		}
		if !nearPt(foot, geo.Point{X: a.X + wantK*dx, Y: a.Y + wantK*dy}, tl) {
			rt.Fatalf("foot %v is not at parameter %v", foot, wantK)
		}
		if dot := ((p.X-foot.X)*dx + (p.Y-foot.Y)*dy) / ln; math.Abs(dot) > tl {
			rt.Fatalf("foot %v is not perpendicular (%g)", foot, dot)
		}
		if !closeTo(ld, math.Hypot(p.X-foot.X, p.Y-foot.Y), tl) {
			rt.Fatalf("foot %v is not at the returned distance %v", foot, ld)
		}
	})
}

func TestC19_Line(t *testing.T) {
	run(t, 2000, "points against polylines of 2 to 300 (seldom 3000) points in planar systems; non-trivial: the nearest segment is not the first", func(rt *rapid.T, c *Case) {
		s := genScene(rt)
		n := sz(rt, "n", 2, 3, 4, 8, 40, 60)
		if ir(rt, 0, 19, "long") == 10 {
			n = max(2, bigOf(rt, 60, 300, "longn"))
		}
		line := geo.LineString{}
		for i := 0; i < n; i++ {
			q := s.pt(rt, "v")
			if i > 0 && ir(rt, 0, 9, "rep") == 0 {
				q = line[i-1]
			}
			line = append(line, q)
		}
		p := s.pt(rt, "p")
		switch ir(rt, 0, 4, "near") {
		case 0:
			p = line[ir(rt, 0, n-1, "at")]
		case 1:
			i := ir(rt, 0, n-2, "on")
			f := uf(rt, 0, 1, "f")
			p = geo.Point{X: line[i].X + f*(line[i+1].X-line[i].X) + s.span*1e-3, Y: line[i].Y + f*(line[i+1].Y-line[i].Y)}
		}
		srid := pick(rt, "srid", planarSRIDs...)
		c.D("%v %v %d", p, line, srid)
		tol := s.tol()
		want, at := math.Inf(1), 0
		for i := 0; i+1 < n; i++ {
			if d := refSegDist(p, line[i], line[i+1]); d < want {
				want, at = d, i
			}
		}
		c.NT(at > 0)
		q, idx, d := geo.PointHitLineString(p, line, srid)
		if !closeTo(d, want, tol) {
			rt.Fatalf("PointHitLineString distance %v, minimum %v on segment %d", d, want, at)
		}
		if idx < 0 || idx >= n-1 {
			rt.Fatalf("segment index %d of %d segments", idx, n-1)
		}
		if x := refSegDist(p, line[idx], line[idx+1]); !closeTo(x, d, tol) {
			rt.Fatalf("segment %d is at %v, not %v", idx, x, d)
		}
		if x := refSegDist(q, line[idx], line[idx+1]); x > tol {
			rt.Fatalf("hit point %v is %g off segment %d", q, x, idx)
		}
		if x := math.Hypot(p.X-q.X, p.Y-q.Y); !closeTo(x, d, tol) {
			rt.Fatalf("hit point %v is at %v, not %v", q, x, d)
		}
	})
}

func TestC19_Polygon(t *testing.T) {
	run(t, 2000, "points against simple lattice polygons (with holes) in planar systems; non-trivial: a point outside", func(rt *rapid.T, c *Case) {
		l := genLat(rt)
		ps, kind := genSimple(rt, l.r)
		q := genNear(rt, ps, l.r, "q")
		poly := l.poly(ps)
		if bl(rt, "rev") {
			poly = l.poly(reversed(ps))
		}
		poly = append(geo.Polygon{rotRing(poly[0], ir(rt, 0, len(ps)-1, "rot"))}, genHoles(rt, l, l.r)...)
		srid := pick(rt, "srid", planarSRIDs...)
		c.D("%s %v %v %d", kind, l.pt(q), poly, srid)
		k := pip(ps, q)
		c.NT(k == 0)
		c.L("%s", relaName[pipWant(k)])
		want := 0.0
		if k == 0 {
			want = math.Inf(1)
			for i := range ps {
				want = math.Min(want, refSegDist(l.pt(q), l.pt(ps[i]), l.pt(ps[(i+1)%len(ps)])))
			}
		}
		if d := geo.PointPolygonDistance(l.pt(q), poly, srid); !closeTo(d, want, 1e-9*(want+l.scale)) || (want == 0) != (d == 0) {
			rt.Fatalf("PointPolygonDistance = %v, want %v", d, want)
		}
	})
}

// rotRing rotates a closed ring's start.
func rotRing(r geo.LinearRing, k int) geo.LinearRing {
	o := rotated([]geo.Point(r[:len(r)-1]), k)
	return append(geo.LinearRing(o), o[0])
}

func genLonLat(rt *rapid.T, name string) geo.Point {
	switch ir(rt, 0, 5, name+"k") {
	case 0:
		return geo.Point{X: float64(ir(rt, -18, 18, name+"x")) * 10, Y: float64(ir(rt, -9, 9, name+"y")) * 10}
	case 1: // near a pole or the date line
		e := math.Pow(10, float64(ir(rt, -9, 0, name+"e")))
		if bl(rt, name+"ulp") { // a few ulps beside a round value
			p := geo.Point{X: pick(rt, name+"rx", 0.0, 45, 90, 135, 180, -45, -90, -135, -180, 60, 1), Y: pick(rt, name+"ry", 0.0, 90, -90, 45, -45, 60, 1)}
			p.X = math.Max(-180, math.Min(180, beside(rt, p.X)))
			p.Y = math.Max(-90, math.Min(90, beside(rt, p.Y)))
			return p
		}
		return geo.Point{X: pick(rt, name+"sx", 1.0, -1) * (180 - e*uf(rt, 0, 1, name+"fx")), Y: pick(rt, name+"sy", 1.0, -1, 0.5) * (90 - e*uf(rt, 0, 1, name+"fy"))}
	}
	return geo.Point{X: uf(rt, -180, 180, name+"x"), Y: uf(rt, -90, 90, name+"y")}
}

// genLonLatNear draws a point at a distance that spans all magnitudes from p.
func genLonLatNear(rt *rapid.T, p geo.Point, name string) geo.Point {
	e := math.Pow(10, float64(ir(rt, -12, 1, name+"e")))
	y := p.Y + e*uf(rt, -1, 1, name+"dy")
	if y > 90 {
		y = 90
	}
	if y < -90 {
		y = -90
	}
	x := p.X + e*uf(rt, -1, 1, name+"dx")
	if x > 180 || x < -180 {
		x = p.X
	}
	return geo.Point{X: x, Y: y}
}

func TestC19_GPS(t *testing.T) {
	run(t, 2000, "points against lon/lat segments, lines and polygons in the GPS system; non-trivial: distance above a metre", func(rt *rapid.T, c *Case) {
		g := geo.SRID_WGS84_GPS
		span := sc(rt, "span", 1e-3, 0.1, 5, 40)
		ctr := geo.Point{X: uf(rt, -130, 130, "cx"), Y: uf(rt, -45, 45, "cy")}
		pt := func(n string) geo.Point {
			return geo.Point{X: ctr.X + uf(rt, -span, span, n+"x"), Y: ctr.Y + uf(rt, -span, span, n+"y")}
		}
		p := pt("p")
		n := max(2, pickb(rt, "n", 200, 2, 3, 6, 15))
		line := geo.LineString{}
		for i := 0; i < n; i++ {
			line = append(line, pt("v"))
		}
		if ir(rt, 0, 5, "zero") == 0 {
			line[1] = line[0]
		}
		c.D("%v %v", p, line)
		tol := 1e-9*span + 1e-12
		best := math.Inf(1)
		for i := 0; i+1 < n; i++ {
			a, b := line[i], line[i+1]
			d, q := geo.PointToSegmentDistance(p, a, b, g)
			if e := refSphere(p, q); !closeTo(d, e, sphereTol(e)) {
				rt.Fatalf("GPS segment distance %v, great-circle distance to %v is %v", d, q, e)
			}
			if e := refSegDist(q, a, b); e > tol {
				rt.Fatalf("returned point %v is %g off the segment %v %v", q, e, a, b)
			}
			_, u := refSegNear(p, a, b)
			if !nearPt(q, geo.Point{X: a.X + u*(b.X-a.X), Y: a.Y + u*(b.Y-a.Y)}, 10*tol) {
				rt.Fatalf("returned point %v is not the nearest of segment %v %v", q, a, b)
			}
			best = math.Min(best, d)
			ld, f, _ := geo.PointToLineDistance(p, a, b, g)
			if e := refSphere(p, f); math.Abs(f.Y) <= 90 && !closeTo(ld, e, sphereTol(e)) {
				rt.Fatalf("GPS line distance %v, great-circle distance to %v is %v", ld, f, e)
			}
		}
		c.NT(best > 1)
		q, idx, d := geo.PointHitLineString(p, line, g)
		if e := refSphere(p, q); !closeTo(d, e, sphereTol(e)) || !closeTo(d, best, sphereTol(d)) {
			rt.Fatalf("hit %v at %v, great-circle distance %v, nearest segment %v", q, d, e, best)
		}
		if e := refSegDist(q, line[idx], line[idx+1]); e > tol {
			rt.Fatalf("hit point %v is %g off segment %d", q, e, idx)
		}
		if e := refSphere(p, q); !closeTo(geo.PointDistance(p, q, g), e, sphereTol(e)) {
			rt.Fatalf("PointDistance in GPS")
		}
		// a polygon around another centre
		sctr, star := genStar(rt)
		_ = sctr
		ok := true
		for _, v := range star {
			if math.Abs(v.X) > 180 || math.Abs(v.Y) > 90 {
				ok = false
			}
		}
		if !ok {
			return
		}
		ring := append(geo.LinearRing(star), star[0])
		in, sure := refPip(star, p, 1e-5)
		if !sure {
			return
		}
		c.D("star %v", star)
		got := geo.PointPolygonDistance(p, geo.Polygon{ring}, g)
		want := 0.0
		if !in {
			want = math.Inf(1)
			for i := range star {
				a, b := ring[i], ring[i+1]
				_, u := refSegNear(p, a, b)
				want = math.Min(want, refSphere(p, geo.Point{X: a.X + u*(b.X-a.X), Y: a.Y + u*(b.Y-a.Y)}))
			}
		}
		if !closeTo(got, want, sphereTol(want)*10) {
			rt.Fatalf("GPS polygon distance %v, want %v", got, want)
		}
	})
}

func TestC19_Regress(t *testing.T) {
	run(t, 1, "the repaired defects of this property, one case each", func(rt *rapid.T, c *Case) {
		c.D("zero-length segment")
		c.NT(true)
		p, a := geo.Point{X: 3, Y: 4}, geo.Point{}
		if d, q := geo.PointToSegmentDistance(p, a, a, 3857); d != 5 || q != a {
			rt.Fatalf("distance to a zero-length segment: %v %v", d, q)
		}
		if d, q, _ := geo.PointToLineDistance(p, a, a, 3857); d != 5 || q != a {
			rt.Fatalf("distance to a line of zero length: %v %v", d, q)
		}
		if _, i, d := geo.PointHitLineString(p, geo.LineString{a, a, {X: 0, Y: 4}}, 3857); d != 3 || i != 1 {
			rt.Fatalf("hit on a line with a zero-length segment: segment %d at %v", i, d)
		}
	})
}

// ---- C20 ----

func TestC20_Distances(t *testing.T) {
	run(t, 2500, "pairs and triples of 2-D and 3-D points of any moderate magnitude; non-trivial: no two equal", func(rt *rapid.T, c *Case) {
		span := sc(rt, "span", 1e-6, 1, 1e3, 1e9)
		pt := func(n string) geo.PointZ {
			if bl(rt, n+"grid") {
				return geo.PointZ{X: float64(ir(rt, -4, 4, n+"x")), Y: float64(ir(rt, -4, 4, n+"y")), Z: float64(ir(rt, -4, 4, n+"z"))}
			}
			return geo.PointZ{X: uf(rt, -span, span, n+"x"), Y: uf(rt, -span, span, n+"y"), Z: uf(rt, -span, span, n+"z")}
		}
		p, q, r := pt("p"), pt("q"), pt("r")
		if ir(rt, 0, 5, "eq") == 0 {
			q = p
		}
		c.D("%v %v %v", p, q, r)
		c.NT(p != q && q != r && p != r)
		xy := func(p geo.PointZ) geo.Point { return geo.Point{X: p.X, Y: p.Y} }
		srid := pick(rt, "srid", planarSRIDs...)
		d2 := func(p, q geo.PointZ) float64 { return math.Hypot(p.X-q.X, p.Y-q.Y) }
		d3 := func(p, q geo.PointZ) float64 { return math.Hypot(d2(p, q), p.Z-q.Z) }
		for _, pr := range [][2]geo.PointZ{{p, q}, {q, p}, {q, r}, {p, r}, {p, p}} {
			w2, w3 := d2(pr[0], pr[1]), d3(pr[0], pr[1])
			a, b := xy(pr[0]), xy(pr[1])
			for name, got := range map[string]float64{"EuclideanDis": geo.EuclideanDis(a, b), "EuclideanDistance": geo.EuclideanDistance(a, b),
				"Distance": a.Distance(b), "PointDistance": geo.PointDistance(a, b, srid)} {
				if !closeTo(got, w2, 1e-14*w2) {
					rt.Fatalf("%s(%v, %v) = %v, want %v", name, a, b, got, w2)
				}
			}
			if got := geo.EuclideanDisZ(pr[0], pr[1]); !closeTo(got, w3, 1e-14*w3) {
				rt.Fatalf("EuclideanDisZ(%v, %v) = %v, want %v", pr[0], pr[1], got, w3)
			}
		}
		if a, b, e := geo.EuclideanDisZ(p, q), geo.EuclideanDisZ(q, r), geo.EuclideanDisZ(p, r); e > (a+b)*(1+1e-14) {
			rt.Fatalf("triangle inequality: %v > %v + %v", e, a, b)
		}
	})
}

func TestC20_Length(t *testing.T) {
	run(t, 1500, "lines of 0 to 60 points; non-trivial: at least three points and positive length", func(rt *rapid.T, c *Case) {
		n := pickb(rt, "n", 600, 0, 1, 2, 3, 5, 12, 60)
		s := genScene(rt)
		line := geo.LineString{}
		for i := 0; i < n; i++ {
			line = append(line, s.pt(rt, "v"))
		}
		c.D("%v", line)
		want := 0.0
		for i := 0; i+1 < n; i++ {
			want += math.Hypot(line[i].X-line[i+1].X, line[i].Y-line[i+1].Y)
		}
		c.NT(n > 2 && want > 0)
		if got := line.Length(); !closeTo(got, want, 1e-13*want*float64(n+1)) {
			rt.Fatalf("Length = %v, sum of segments %v", got, want)
		}
		if got := geo.LineString(reversed(line)).Length(); !closeTo(got, want, 1e-13*want*float64(n+1)) {
			rt.Fatalf("Length of the reversed line = %v, %v", got, want)
		}
		if n > 2 {
			k := ir(rt, 1, n-2, "k")
			a, b := line.SplitByIndex(k)
			if got := a.Length() + b.Length(); !closeTo(got, want, 1e-13*want*float64(n+1)) {
				rt.Fatalf("the halves' lengths sum to %v, whole %v", got, want)
			}
		}
	})
}

func TestC20_Hausdorff(t *testing.T) {
	run(t, 1500, "triples of lines of positive length, planar and GPS, also equal vertex sets in another order; non-trivial: positive distance", func(rt *rapid.T, c *Case) {
		gps := bl(rt, "gps")
		srid := pick(rt, "srid", planarSRIDs...)
		s := genScene(rt)
		if gps {
			srid = geo.SRID_WGS84_GPS
		}
		step := 1.0
		if !gps {
			step = math.Max(s.span, 1e-12*s.mag()) // a step off the only point of a degenerate line
		}
		mk := func(n string) geo.LineString {
			out := geo.LineString{}
			for i := min(1300, max(2, pickb(rt, n+"n", 300, 2, 3, 5, 20))); i > 0; i-- {
				if gps {
					out = append(out, geo.Point{X: uf(rt, -170, 170, n+"x"), Y: uf(rt, -80, 80, n+"y")})
				} else {
					out = append(out, s.pt(rt, n))
				}
			}
			if out.Length() == 0 {
				out[0].X += step
			}
			return out
		}
		a, b, d := mk("a"), mk("b"), mk("c")
		switch ir(rt, 0, 5, "rel") {
		case 0: // same vertex set in another order
			b = geo.LineString(rapid.Permutation([]geo.Point(a)).Draw(rt, "perm"))
		case 1: // subset
			b = append(geo.LineString(nil), a[:len(a)-1]...)
			b = append(b, b[0])
		case 2: // the same two ends
			b[0], b[len(b)-1] = a[0], a[len(a)-1]
		case 3: // ends exchanged
			b[0], b[len(b)-1] = a[len(a)-1], a[0]
		}
		if b.Length() == 0 {
			b = append(b, geo.Point{X: b[0].X + step, Y: b[0].Y})
		}
		c.D("%v %v %v %d", a, b, d, srid)
		dist := func(p, q geo.Point) float64 {
			if gps {
				return refSphere(p, q)
			}
			return math.Hypot(p.X-q.X, p.Y-q.Y)
		}
		ref := func(a, b geo.LineString) float64 {
			h := 0.0
			for _, pr := range [][2]geo.LineString{{a, b}, {b, a}} {
				for _, p := range pr[0] {
					m := math.Inf(1)
					for _, q := range pr[1] {
						m = math.Min(m, dist(p, q))
					}
					h = math.Max(h, m)
				}
			}
			return h
		}
		tol := func(v float64) float64 {
			if gps {
				return sphereTol(v)
			}
			return s.tol()
		}
		H := func(a, b geo.LineString) float64 {
			h := geo.HausdorffDistance(a, b, srid)
			if w := ref(a, b); !closeTo(h, w, tol(w)) {
				rt.Fatalf("HausdorffDistance(%v, %v) = %v, want %v", a, b, h, w)
			}
			return h
		}
		ab, ba, bd, ad := H(a, b), H(b, a), H(b, d), H(a, d)
		c.NT(ab > 0)
		if !closeTo(ab, ba, tol(ab)) {
			rt.Fatalf("not symmetric: %v %v", ab, ba)
		}
		if ad > ab+bd+tol(ab+bd) {
			rt.Fatalf("triangle inequality: %v > %v + %v", ad, ab, bd)
		}
		if h := H(a, geo.LineString(reversed(a))); h != 0 {
			rt.Fatalf("distance to the reversed line %v", h)
		}
	})
}

// ---- C21 ----

func TestC21_GreatCircle(t *testing.T) {
	run(t, 4000, "pairs of lon/lat points at all distances from 0 to antipodal, near poles and the date line; non-trivial: distinct points", func(rt *rapid.T, c *Case) {
		p := genLonLat(rt, "p")
		var q geo.Point
		switch ir(rt, 0, 4, "rel") {
		case 0:
			q = p
		case 1:
			q = genLonLatNear(rt, p, "q")
		case 2: // around the antipode
			q = geo.Point{X: p.X + 180, Y: -p.Y}
			if q.X > 180 {
				q.X -= 360
			}
			if bl(rt, "off") {
				q = genLonLatNear(rt, q, "q")
			}
		default:
			q = genLonLat(rt, "q")
		}
		r := genLonLat(rt, "r")
		turn := 360 * float64(pick(rt, "turn", -1, 1, 2))
		shift := uf(rt, -300, 300, "shift")
		c.D("%v %v %v turn %v shift %v", p, q, r, turn, shift)
		c.NT(p != q)
		want := refSphere(p, q)
		switch {
		case want < 1:
			c.L("below 1 m")
		case want > 1.9e7:
			c.L("near antipodal")
		default:
			c.L("ordinary")
		}
		half := math.Pi * earthR
		for name, f := range map[string]func(a, b geo.Point) float64{"CoordDistance": geo.CoordDistance, "CoordGreateCircle": geo.CoordGreateCircle,
			"PointDistance": func(a, b geo.Point) float64 { return geo.PointDistance(a, b, geo.SRID_WGS84_GPS) }} {
			d := f(p, q)
			tol := sphereTol(want)
			if !(d >= 0 && d <= half*(1+1e-12)) {
				rt.Fatalf("%s = %v, not in [0, %v]", name, d, half)
			}
			if !closeTo(d, want, tol) {
				rt.Fatalf("%s = %v, true distance %v", name, d, want)
			}
			if p == q && d != 0 {
				rt.Fatalf("%s of coincident points = %v", name, d)
			}
			if e := f(q, p); !closeTo(d, e, tol) {
				rt.Fatalf("%s is not symmetric: %v %v", name, d, e)
			}
			// whole turns lose up to 1e-13 degrees of longitude
			if e := f(geo.Point{X: p.X + turn, Y: p.Y}, q); !closeTo(d, e, tol+1e-5) {
				rt.Fatalf("%s with a whole turn: %v %v", name, d, e)
			}
			if e := f(geo.Point{X: p.X + shift, Y: p.Y}, geo.Point{X: q.X + shift, Y: q.Y}); !closeTo(d, e, tol+1e-5) {
				rt.Fatalf("%s with shifted longitudes: %v %v", name, d, e)
			}
			if a, b := f(p, r), f(r, q); d > a+b+sphereTol(a)+sphereTol(b)+tol {
				rt.Fatalf("%s breaks the triangle inequality: %v > %v + %v", name, d, a, b)
			}
		}
	})
}

func TestC21_Regress(t *testing.T) {
	run(t, 1, "the repaired defects of this property, one case each", func(rt *rapid.T, c *Case) {
		c.D("antipodes and near points")
		c.NT(true)
		for _, p := range []geo.Point{{X: -180, Y: -80}, {X: 13.4, Y: 52.5}, {X: 77.7, Y: -33.3}, {X: -10, Y: 60}} {
			q := geo.Point{X: p.X + 180, Y: -p.Y}
			for _, d := range []float64{geo.CoordDistance(p, q), geo.CoordGreateCircle(p, q)} {
				if !(math.Abs(d-math.Pi*earthR) < 1) {
					rt.Fatalf("antipodal distance of %v is %v", p, d)
				}
			}
			if d := geo.CoordGreateCircle(p, p); d != 0 {
				rt.Fatalf("distance of %v to itself %v", p, d)
			}
			q = geo.Point{X: p.X, Y: p.Y + 1e-6}
			if d := geo.CoordGreateCircle(p, q); math.Abs(d-0.11119) > 1e-4 {
				rt.Fatalf("distance of a millionth of a degree %v", d)
			}
		}
	})
}

// ---- C22 ----

func angDiff(a, b float64) float64 {
	d := math.Mod(a-b, 360)
	if d > 180 {
		d -= 360
	}
	if d < -180 {
		d += 360
	}
	return math.Abs(d)
}

func TestC22_Destination(t *testing.T) {
	run(t, 4000, "starts anywhere (also near the poles and the date line), bearings from -720 to 720, distances 0 to half the circumference; non-trivial: distance above a metre", func(rt *rapid.T, c *Case) {
		p := genLonLat(rt, "p")
		brg := pick(rt, "bk", 0, 1, 2, 3)
		var b float64
		switch brg {
		case 0:
			b = float64(ir(rt, -8, 8, "b")) * 45
		default:
			b = uf(rt, -360, 720, "b")
		}
		var d float64
		switch ir(rt, 0, 3, "dk") {
		case 0:
			d = pick(rt, "d", 0, 1, 1000, math.Pi*earthR/2, math.Pi*earthR)
		case 1:
			d = math.Pow(10, uf(rt, -3, 7.3, "de"))
		default:
			d = uf(rt, 0, math.Pi*earthR, "d")
		}
		d = math.Min(d, math.Pi*earthR)
		c.D("from %v bearing %v distance %v", p, b, d)
		c.NT(d > 1)
		lat, lon := geo.DestinationPoint(p.Y, p.X, d, b)
		if !(lat >= -90 && lat <= 90 && lon >= -180 && lon <= 180) {
			rt.Fatalf("DestinationPoint = %v, %v: not a latitude and longitude", lat, lon)
		}
		q := geo.Point{X: lon, Y: lat}
		if e := refSphere(p, q); !closeTo(e, d, 1e-6) {
			rt.Fatalf("arrives at %v, %v: %v away from the start, asked %v", lat, lon, e, d)
		}
		if math.Abs(p.Y) > 89.99 || math.Abs(lat) > 89.9 || d < 1e-3 || d > math.Pi*earthR-1 {
			return
		}
		// the bearing is as exact as the position allows
		btol := 180/math.Pi*1e-6/(earthR*math.Sin(d/earthR)) + 1e-9/math.Cos(p.Y*math.Pi/180)
		if got := geo.GetAzimuth(p, q, geo.SRID_WGS84_GPS); angDiff(got, b) > btol {
			rt.Fatalf("azimuth from the start to %v is %v, travelled along %v (tolerance %g)", q, got, b, btol)
		}
	})
}

func TestC22_Azimuth(t *testing.T) {
	run(t, 4000, "pairs of lon/lat points; the true bearing comes from 3-D vectors; non-trivial: distinct points, neither near a pole nor antipodal", func(rt *rapid.T, c *Case) {
		p := genLonLat(rt, "p")
		q := genLonLat(rt, "q")
		switch ir(rt, 0, 4, "rel") {
		case 0:
			q = geo.Point{X: p.X, Y: q.Y} // same meridian
		case 1:
			q = genLonLatNear(rt, p, "n")
		case 2:
			q = geo.Point{X: q.X, Y: p.Y}
		}
		c.D("%v %v", p, q)
		az := geo.GetAzimuth(p, q, geo.SRID_WGS84_GPS)
		if !(az >= 0 && az < 360) {
			rt.Fatalf("azimuth %v not in [0,360)", az)
		}
		if o := geo.GetAzimuth(p, q, pick(rt, "srid", planarSRIDs...)); o != 0 {
			rt.Fatalf("azimuth in a planar system %v", o)
		}
		d := refSphere(p, q)
		if math.Abs(p.Y) > 89.9999999 || d < 0.01 || d > math.Pi*earthR-1e3 {
			return
		}
		c.NT(true)
		// local frame at p: north and east unit vectors
		vec := func(p geo.Point) [3]float64 {
			sa, ca := math.Sincos(p.Y * math.Pi / 180)
			so, co := math.Sincos(p.X * math.Pi / 180)
			return [3]float64{ca * co, ca * so, sa}
		}
		dot := func(a, b [3]float64) float64 { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
		sa, ca := math.Sincos(p.Y * math.Pi / 180)
		so, co := math.Sincos(p.X * math.Pi / 180)
		north := [3]float64{-sa * co, -sa * so, ca}
		east := [3]float64{-so, co, 0}
		v := vec(q)
		u := vec(p)
		v = [3]float64{v[0] - u[0], v[1] - u[1], v[2] - u[2]}
		want := math.Atan2(dot(v, east), dot(v, north)) * 180 / math.Pi
		btol := 1e-9 + 180/math.Pi*1e-8/(earthR*math.Sin(d/earthR))*earthR*1e-7
		btol += 180 / math.Pi * 1e-15 / math.Sin(d/earthR) * 100
		if angDiff(az, want) > btol {
			rt.Fatalf("azimuth %v, true initial bearing %v (tolerance %g)", az, math.Mod(want+360, 360), btol)
		}
	})
}

func TestC22_Regress(t *testing.T) {
	run(t, 1, "the repaired defects of this property, one case each", func(rt *rapid.T, c *Case) {
		c.D("to the pole")
		c.NT(true)
		for _, lat := range []float64{90, -90, 89.99999999, 30, 45.123, 60.7, 12.3456789, 77.1} {
			for _, b := range []float64{0, 180, 360} {
				d := (90 - lat) * math.Pi / 180 * earthR
				if b == 180 {
					d = (90 + lat) * math.Pi / 180 * earthR
				}
				la, lo := geo.DestinationPoint(lat, 20, d, b)
				if math.IsNaN(la) || math.IsNaN(lo) || math.Abs(math.Abs(la)-90) > 1e-5 {
					rt.Fatalf("from latitude %v to the pole: %v %v", lat, la, lo)
				}
			}
		}
	})
}

// ---- C23 ----

// dpCheck tells whether kept (marked indexes, ends included) is a result of the Douglas-Peucker rule, up to tol, for some
// order of ties. Sections already decided are remembered; a check that needs too many distances gives up (and accepts).
type dpCheck struct {
	line     []geo.Point
	kept     []bool
	thr, tol float64
	dist     func(p, a, b geo.Point) float64
	done     map[[2]int]bool
	budget   *int
}

func (d *dpCheck) ok(s, e int) bool {
	if r, seen := d.done[[2]int{s, e}]; seen {
		return r
	}
	if *d.budget -= e - s; *d.budget < 0 {
		return true
	}
	r := d.decide(s, e)
	d.done[[2]int{s, e}] = r
	return r
}

func (d *dpCheck) decide(s, e int) bool {
	maxD, any := 0.0, false
	ds := make([]float64, e-s+1)
	for i := s + 1; i < e; i++ {
		ds[i-s] = d.dist(d.line[i], d.line[s], d.line[e])
		maxD = math.Max(maxD, ds[i-s])
		any = any || d.kept[i]
	}
	if !any {
		return maxD <= d.thr+d.tol
	}
	if maxD <= d.thr-d.tol {
		return false
	}
	for i := s + 1; i < e; i++ {
		if d.kept[i] && ds[i-s] >= maxD-d.tol && d.ok(s, i) && d.ok(i, e) {
			return true
		}
	}
	return false
}

func TestC23_Simplify(t *testing.T) {
	run(t, 3000, "walks, zigzags, spirals, closed and degenerate lines of 0 to 80 points, planar and GPS, thresholds from 0 to beyond the extent; non-trivial: some interior point removed and some kept", func(rt *rapid.T, c *Case) {
		gps := ir(rt, 0, 3, "gps") == 0
		srid := pick(rt, "srid", planarSRIDs...)
		dist := refSegDist
		span := sc(rt, "span", 0.01, 1, 100, 1e5)
		ctr := geo.Point{X: pick(rt, "cx", 0.0, 116, -70), Y: pick(rt, "cy", 0.0, 39, -33)}
		if ir(rt, 0, 9, "tiny") == 0 {
			span, ctr = 1e-10, geo.Point{}
		}
		unit := 1.0
		if gps {
			srid = geo.SRID_WGS84_GPS
			span = pick(rt, "gspan", 0.01, 1, 20)
			unit = 111195
			dist = func(p, a, b geo.Point) float64 {
				_, u := refSegNear(p, a, b)
				return refSphere(p, geo.Point{X: a.X + u*(b.X-a.X), Y: a.Y + u*(b.Y-a.Y)})
			}
		}
		n := pickb(rt, "n", 700, 0, 1, 2, 3, 4, 6, 10, 20, 80)
		var line geo.LineString
		shape := ir(rt, 0, 4, "shape")
		x, y := 0.0, 0.0
		for i := 0; i < n; i++ {
			switch shape {
			case 0: // anywhere
				x, y = uf(rt, -1, 1, "x"), uf(rt, -1, 1, "y")
			case 1: // small steps on a grid: many ties and collinear runs
				x, y = x+float64(ir(rt, 0, 1, "dx"))/16, y+float64(ir(rt, -1, 1, "dy"))/16
			case 2: // noisy straight line
				x, y = float64(i)/float64(n+1), uf(rt, -0.02, 0.02, "ny")
			case 3: // spiral
				a := float64(i) * 0.7
				x, y = a/60*math.Cos(a)+uf(rt, 0, 0.01, "sx"), a/60*math.Sin(a)
			case 4: // walk
				x, y = x+uf(rt, -0.1, 0.1, "wx"), y+uf(rt, -0.1, 0.1, "wy")
			}
			line = append(line, geo.Point{X: ctr.X + span*x, Y: ctr.Y + span*y})
		}
		if n > 2 {
			switch ir(rt, 0, 7, "special") {
			case 0, 1: // closed
				line[n-1] = line[0]
			case 2: // repeated vertex
				line[ir(rt, 1, n-1, "ri")] = line[ir(rt, 0, n-1, "rj")]
			case 3: // consecutive duplicates
				k := ir(rt, 1, n-1, "rk")
				line[k] = line[k-1]
			}
		}
		thr := span * unit * pick(rt, "thr", 0, 1e-4, 0.01, 0.05, 0.2, 1, 5)
		if ir(rt, 0, 3, "tiestep") == 0 {
			thr = span * unit / 16
		}
		c.D("%v threshold %v srid %d", line, thr, srid)
		in := append(geo.LineString(nil), line...)
		out := geo.DouglasPeuckerSimplify(line, thr, srid)
		for i := range in {
			if line[i] != in[i] {
				rt.Fatalf("the argument changed at %d", i)
			}
		}
		if n < 3 {
			if len(out) != n || (n > 0 && (out[0] != in[0] || out[n-1] != in[n-1])) {
				rt.Fatalf("a line of %d points became %v", n, out)
			}
			return
		}
		if len(out) < 2 || out[0] != in[0] || out[len(out)-1] != in[n-1] {
			rt.Fatalf("the ends are not kept: %v", out)
		}
		// every way of reading the result as a subsequence that keeps both ends is tried (vertices can repeat)
		tol := 1e-9*span*unit + 1e-6*unit/111195
		if !gps {
			tol = 1e-9*span + 1e-12*(math.Abs(ctr.X)+math.Abs(ctr.Y))
		}
		kept := make([]bool, n)
		tries, budget := 0, 20000000
		subseq := false
		var try func(i, o int) bool
		try = func(i, o int) bool {
			if o == len(out)-1 {
				subseq = true
				kept[n-1] = true
				tries++
				d := dpCheck{in, kept, thr, tol, dist, map[[2]int]bool{}, &budget}
				return d.ok(0, n-1)
			}
			for k := i; k < n-1 && tries < 200; k++ {
				if in[k] == out[o] {
					kept[k] = true
					if try(k+1, o+1) {
						return true
					}
					kept[k] = false
				}
				if o == 0 {
					break
				}
			}
			return false
		}
		ok := try(0, 0)
		if !subseq {
			rt.Fatalf("the result %v is not a subsequence with both ends", out)
		}
		if !ok && tries < 200 {
			rt.Fatalf("the result %v is not a Douglas-Peucker simplification", out)
		}
		c.NT(len(out) > 2 && len(out) < n)
		c.L("shape%d closed=%v gps=%v", shape, in[0] == in[n-1], gps)
		again := geo.DouglasPeuckerSimplify(out, thr, srid)
		if len(again) != len(out) {
			rt.Fatalf("simplifying again changes %v to %v", out, again)
		}
		for i := range out {
			if again[i] != out[i] {
				rt.Fatalf("simplifying again changes %v to %v", out, again)
			}
		}
	})
}
