package harness

import (
	"math"
	"sort"

	geo "github.com/hzw456/go-geo"
	"pgregory.net/rapid"
)

// ir draws an integer of [lo,hi]; wide ranges are drawn evenly half of the time, since rapid prefers small numbers.
func ir(rt *rapid.T, lo, hi int, name string) int {
	if n := hi - lo + 1; n > 30 && rapid.Bool().Draw(rt, name) {
		u := (rapid.Float64Range(1, 2-1.0/(1<<52)).Draw(rt, name) - 1) * float64(n)
		return min(hi, lo+int(u))
	}
	return rapid.IntRange(lo, hi).Draw(rt, name)
}

// irb is ir on [lo,hi], but for about one draw in 25 the number is up to big, spread over the magnitudes between.
func irb(rt *rapid.T, lo, hi, big int, name string) int {
	if ir(rt, 0, 15, name+"big") != 11 {
		return ir(rt, lo, hi, name)
	}
	return bigOf(rt, hi, big, name)
}

// bigOf draws a number up to big, spread over the magnitudes; seldom one of thousands.
func bigOf(rt *rapid.T, hi, big int, name string) int {
	if ir(rt, 0, 99, name+"huge") == 57 {
		hi, big = big, min(3000, 25*big)
	}
	f := rapid.Float64Range(1, 2-1.0/(1<<52)).Draw(rt, name) - 1
	return min(big, int(float64(max(1, hi))*math.Pow(float64(big+1)/float64(max(1, hi)), f)))
}

// pickb picks one of ns or, now and then, any number up to big.
func pickb(rt *rapid.T, name string, big int, ns ...int) int {
	if ir(rt, 0, 15, name+"big") != 11 {
		return sz(rt, name, ns...)
	}
	return bigOf(rt, 4, big, name)
}

// sz picks one of ns (ascending), or a number between it and the next.
func sz(rt *rapid.T, name string, ns ...int) int {
	i := ir(rt, 0, len(ns)-1, name)
	if i+1 < len(ns) && ns[i+1] > ns[i]+1 && bl(rt, name+"between") {
		return ir(rt, ns[i]+1, ns[i+1]-1, name+"at")
	}
	return ns[i]
}

// sc picks one of xs (positive), or a number between two of them, spread over the magnitudes.
func sc(rt *rapid.T, name string, xs ...float64) float64 {
	x := pick(rt, name, xs...)
	if ir(rt, 0, 2, name+"between") != 1 {
		return x
	}
	return x * math.Pow(pick(rt, name+"to", xs...)/x, uf(rt, 0, 1, name+"at"))
}

// so picks one of the offsets xs, or a part of one, either sign.
func so(rt *rapid.T, name string, xs ...float64) float64 {
	x := pick(rt, name, xs...)
	if ir(rt, 0, 2, name+"part") != 1 {
		return x
	}
	return x * uf(rt, -1, 1, name+"f")
}

func bl(rt *rapid.T, name string) bool { return rapid.Bool().Draw(rt, name) }
func fr(rt *rapid.T, lo, hi float64, name string) float64 {
	return rapid.Float64Range(lo, hi).Draw(rt, name)
}

// uf draws a float64 of [lo,hi]: spread uniformly with any number of significant bits, at or very near the lower end,
// or the upper end (rapid's own ranges mostly draw values that are tiny compared to the range).
func uf(rt *rapid.T, lo, hi float64, name string) float64 {
	var u float64
	if rapid.Uint8Range(0, 15).Draw(rt, name) == 15 {
		u = float64(rapid.Uint64Range(0, 1<<53).Draw(rt, name)) / (1 << 53)
	} else {
		u = (rapid.Float64Range(1, 2-1.0/(1<<52)).Draw(rt, name) - 1) / (1 - 1.0/(1<<52))
	}
	return lo + u*(hi-lo)
}

// pick returns an element with equal probability.
func pick[T any](rt *rapid.T, name string, xs ...T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(rt, name)]
}

// ---- exact lattice ----

// ip is a lattice point; lattice coordinates are small enough that every product used below is exact in float64
// once scaled by a power of two.
type ip struct{ x, y int64 }

// lat maps lattice points to coordinates: (off + k) * scale, all exactly representable.
type lat struct {
	scale  float64
	ox, oy int64
	r      int     // range of k
	ys     float64 // further factor of y, 0 for none
}

// genLatFlat also draws lattices that are much finer in one direction, for questions that an affine map cannot change.
func genLatFlat(rt *rapid.T) lat {
	l := genLat(rt)
	if ir(rt, 0, 3, "flat") == 0 {
		l.ys = math.Ldexp(1, ir(rt, -26, 12, "ys"))
	}
	return l
}

func genLat(rt *rapid.T) lat {
	l := lat{}
	l.scale = pick(rt, "scale", 1.0, 1.0, 0.5, 0.25, 1.0/64, 2, 16, 1.0/1024, 1.0/65536, 4096)
	l.r = pick(rt, "range", 3, 5, 8, 20, 100, 1000, 1<<20)
	off := []int64{0, 0, 0, 1, -7, 100, -1000, 30000, -100000}
	l.ox = pick(rt, "ox", off...)
	l.oy = pick(rt, "oy", off...)
	return l
}

// fine makes the lattice, now and then, so wide that its step is at the edge of what float64 arithmetic on products of
// differences can still tell apart.
func fine(rt *rapid.T, l *lat) {
	if ir(rt, 0, 7, "fine") == 0 {
		l.r = pick(rt, "finerange", 1<<22, 1<<23, 1<<24)
		l.ox, l.oy = 0, 0
	}
}

func (l lat) pt(p ip) geo.Point {
	y := float64(p.y+l.oy) * l.scale
	if l.ys != 0 {
		y *= l.ys
	}
	return geo.Point{X: float64(p.x+l.ox) * l.scale, Y: y}
}
func (l lat) pts(ps []ip) []geo.Point {
	out := make([]geo.Point, len(ps))
	for i, p := range ps {
		out[i] = l.pt(p)
	}
	return out
}

// ring returns the closed ring of the (open) lattice polygon.
func (l lat) ring(ps []ip) geo.LinearRing {
	out := make(geo.LinearRing, 0, len(ps)+1)
	for _, p := range ps {
		out = append(out, l.pt(p))
	}
	if len(out) > 0 {
		out = append(out, out[0])
	}
	return out
}
func (l lat) line(ps []ip) geo.LineString { return geo.LineString(l.pts(ps)) }
func (l lat) poly(ps []ip) geo.Polygon    { return geo.Polygon{l.ring(ps)} }

func genIP(rt *rapid.T, r int, name string) ip {
	return ip{int64(ir(rt, -r, r, name+"x")), int64(ir(rt, -r, r, name+"y"))}
}

func genIPs(rt *rapid.T, r, lo, hi int, name string) []ip {
	return rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) ip { return genIP(rt, r, "") }), lo, hi).Draw(rt, name)
}

func cross(a, b, c ip) int64 { return (b.x-a.x)*(c.y-a.y) - (b.y-a.y)*(c.x-a.x) }

func sgn(v int64) int {
	switch {
	case v > 0:
		return 1
	case v < 0:
		return -1
	}
	return 0
}

func onSeg(a, b, p ip) bool {
	return cross(a, b, p) == 0 && min(a.x, b.x) <= p.x && p.x <= max(a.x, b.x) && min(a.y, b.y) <= p.y && p.y <= max(a.y, b.y)
}

// segRel: 2 = proper crossing, 1 = share a point otherwise, 0 = disjoint.
func segRel(a, b, c, d ip) int {
	d1, d2, d3, d4 := sgn(cross(a, b, c)), sgn(cross(a, b, d)), sgn(cross(c, d, a)), sgn(cross(c, d, b))
	if d1*d2 < 0 && d3*d4 < 0 {
		return 2
	}
	if onSeg(a, b, c) || onSeg(a, b, d) || onSeg(c, d, a) || onSeg(c, d, b) {
		return 1
	}
	return 0
}

// pip: 2 strictly inside, 1 on the ring, 0 outside (poly given open). Crossing-number with exact comparisons.
func pip(poly []ip, p ip) int {
	in := false
	n := len(poly)
	for i := 0; i < n; i++ {
		a, b := poly[i], poly[(i+1)%n]
		if onSeg(a, b, p) {
			return 1
		}
		if (a.y > p.y) != (b.y > p.y) {
			c := cross(a, b, p)
			if b.y < a.y {
				c = -c
			}
			if c > 0 {
				in = !in
			}
		}
	}
	if in {
		return 2
	}
	return 0
}

func area2(poly []ip) int64 {
	var s int64
	n := len(poly)
	for i := 0; i < n; i++ {
		a, b := poly[i], poly[(i+1)%n]
		s += a.x*b.y - a.y*b.x
	}
	return s
}

func isSimple(poly []ip) bool {
	n := len(poly)
	if n < 3 {
		return false
	}
	for i := 0; i < n; i++ {
		a, b := poly[i], poly[(i+1)%n]
		if a == b {
			return false
		}
		for j := i + 1; j < n; j++ {
			c, d := poly[j], poly[(j+1)%n]
			if j == i+1 { // adjacent: share b == c
				if onSeg(a, b, d) || onSeg(c, d, a) {
					return false
				}
				continue
			}
			if i == 0 && j == n-1 { // adjacent: share a == d
				if onSeg(a, b, c) || onSeg(c, d, b) {
					return false
				}
				continue
			}
			if segRel(a, b, c, d) != 0 {
				return false
			}
		}
	}
	return area2(poly) != 0
}

// hasProperCross: two edges cross at a point interior to both.
func hasProperCross(poly []ip) bool {
	n := len(poly)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if segRel(poly[i], poly[(i+1)%n], poly[j], poly[(j+1)%n]) == 2 {
				return true
			}
		}
	}
	return false
}

func dedup(ps []ip) []ip {
	seen := map[ip]bool{}
	var out []ip
	for _, p := range ps {
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

// untangle applies 2-opt moves until no proper crossing is left (bounded).
func untangle(ps []ip) []ip {
	n := len(ps)
	for it := 0; it < 200; it++ {
		changed := false
		for i := 0; i < n && !changed; i++ {
			for j := i + 2; j < n; j++ {
				if i == 0 && j == n-1 {
					continue
				}
				if segRel(ps[i], ps[i+1], ps[j], ps[(j+1)%n]) != 0 {
					for a, b := i+1, j; a < b; a, b = a+1, b-1 {
						ps[a], ps[b] = ps[b], ps[a]
					}
					changed = true
					break
				}
			}
		}
		if !changed {
			break
		}
	}
	return ps
}

// exactHull: monotone chain, strict (no collinear vertices), counter-clockwise. nil if all points are collinear.
func exactHull(in []ip) []ip {
	ps := dedup(in)
	for i := 1; i < len(ps); i++ {
		for j := i; j > 0 && (ps[j].x < ps[j-1].x || ps[j].x == ps[j-1].x && ps[j].y < ps[j-1].y); j-- {
			ps[j], ps[j-1] = ps[j-1], ps[j]
		}
	}
	if len(ps) < 3 {
		return nil
	}
	var h []ip
	for _, p := range ps {
		for len(h) >= 2 && cross(h[len(h)-2], h[len(h)-1], p) <= 0 {
			h = h[:len(h)-1]
		}
		h = append(h, p)
	}
	lo := len(h)
	for i := len(ps) - 2; i >= 0; i-- {
		p := ps[i]
		for len(h) > lo && cross(h[len(h)-2], h[len(h)-1], p) <= 0 {
			h = h[:len(h)-1]
		}
		h = append(h, p)
	}
	h = h[:len(h)-1]
	if len(h) < 3 {
		return nil
	}
	return h
}

// genSimple draws an open simple lattice polygon with |coordinates| roughly within r (at least 4) and says its kind.
func genSimple(rt *rapid.T, r int) ([]ip, string) {
	if r < 3 {
		r = 3
	}
	kind := ir(rt, 0, 8, "kind")
	if ir(rt, 0, 39, "big") == 20 {
		kind = pick(rt, "bigkind", 5, 9)
	}
	if ir(rt, 0, 1999, "huge") == 1234 {
		kind = 10
	}
	var ps []ip
	name := ""
	switch kind {
	case 0:
		ps = exactHull(genIPs(rt, r, 3, 10, "hullpts"))
		name = "convex"
	case 1:
		ps = dedup(genIPs(rt, r, 3, 12, "pts"))
		if len(ps) >= 3 {
			ps = untangle(ps)
		}
		name = "untangled"
	case 2: // skyline (orthogonal): heights over unit-or-wider columns
		hs := rapid.SliceOfN(rapid.IntRange(1, r), 1, 7).Draw(rt, "heights")
		ws := rapid.SliceOfN(rapid.IntRange(1, max(1, r/3)), len(hs), len(hs)).Draw(rt, "widths")
		x := int64(-r)
		y0 := int64(ir(rt, -r, 0, "base"))
		ps = append(ps, ip{x, y0})
		for i, h := range hs {
			ps = append(ps, ip{x, y0 + int64(h)})
			x += int64(ws[i])
			ps = append(ps, ip{x, y0 + int64(h)})
		}
		ps = append(ps, ip{x, y0})
		ps = collapse(ps)
		name = "skyline"
	case 6, 9: // seen whole from the origin: one vertex per direction, so that deep spikes alternate
		n := ir(rt, 3, 10, "rays")
		if kind == 9 {
			n = ir(rt, 12, 60, "manyrays")
		}
		ps = raySorted(genIPs(rt, r, n, n, "rays"))
		name = "star"
	case 10: // hundreds of columns of width 1
		prng := rapid.Uint64().Draw(rt, "hugeseed") | 1
		next := func(n int) int64 {
			prng ^= prng << 13
			prng ^= prng >> 7
			prng ^= prng << 17
			return int64(prng % uint64(n))
		}
		var up []ip
		for i, m := 0, ir(rt, 100, 900, "hugecols"); i < m; i++ {
			lo := next(2*r) - int64(r)
			ps = append(ps, ip{int64(i - m/2), lo})
			up = append(up, ip{int64(i - m/2), lo + 1 + next(r)})
		}
		ps = append(ps, reversed(up)...)
		name = "comb"
	case 7, 8: // a strip wound up: out along a rectangular spiral and back beside it
		turns := ir(rt, 2, 9, "turns")
		ps = spiral(turns, int64(ir(rt, 2, max(2, r/(turns+1)), "pitch")))
		name = "spiral"
	case 3, 4, 5: // x-monotone: upper and lower chains over the same columns
		m := ir(rt, 2, 8, "cols")
		if kind == 5 {
			m = ir(rt, 20, 80, "manycols")
		}
		var up, low []ip
		x := int64(-r)
		for i := 0; i < m; i++ {
			x += int64(ir(rt, 1, max(1, 2*r/m), "dx"))
			lo := int64(ir(rt, -r, r, "lo"))
			hi := lo + int64(ir(rt, 1, r, "hi"))
			low = append(low, ip{x, lo})
			up = append(up, ip{x, hi})
		}
		ps = append(ps, low...)
		for i := len(up) - 1; i >= 0; i-- {
			ps = append(ps, up[i])
		}
		name = "monotone"
	}
	if !isSimple(ps) {
		a := genIP(rt, r, "ta")
		ps = []ip{a, {a.x + int64(ir(rt, 1, r, "tb")), a.y + int64(ir(rt, -r, r, "tc"))}, {a.x + int64(ir(rt, -r, r, "td")), a.y + 2*int64(r)}}
		if !isSimple(ps) {
			ps = []ip{{0, 0}, {int64(r), 0}, {0, int64(r)}}
		}
		name = "triangle"
	}
	return variant(rt, ps), name
}

// raySorted orders points around the origin and keeps one per direction; the star is simple if no gap reaches half a turn,
// which the caller checks.
func raySorted(in []ip) []ip {
	o := ip{}
	half := func(p ip) int {
		if p.y > 0 || p.y == 0 && p.x > 0 {
			return 0
		}
		return 1
	}
	var ps []ip
	for _, p := range in {
		if p != o {
			ps = append(ps, p)
		}
	}
	sort.SliceStable(ps, func(i, j int) bool {
		if half(ps[i]) != half(ps[j]) {
			return half(ps[i]) < half(ps[j])
		}
		return cross(o, ps[i], ps[j]) > 0
	})
	var out []ip
	for _, p := range ps {
		if len(out) == 0 || cross(o, out[len(out)-1], p) != 0 || half(out[len(out)-1]) != half(p) {
			out = append(out, p)
		}
	}
	return out
}

// spiral is the outline of a corridor of width 1 that winds outwards with the given pitch (at least 2).
func spiral(turns int, pitch int64) []ip {
	dirs := []ip{{1, 0}, {0, 1}, {-1, 0}, {0, -1}}
	right := func(i int) ip { return ip{dirs[i%4].y, -dirs[i%4].x} }
	p := ip{}
	inner := []ip{p}
	outer := []ip{{p.x + right(0).x, p.y + right(0).y}}
	for i := 0; i < turns; i++ {
		n := pitch * int64(i/2+1)
		p = ip{p.x + dirs[i%4].x*n, p.y + dirs[i%4].y*n}
		inner = append(inner, p)
		o := ip{p.x + right(i).x, p.y + right(i).y}
		if i+1 < turns { // both walls turn
			o = ip{o.x + right(i+1).x, o.y + right(i+1).y}
		}
		outer = append(outer, o)
	}
	return append(outer, reversed(inner)...)
}

// collapse removes consecutive duplicates.
func collapse(ps []ip) []ip {
	var out []ip
	for _, p := range ps {
		if len(out) == 0 || out[len(out)-1] != p {
			out = append(out, p)
		}
	}
	for len(out) > 1 && out[0] == out[len(out)-1] {
		out = out[:len(out)-1]
	}
	return out
}

// variant rotates the start, possibly reverses, transposes and adds collinear vertices (where lattice midpoints exist).
func variant(rt *rapid.T, ps []ip) []ip {
	ps = append([]ip(nil), ps...)
	if bl(rt, "transpose") {
		for i := range ps {
			ps[i].x, ps[i].y = ps[i].y, ps[i].x
		}
	}
	if ir(rt, 0, 3, "midpoints") == 0 {
		var out []ip
		for i, p := range ps {
			q := ps[(i+1)%len(ps)]
			out = append(out, p)
			if (p.x+q.x)%2 == 0 && (p.y+q.y)%2 == 0 && bl(rt, "mid") {
				out = append(out, ip{(p.x + q.x) / 2, (p.y + q.y) / 2})
			}
		}
		ps = out
	}
	if ir(rt, 0, 5, "repeated") == 0 {
		var out []ip
		for _, p := range ps {
			out = append(out, p)
			for ir(rt, 0, 3, "twice") == 0 {
				out = append(out, p)
			}
		}
		ps = out
	}
	ps = rotated(ps, ir(rt, 0, len(ps)-1, "start"))
	if bl(rt, "reverse") {
		ps = reversed(ps)
	}
	return ps
}

func rotated[T any](ps []T, k int) []T {
	out := append([]T(nil), ps[k:]...)
	return append(out, ps[:k]...)
}

func reversed[T any](ps []T) []T {
	out := make([]T, len(ps))
	for i, p := range ps {
		out[len(ps)-1-i] = p
	}
	return out
}

// near draws a lattice point that is interesting for the polygon: a vertex, a midpoint, a vertex's row, or anywhere.
func genNear(rt *rapid.T, poly []ip, r int, name string) ip {
	i := ir(rt, 0, len(poly)-1, name+"i")
	a, b := poly[i], poly[(i+1)%len(poly)]
	switch ir(rt, 0, 7, name+"k") {
	case 0:
		return a
	case 1:
		return ip{(a.x + b.x) / 2, (a.y + b.y) / 2}
	case 2: // same row as a vertex
		return ip{int64(ir(rt, -2*r, 2*r, name+"x")), a.y}
	case 3:
		return ip{a.x, int64(ir(rt, -2*r, 2*r, name+"y"))}
	case 4:
		return ip{a.x + int64(ir(rt, -2, 2, name+"dx")), a.y + int64(ir(rt, -2, 2, name+"dy"))}
	case 5: // a lattice point of the edge
		dx, dy := b.x-a.x, b.y-a.y
		g := gcd(abs64(dx), abs64(dy))
		if g > 0 {
			k := int64(ir(rt, 0, int(min(g, 1000)), name+"g"))
			return ip{a.x + dx/g*k, a.y + dy/g*k}
		}
		return a
	case 6: // a lattice point as near as can be to the edge without being on it
		if p, ok := besideEdge(a, b, pick(rt, name+"side", int64(1), -1), uf(rt, 0, 1, name+"t")); ok {
			return p
		}
		return a
	}
	return genIP(rt, 2*r, name)
}

// besideEdge is a lattice point with the smallest possible distance to the line ab that is not 0, on the chosen side,
// near the point of ab at fraction t.
func besideEdge(a, b ip, side int64, t float64) (ip, bool) {
	dx, dy := b.x-a.x, b.y-a.y
	if dx == 0 && dy == 0 {
		return a, false
	}
	// s*dx + u*dy = g
	s, s1, u, u1, g, g1 := int64(1), int64(0), int64(0), int64(1), dx, dy
	for g1 != 0 {
		q := g / g1
		s, s1 = s1, s-q*s1
		u, u1 = u1, u-q*u1
		g, g1 = g1, g-q*g1
	}
	if g < 0 {
		s, u, g = -s, -u, -g
	}
	// cross((dx,dy), (-u,s)) = s*dx + u*dy = g
	x, y := -u*side, s*side
	px, py := dx/g, dy/g
	want := t * float64(g)
	have := (float64(x)*float64(px) + float64(y)*float64(py)) / (float64(px)*float64(px) + float64(py)*float64(py))
	k := int64(math.Round(want - have))
	return ip{a.x + x + k*px, a.y + y + k*py}, true
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// ---- floats ----

// genCoord draws any finite float64: integers, decimals, wild exponents, special values.
func genCoord(rt *rapid.T, name string) float64 {
	switch ir(rt, 0, 6, name+"k") {
	case 0:
		return float64(ir(rt, -10, 10, name))
	case 1:
		return float64(ir(rt, -180_000_000, 180_000_000, name)) / 1e6
	case 2:
		return float64(ir(rt, -1000, 1000, name)) / pick(rt, name+"d", 10.0, 3, 7, 1000)
	case 3:
		v := rapid.Float64().Draw(rt, name)
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return 0
		}
		return v
	case 4:
		return pick(rt, name, 0, math.Copysign(0, -1), -0.5, 1e-7, -1e-7, 1e-300, 5e-324, 1e15, 1e21, -1e21, 1e300, math.MaxFloat64, -math.MaxFloat64, 0.1, 123456789.123456789, 4503599627370497.5, 1.0/3)
	case 5:
		return uf(rt, -180, 180, name)
	}
	return uf(rt, -1e7, 1e7, name)
}

func genPt(rt *rapid.T, name string) geo.Point {
	p := geo.Point{X: genCoord(rt, name+"x"), Y: genCoord(rt, name+"y")}
	if ir(rt, 0, 15, name+"alike") == 5 {
		p.Y = p.X
	}
	return p
}
func genPtZ(rt *rapid.T, name string) geo.PointZ {
	p := geo.PointZ{X: genCoord(rt, name+"x"), Y: genCoord(rt, name+"y"), Z: genCoord(rt, name+"z")}
	switch ir(rt, 0, 29, name+"alike") {
	case 5:
		p.Y = p.X
	case 6:
		p.Z = p.X
	case 7:
		p.Z = p.Y
	case 8:
		p.Y, p.Z = p.X, p.X
	}
	return p
}

func closeTo(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

func sliceOf[T any](rt *rapid.T, name string, lo, hi int, f func(rt *rapid.T) T) []T {
	return rapid.SliceOfN(rapid.Custom(f), lo, hi).Draw(rt, name)
}

// sliceB is sliceOf with, now and then, many elements, up to big.
func sliceB[T any](rt *rapid.T, name string, lo, hi, big int, f func(rt *rapid.T) T) []T {
	if ir(rt, 0, 15, name+"big") != 11 {
		return sliceOf(rt, name, lo, hi, f)
	}
	n := bigOf(rt, hi, big, name)
	return sliceOf(rt, name, n, n, f)
}

// again repeats, now and then, some elements of a list: next to the original or elsewhere, once or several times.
func again[T any](rt *rapid.T, xs []T) []T {
	if ir(rt, 0, 5, "again") != 0 {
		return xs
	}
	for k := ir(rt, 1, 3, "agains"); k > 0; k-- {
		i := ir(rt, 0, len(xs)-1, "againof")
		j := ir(rt, 0, len(xs), "againat")
		if bl(rt, "adjacent") {
			j = i
		}
		xs = append(append(append([]T(nil), xs[:j]...), xs[i]), xs[j:]...)
	}
	return xs
}

// genAnyGeom draws a geometry of any of the 12 types with arbitrary finite coordinates; rings are closed, no part is empty.
func genAnyGeom(rt *rapid.T) geo.Geometry {
	return genGeomOf(rt, ir(rt, 0, 11, "gtype"))
}

// genAnyGeomOpen is genAnyGeom with rings that are closed, open or closed but for a hair (the JSON codecs promise to keep
// positions whatever the ring).
func genAnyGeomOpen(rt *rapid.T) geo.Geometry { return genGeomRings(rt, ir(rt, 0, 11, "gtype"), true) }

func genGeomOf(rt *rapid.T, k int) geo.Geometry { return genGeomRings(rt, k, false) }

func genGeomRings(rt *rapid.T, k int, open bool) geo.Geometry {
	maxN := pick(rt, "maxn", 1, 2, 3, 6, 12)
	lo, hi := 1, maxN                 // points of a line or multipoint
	partLo, partHi := 1, maxN         // lines of a multiline
	polyLo, polyHi := 1, min(maxN, 4) // rings, polygons
	if ir(rt, 0, 79, "large") == 40 {
		// many points or many parts
		if bl(rt, "manyparts") {
			hi = 3
			partLo = pick(rt, "parts", 20, 70)
			partHi, polyLo, polyHi = partLo, partLo/3, partLo/3
		} else {
			lo = pick(rt, "points", 40, 130, 300)
			hi, partHi, polyHi = lo, 2, 2
		}
	}
	p2 := func(rt *rapid.T) geo.Point { return genPt(rt, "") }
	p3 := func(rt *rapid.T) geo.PointZ { return genPtZ(rt, "") }
	p2s := func(rt *rapid.T, name string, hi int) []geo.Point { return again(rt, sliceOf(rt, name, lo, hi, p2)) }
	p3s := func(rt *rapid.T, name string, hi int) []geo.PointZ {
		ps := again(rt, sliceOf(rt, name, lo, hi, p3))
		if n := len(ps); n > 1 && ir(rt, 0, 7, "above") == 0 { // one point above another, often the first
			i, j := ir(rt, 0, n-1, "abovei"), pick(rt, "abovej", 0, 0, n-1)
			if k := n - 1; bl(rt, "abovelast") {
				i, j = k, 0
			}
			ps[i].X, ps[i].Y = ps[j].X, ps[j].Y
		}
		return ps
	}
	// how the last point of a ring differs from its first
	last := func(rt *rapid.T) (bool, float64) {
		if !open {
			return true, 0
		}
		d := pick(rt, "gap", 0, 0, 0, 1e-7, -1e-9, 5e-7, 1e-5, 1)
		return d != 1, d
	}
	ring2 := func(rt *rapid.T) geo.LinearRing {
		r := geo.LinearRing(p2s(rt, "ring", max(hi, 3)))
		if add, d := last(rt); !add {
			return r
		} else if d != 0 {
			return append(r, geo.Point{X: r[0].X + d, Y: r[0].Y})
		}
		return append(r, r[0])
	}
	ring3 := func(rt *rapid.T) geo.LinearRingZ {
		r := geo.LinearRingZ(p3s(rt, "ring", max(hi, 3)))
		if add, d := last(rt); !add {
			return r
		} else if d != 0 {
			return append(r, geo.PointZ{X: r[0].X, Y: r[0].Y + d, Z: r[0].Z})
		}
		return append(r, r[0])
	}
	line2 := func(rt *rapid.T) geo.LineString {
		l := geo.LineString(p2s(rt, "line", hi))
		if len(l) > 1 && ir(rt, 0, 3, "closed") == 0 {
			l[len(l)-1] = l[0]
		}
		return l
	}
	line3 := func(rt *rapid.T) geo.LineStringZ {
		l := geo.LineStringZ(p3s(rt, "line", hi))
		if len(l) > 1 && ir(rt, 0, 3, "closed") == 0 {
			l[len(l)-1] = l[0]
		}
		return l
	}
	poly2 := func(rt *rapid.T) geo.Polygon {
		return geo.Polygon(again(rt, sliceOf(rt, "poly", polyLo, polyHi, ring2)))
	}
	poly3 := func(rt *rapid.T) geo.PolygonZ {
		return geo.PolygonZ(again(rt, sliceOf(rt, "poly", polyLo, polyHi, ring3)))
	}
	switch k {
	case 0:
		return p2(rt)
	case 1:
		return geo.MultiPoint(p2s(rt, "mp", hi))
	case 2:
		return line2(rt)
	case 3:
		return geo.MultiLineString(again(rt, sliceOf(rt, "ml", partLo, partHi, line2)))
	case 4:
		return poly2(rt)
	case 5:
		return geo.MultiPolygon(again(rt, sliceOf(rt, "mpoly", polyLo, polyHi, poly2)))
	case 6:
		return p3(rt)
	case 7:
		return geo.MultiPointZ(p3s(rt, "mp", hi))
	case 8:
		return line3(rt)
	case 9:
		return geo.MultiLineStringZ(again(rt, sliceOf(rt, "ml", partLo, partHi, line3)))
	case 10:
		return poly3(rt)
	}
	return geo.MultiPolygonZ(again(rt, sliceOf(rt, "mpoly", polyLo, polyHi, poly3)))
}

// flat drops the heights of a Z geometry.
func flat(g geo.Geometry) geo.Geometry {
	pts := func(ps []geo.PointZ) (out []geo.Point) {
		for _, p := range ps {
			out = append(out, geo.Point{X: p.X, Y: p.Y})
		}
		return
	}
	poly := func(p geo.PolygonZ) (out geo.Polygon) {
		for _, r := range p {
			out = append(out, pts(r))
		}
		return
	}
	switch g := g.(type) {
	case geo.PointZ:
		return geo.Point{X: g.X, Y: g.Y}
	case geo.MultiPointZ:
		return geo.MultiPoint(pts(g))
	case geo.LineStringZ:
		return geo.LineString(pts(g))
	case geo.MultiLineStringZ:
		var out geo.MultiLineString
		for _, l := range g {
			out = append(out, pts(l))
		}
		return out
	case geo.PolygonZ:
		return poly(g)
	case geo.MultiPolygonZ:
		var out geo.MultiPolygon
		for _, p := range g {
			out = append(out, poly(p))
		}
		return out
	}
	return g
}

// lift gives every vertex of a 2-D geometry the height z or that of the next vertex, z+1, and so on.
func lift(g geo.Geometry, z float64) geo.Geometry {
	pts := func(ps []geo.Point) (out []geo.PointZ) {
		for i, p := range ps {
			out = append(out, geo.PointZ{X: p.X, Y: p.Y, Z: z + float64(i)})
		}
		return
	}
	poly := func(p geo.Polygon) (out geo.PolygonZ) {
		for _, r := range p {
			out = append(out, pts(r))
		}
		return
	}
	switch g := g.(type) {
	case geo.Point:
		return geo.PointZ{X: g.X, Y: g.Y, Z: z}
	case geo.MultiPoint:
		return geo.MultiPointZ(pts(g))
	case geo.LineString:
		return geo.LineStringZ(pts(g))
	case geo.MultiLineString:
		var out geo.MultiLineStringZ
		for _, l := range g {
			out = append(out, pts(l))
		}
		return out
	case geo.Polygon:
		return poly(g)
	case geo.MultiPolygon:
		var out geo.MultiPolygonZ
		for _, p := range g {
			out = append(out, poly(p))
		}
		return out
	}
	return g
}

// vertices2 lists all vertices of a geometry in the plane.
func vertices2(g geo.Geometry) []geo.Point {
	var out []geo.Point
	switch g := flat(g).(type) {
	case geo.Point:
		out = append(out, g)
	case geo.MultiPoint:
		out = append(out, g...)
	case geo.LineString:
		out = append(out, g...)
	case geo.MultiLineString:
		for _, l := range g {
			out = append(out, l...)
		}
	case geo.Polygon:
		for _, r := range g {
			out = append(out, r...)
		}
	case geo.MultiPolygon:
		for _, p := range g {
			for _, r := range p {
				out = append(out, r...)
			}
		}
	}
	return out
}

// envelope of the vertices that count for the bounding box (all; for a Polygon its exterior ring).
func envelope(g geo.Geometry) geo.Box {
	vs := vertices2(g)
	if p, ok := flat(g).(geo.Polygon); ok {
		vs = p[0]
	}
	b := geo.Box{MinX: vs[0].X, MaxX: vs[0].X, MinY: vs[0].Y, MaxY: vs[0].Y}
	for _, v := range vs {
		b.MinX, b.MaxX = math.Min(b.MinX, v.X), math.Max(b.MaxX, v.X)
		b.MinY, b.MaxY = math.Min(b.MinY, v.Y), math.Max(b.MaxY, v.Y)
	}
	return b
}

// genLatGeom is genLatGeom2, lifted to three dimensions now and then.
func genLatGeom(rt *rapid.T, l lat, k int) geo.Geometry {
	g := genLatGeom2(rt, l, k)
	if ir(rt, 0, 7, "lift") == 5 {
		return lift(g, pick(rt, "height", 0, 1, -3.5, 1e9))
	}
	return g
}

// genLatGeom2 draws a non-empty 2-D geometry on a lattice (simple polygons, mostly of few points), for index and box checks.
func genLatGeom2(rt *rapid.T, l lat, k int) geo.Geometry {
	f := 1
	if k > 0 && ir(rt, 0, 29, "big") == 17 {
		f = 12
	}
	p := func(rt *rapid.T) geo.Point { return l.pt(genIP(rt, l.r, "")) }
	line := func(rt *rapid.T) geo.LineString {
		a := genIP(rt, l.r, "")
		n := ir(rt, 1, 4*f, "n")
		out := geo.LineString{l.pt(a)}
		for i := 0; i < n; i++ {
			a = ip{a.x + int64(ir(rt, -3, 3, "dx")), a.y + int64(ir(rt, -3, 3, "dy"))}
			out = append(out, l.pt(a))
		}
		return out
	}
	poly := func(rt *rapid.T) geo.Polygon {
		a := genIP(rt, l.r, "")
		w, h := int64(ir(rt, 1, 6, "w")), int64(ir(rt, 1, 6, "h"))
		ps := []ip{a, {a.x + w, a.y}, {a.x + w, a.y + h}, {a.x, a.y + h}}
		if bl(rt, "tri") {
			ps = ps[:3]
		}
		return l.poly(rotated(ps, ir(rt, 0, len(ps)-1, "st")))
	}
	switch k {
	case 0:
		return p(rt)
	case 1:
		return geo.MultiPoint(sliceOf(rt, "mp", 1, 4*f, p))
	case 2:
		return line(rt)
	case 3:
		return geo.MultiLineString(sliceOf(rt, "ml", 1, 3*f, line))
	case 4:
		return poly(rt)
	}
	return geo.MultiPolygon(sliceOf(rt, "mpoly", 1, 3*f, poly))
}
