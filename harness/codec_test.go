package harness

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"unicode"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"
	"pgregory.net/rapid"
)

// ---- neutral form of a geometry: keyword, dimension and nested coordinates ----

type nd struct {
	pos  []float64 // leaf
	kids []nd
}

func pos2(p geo.Point) nd  { return nd{pos: []float64{p.X, p.Y}} }
func pos3(p geo.PointZ) nd { return nd{pos: []float64{p.X, p.Y, p.Z}} }
func list[T any](xs []T, f func(T) nd) nd {
	n := nd{kids: []nd{}}
	for _, x := range xs {
		n.kids = append(n.kids, f(x))
	}
	return n
}

// neutral returns the WKT keyword, the RFC 7946 type name and the nested coordinates of any of the 12 types.
func neutral(g geo.Geometry) (kw, gj string, n nd) {
	ring2 := func(r geo.LinearRing) nd { return list(r, pos2) }
	ring3 := func(r geo.LinearRingZ) nd { return list(r, pos3) }
	switch g := g.(type) {
	case geo.Point:
		return "POINT", "Point", pos2(g)
	case geo.PointZ:
		return "POINT", "Point", pos3(g)
	case geo.MultiPoint:
		return "MULTIPOINT", "MultiPoint", list(g, pos2)
	case geo.MultiPointZ:
		return "MULTIPOINT", "MultiPoint", list(g, pos3)
	case geo.LineString:
		return "LINESTRING", "LineString", list(g, pos2)
	case geo.LineStringZ:
		return "LINESTRING", "LineString", list(g, pos3)
	case geo.MultiLineString:
		return "MULTILINESTRING", "MultiLineString", list(g, func(l geo.LineString) nd { return list(l, pos2) })
	case geo.MultiLineStringZ:
		return "MULTILINESTRING", "MultiLineString", list(g, func(l geo.LineStringZ) nd { return list(l, pos3) })
	case geo.Polygon:
		return "POLYGON", "Polygon", list(g, ring2)
	case geo.PolygonZ:
		return "POLYGON", "Polygon", list(g, ring3)
	case geo.MultiPolygon:
		return "MULTIPOLYGON", "MultiPolygon", list(g, func(p geo.Polygon) nd { return list(p, ring2) })
	case geo.MultiPolygonZ:
		return "MULTIPOLYGON", "MultiPolygon", list(g, func(p geo.PolygonZ) nd { return list(p, ring3) })
	}
	return "", "", nd{}
}

func (n nd) equal(m nd) bool {
	if len(n.pos) != len(m.pos) || len(n.kids) != len(m.kids) || (n.pos == nil) != (m.pos == nil) {
		return false
	}
	for i := range n.pos {
		if math.Float64bits(n.pos[i]) != math.Float64bits(m.pos[i]) {
			return false
		}
	}
	for i := range n.kids {
		if !n.kids[i].equal(m.kids[i]) {
			return false
		}
	}
	return true
}

func (n nd) count() int {
	if n.pos != nil {
		return 1
	}
	s := 0
	for _, k := range n.kids {
		s += k.count()
	}
	return s
}

func (n nd) depth() int {
	d := 0
	for _, k := range n.kids {
		d = max(d, k.depth())
	}
	return d + 1
}

// sameGeom: same type, same nested coordinates, bit for bit.
func sameGeom(a, b geo.Geometry) bool {
	if a == nil || b == nil || reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	_, _, x := neutral(a)
	_, _, y := neutral(b)
	return x.equal(y)
}

// ---- independent WKT parser ----

type wktParser struct {
	s string
	i int
}

func (p *wktParser) ws() {
	for p.i < len(p.s) && p.s[p.i] == ' ' {
		p.i++
	}
}

func parseWKT(s string) (kw string, n nd, err error) {
	p := &wktParser{s: s}
	p.ws()
	st := p.i
	for p.i < len(s) && s[p.i] >= 'A' && s[p.i] <= 'Z' {
		p.i++
	}
	kw = s[st:p.i]
	p.ws()
	n, err = p.group()
	if err != nil {
		return
	}
	p.ws()
	if p.i != len(s) {
		err = fmt.Errorf("trailing text at %d", p.i)
	}
	if kw == "POINT" && err == nil {
		if len(n.kids) != 1 || n.kids[0].pos == nil {
			return kw, n, errors.New("POINT needs one position")
		}
		n = n.kids[0]
	}
	if kw == "MULTIPOINT" {
		for i, k := range n.kids {
			if k.pos == nil {
				if len(k.kids) != 1 || k.kids[0].pos == nil {
					return kw, n, errors.New("multipoint member is no position")
				}
				n.kids[i] = k.kids[0]
			}
		}
	}
	return
}

func (p *wktParser) group() (nd, error) {
	if p.i >= len(p.s) || p.s[p.i] != '(' {
		return nd{}, fmt.Errorf("( expected at %d", p.i)
	}
	p.i++
	n := nd{kids: []nd{}}
	for {
		p.ws()
		if p.i < len(p.s) && p.s[p.i] == '(' {
			k, err := p.group()
			if err != nil {
				return n, err
			}
			n.kids = append(n.kids, k)
		} else {
			var pos []float64
			for {
				p.ws()
				st := p.i
				for p.i < len(p.s) && strings.IndexByte(" ,()", p.s[p.i]) < 0 {
					p.i++
				}
				if st == p.i {
					break
				}
				tok := p.s[st:p.i]
				if strings.Trim(tok, "0123456789.+-eE") != "" {
					return n, fmt.Errorf("number expected at %d", st)
				}
				v, err := strconv.ParseFloat(tok, 64)
				if err != nil {
					return n, err
				}
				pos = append(pos, v)
			}
			if len(pos) < 2 || len(pos) > 3 {
				return n, fmt.Errorf("position of %d numbers before %d", len(pos), p.i)
			}
			n.kids = append(n.kids, nd{pos: pos})
		}
		p.ws()
		if p.i >= len(p.s) {
			return n, errors.New("unexpected end")
		}
		c := p.s[p.i]
		p.i++
		switch c {
		case ',':
		case ')':
			return n, nil
		default:
			return n, fmt.Errorf("unexpected %q at %d", c, p.i-1)
		}
	}
}

// ---- C05 ----

func TestC05_RoundTrip(t *testing.T) {
	run(t, 1500, "geometry of a random one of the 12 types, 1..12 positions per part, 1..4 rings/parts, coordinates integer/decimal/wild (up to MaxFloat64, subnormal, -0); non-trivial: more than one position", func(rt *rapid.T, c *Case) {
		g := genAnyGeom(rt)
		c.D("%T %v", g, g)
		kw, _, n := neutral(g)
		c.NT(n.count() > 1)
		c.L("%T", g)
		if n.kids != nil && n.depth() > 2 && len(n.kids) > 1 {
			c.L("several parts")
		}
		s := wkt.Encode(g)
		k2, n2, err := parseWKT(s)
		if err != nil {
			rt.Fatalf("Encode gives malformed WKT: %v\n%s", err, s)
		}
		if k2 != kw || !n2.equal(n) {
			rt.Fatalf("Encode gives a text of different content: %s", s)
		}
		back, err := wkt.Decode(s)
		if err != nil {
			rt.Fatalf("Decode(%s): %v", s, err)
		}
		if !sameGeom(g, back) {
			rt.Fatalf("Decode(%s) = %T %v", s, back, back)
		}
	})
}

// genHuge builds a geometry with thousands of positions, in one part or in many; the coordinates follow from the index.
func genHuge(rt *rapid.T, k int) geo.Geometry {
	a, s := float64(ir(rt, -1000, 1000, "a")), pick(rt, "s", 1, 0.1, 1.0/3, 1e-9, 1e17)
	n := 0
	p3 := func() geo.PointZ {
		n++
		return geo.PointZ{X: (a + float64(n%1013)) * s, Y: float64(n) * s, Z: float64(n%17) - a}
	}
	p2 := func() geo.Point { q := p3(); return geo.Point{X: q.X, Y: q.Y} }
	points, parts := sz(rt, "points", 200, 1500, 3000, 5000), 1
	if bl(rt, "parts") {
		points, parts = sz(rt, "few", 1, 3, 7), sz(rt, "many", 100, 300, 800)
	}
	return buildGeom(k, p2, p3, points, parts)
}

func fill[T any](n int, f func() T) []T {
	xs := make([]T, n)
	for i := range xs {
		xs[i] = f()
	}
	return xs
}

// buildGeom builds a geometry of kind k out of points from p2 or p3; rings are closed.
func buildGeom(k int, p2 func() geo.Point, p3 func() geo.PointZ, points, parts int) geo.Geometry {
	line2 := func() geo.LineString { return geo.LineString(fill(points, p2)) }
	line3 := func() geo.LineStringZ { return geo.LineStringZ(fill(points, p3)) }
	ring2 := func() geo.LinearRing { r := fill(points+2, p2); return geo.LinearRing(append(r, r[0])) }
	ring3 := func() geo.LinearRingZ { r := fill(points+2, p3); return geo.LinearRingZ(append(r, r[0])) }
	switch k {
	case 1:
		return geo.MultiPoint(fill(points*parts, p2))
	case 2:
		return line2()
	case 3:
		return geo.MultiLineString(fill(parts, line2))
	case 4:
		return geo.Polygon(fill(parts, ring2))
	case 5:
		return geo.MultiPolygon(fill(parts, func() geo.Polygon { return geo.Polygon(fill(2, ring2)) }))
	case 7:
		return geo.MultiPointZ(fill(points*parts, p3))
	case 8:
		return line3()
	case 9:
		return geo.MultiLineStringZ(fill(parts, line3))
	case 10:
		return geo.PolygonZ(fill(parts, ring3))
	case 11:
		return geo.MultiPolygonZ(fill(parts, func() geo.PolygonZ { return geo.PolygonZ(fill(2, ring3)) }))
	}
	if k == 0 {
		return p2()
	}
	return p3()
}

func TestC05_Large(t *testing.T) {
	run(t, 6, "geometry of a random type with 200 to 10000 positions in one part or in up to 800 parts; non-trivial: always", func(rt *rapid.T, c *Case) {
		g := genHuge(rt, ir(rt, 1, 11, "kind"))
		kw, _, n := neutral(g)
		s := wkt.Encode(g)
		c.D("%T of %d positions, text of %d bytes", g, n.count(), len(s))
		c.NT(true)
		k2, n2, err := parseWKT(s)
		if err != nil || k2 != kw || !n2.equal(n) {
			rt.Fatalf("Encode of a %T of %d positions gives a text of other content: %v", g, n.count(), err)
		}
		back, err := wkt.Decode(s)
		if err != nil || !sameGeom(g, back) {
			rt.Fatalf("the text of a %T of %d positions decodes differently: %v", g, n.count(), err)
		}
	})
}

// TestC05_Parts calls the exported encoders of parts directly.
func TestC05_Parts(t *testing.T) {
	run(t, 400, "geometry of a random one of the 12 types, encoded by the exported encoder of its kind of parts; non-trivial: more than one position", func(rt *rapid.T, c *Case) {
		g := genAnyGeomOpen(rt)
		kw, _, n := neutral(g)
		c.D("%T %v", g, g)
		c.NT(n.count() > 1)
		c.L("%T", g)
		var s string
		switch g := g.(type) {
		case geo.Point:
			s = "(" + wkt.GeometryToWktString(g.X, g.Y) + ")"
		case geo.PointZ:
			s = "(" + wkt.GeometryToWktStringZ(g.X, g.Y, g.Z) + ")"
		case geo.MultiPoint:
			s = wkt.PathToWktString(g)
		case geo.MultiPointZ:
			s = wkt.PathZToWktString(g)
		case geo.LineString:
			s = wkt.PathToWktString(g)
		case geo.LineStringZ:
			s = wkt.PathZToWktString(g)
		case geo.MultiLineString:
			s = wkt.PolygonToWktString(g)
		case geo.MultiLineStringZ:
			s = wkt.PolygonZToWktString(g)
		case geo.Polygon:
			s = wkt.PolygonToWktString2(g)
		case geo.PolygonZ:
			s = wkt.PolygonZToWktString2(g)
		case geo.MultiPolygon:
			s = wkt.MultiPolygonToWktString(g)
		case geo.MultiPolygonZ:
			s = wkt.MultiPolygonZToWktString(g)
		}
		if k2, n2, err := parseWKT(kw + s); err != nil || k2 != kw || !n2.equal(n) {
			rt.Fatalf("the encoder of the parts of a %T gives %s (%v)", g, s, err)
		}
	})
}

// ---- C06 ----

type layout struct {
	rt   *rapid.T
	rich bool
	mp   bool
	// also vary the spelling of the numbers
	spell bool
}

func (l layout) b(name string) string {
	if !l.rich {
		return ""
	}
	return pick(l.rt, name, "", "", " ", "  ")
}

// num writes a number in one of its decimal spellings.
func (l layout) num(v float64) string {
	s := strconv.FormatFloat(v, 'f', -1, 64)
	if !l.rich || !l.spell || ir(l.rt, 0, 3, "spelling") != 0 {
		return s
	}
	sign := ""
	if s[0] == '-' {
		sign, s = "-", s[1:]
	}
	switch ir(l.rt, 0, 7, "spell") {
	case 0:
		s = strconv.FormatFloat(math.Abs(v), 'e', -1, 64)
	case 1:
		s = strconv.FormatFloat(math.Abs(v), 'E', -1, 64)
	case 2:
		s = strconv.FormatFloat(math.Abs(v), 'e', 19, 64)
	case 3:
		if sign == "" {
			sign = "+"
		}
	case 4:
		s = pick(l.rt, "zeros", "0", "00", "000") + s
	case 5:
		if !strings.Contains(s, ".") {
			s += "."
		}
		s += pick(l.rt, "zeros", "", "0", "000")
	case 6:
		if strings.HasPrefix(s, "0.") {
			s = s[1:]
		}
	case 7:
		if !strings.ContainsAny(s, ".") {
			s += pick(l.rt, "exp", "e0", "E+00", "e-0")
		}
	}
	return sign + s
}

func (l layout) write(b *strings.Builder, n nd) {
	b.WriteString("(" + l.b("ao"))
	kids := n.kids
	if n.pos != nil {
		kids = []nd{n}
	}
	for i, k := range kids {
		if i > 0 {
			b.WriteString("," + l.b("ac"))
		}
		if k.pos == nil {
			l.write(b, k)
			b.WriteString(l.b("ap"))
			continue
		}
		if l.mp {
			b.WriteString("(" + l.b("mo"))
		}
		for j, v := range k.pos {
			if j > 0 {
				b.WriteString(" " + l.b("bo"))
			}
			b.WriteString(l.num(v))
		}
		if l.mp {
			b.WriteString(l.b("mc") + ")" + l.b("mp"))
		}
	}
	b.WriteString(l.b("bc") + ")")
}

func genWKT(rt *rapid.T, g geo.Geometry, rich bool) string {
	kw, _, n := neutral(g)
	l := layout{rt: rt, rich: rich, spell: rich && bl(rt, "spell")}
	if kw == "MULTIPOINT" {
		l.mp = bl(rt, "mpparen")
	}
	var b strings.Builder
	b.WriteString(l.b("lead") + kw + l.b("kw"))
	l.write(&b, n)
	b.WriteString(l.b("trail"))
	return b.String()
}

func TestC06_Layout(t *testing.T) {
	run(t, 1200, "geometry of a random type printed by an independent printer with random blanks outside, around parentheses, after commas and between ordinates, either multipoint spelling and, in half of the texts, numbers in other decimal spellings (sign, exponent, leading and trailing zeros or points); non-trivial: the text differs from the compact text", func(rt *rapid.T, c *Case) {
		g := genAnyGeom(rt)
		s := genWKT(rt, g, true)
		c.D("%q", s)
		c.L("%T", g)
		compact := genWKTCompact(g)
		c.NT(s != compact)
		if k, n, err := parseWKT(s); err != nil {
			rt.Fatalf("harness: %v in %q", err, s)
		} else if kw, _, m := neutral(g); k != kw || !m.equal(n) {
			rt.Fatalf("harness: printer and parser disagree on %q", s)
		}
		back, err := wkt.Decode(s)
		if err != nil {
			rt.Fatalf("Decode(%q): %v", s, err)
		}
		if !sameGeom(g, back) {
			rt.Fatalf("Decode(%q) = %T %v, want %T %v", s, back, back, g, g)
		}
		back, err = wkt.Decode(compact)
		if err != nil || !sameGeom(g, back) {
			rt.Fatalf("Decode(%q) = %T %v, %v", compact, back, back, err)
		}
	})
}

// positions returns pointers to the positions of a tree.
func (n *nd) positions() []*nd {
	if n.pos != nil {
		return []*nd{n}
	}
	var out []*nd
	for i := range n.kids {
		out = append(out, n.kids[i].positions()...)
	}
	return out
}

func TestC06_Ordinates(t *testing.T) {
	run(t, 1200, "valid WKT in which some positions have lost or gained ordinates, so that they do not all have two or all three; non-trivial: at least two positions", func(rt *rapid.T, c *Case) {
		g := genAnyGeom(rt)
		kw, _, n := neutral(g)
		ps := n.positions()
		i := ir(rt, 0, len(ps)-1, "at")
		if bl(rt, "part") { // a whole part, or several, in the other dimension
			v := &n
			for len(v.kids) > 0 {
				ks := v.kids
				a := ir(rt, 0, len(ks)-1, "partat")
				b := min(len(ks), a+ir(rt, 1, 3, "partn"))
				if v = &ks[a]; bl(rt, "partstop") {
					for ; a < b; a++ {
						for _, q := range ks[a].positions() {
							if len(q.pos) == 2 {
								q.pos = []float64{q.pos[0], q.pos[1], float64(ir(rt, -9, 9, "h"))}
							} else {
								q.pos = append([]float64(nil), q.pos[:2]...)
							}
						}
					}
					break
				}
			}
			i = len(ps)
		}
		for k := ir(rt, 1, 2, "count"); k > 0 && i < len(ps); k-- {
			d := len(ps[i].pos)
			m := pick(rt, "m", 5-d, 5-d, 1, 4, 0)
			pos := []float64{}
			for j := 0; j < m; j++ {
				pos = append(pos, float64(ir(rt, -9, 9, "o")))
			}
			copy(pos, ps[i].pos)
			ps[i].pos = pos
			i += ir(rt, 1, 3, "next")
		}
		d := map[int]bool{}
		for _, p := range ps {
			d[len(p.pos)] = true
		}
		if (d[2] || d[3]) && len(d) == 1 {
			return
		}
		l := layout{rt: rt, rich: bl(rt, "rich")}
		if kw == "MULTIPOINT" {
			l.mp = bl(rt, "mpparen")
		}
		var b strings.Builder
		b.WriteString(kw)
		l.write(&b, n)
		s := b.String()
		c.D("%q", s)
		c.NT(len(ps) > 1)
		back, err := wkt.Decode(s)
		if err == nil {
			rt.Fatalf("Decode(%q) = %T %v, although its positions differ in their number of ordinates", s, back, back)
		}
	})
}

func genWKTCompact(g geo.Geometry) string {
	kw, _, n := neutral(g)
	var b strings.Builder
	b.WriteString(kw)
	layout{}.write(&b, n)
	return b.String()
}

var wktTokens = []string{"(", ")", "((", "))", ",", ", ", " ", "  ", "\t", "\n", "1", "-1.5", "1 2", "1 2 3", "1 2 3 4", "0 0,0 0", "nan", "NaN 1", "inf", "-Inf 2", "1e400", "1e5 2E-3", "0x1p-2", "1_0", "_1", "2_", "..", "-", "--1", "+1 +2", "e", "E", "EMPTY", "POINT", "MULTIPOINT", "LINESTRING", "MULTILINESTRING", "POLYGON", "MULTIPOLYGON", "GEOMETRYCOLLECTION", " Z ", "Z", "point", "SRID=4326;", "\x00", "\xff", "é", "（", "()", "(())", "((()))", "(,)", "( )", "1 2)", "(1 2", "(1 2)", "((1 2", "1", "1,1"}

func genMutated(rt *rapid.T, s string, toks []string) string {
	for k := ir(rt, 1, 5, "muts"); k > 0; k-- {
		if len(s) > 4000 {
			break
		}
		i := ir(rt, 0, len(s), "at")
		j := min(len(s), i+ir(rt, 0, 6, "len"))
		switch ir(rt, 0, 6, "mut") {
		case 0:
			s = s[:i] + s[j:]
		case 1:
			s = s[:i] + pick(rt, "tok", toks...) + s[i:]
		case 2:
			s = s[:i] + pick(rt, "tok", toks...) + s[j:]
		case 3:
			s = s[:j] + s[i:] // repeat
		case 4:
			s = s[:i]
		case 5:
			s = s[i:]
		case 6:
			b := rapid.Byte().Draw(rt, "byte")
			s = s[:i] + string([]byte{b}) + s[j:]
		}
	}
	return s
}

func TestC06_AnyText(t *testing.T) {
	run(t, 2500, "text: a valid WKT mutated 1..5 times (delete, insert or replace by tokens, repeat, truncate, byte), a token soup, keyword+soup, or a random string; non-trivial: the text is not valid WKT by the independent parser", func(rt *rapid.T, c *Case) {
		var s string
		switch ir(rt, 0, 5, "src") {
		case 0:
			s = strings.Join(sliceOf(rt, "soup", 0, 15, func(rt *rapid.T) string { return pick(rt, "t", wktTokens...) }), "")
		case 1:
			s = pick(rt, "kw", "POINT", "MULTIPOINT", "LINESTRING", "MULTILINESTRING", "POLYGON", "MULTIPOLYGON") + "(" +
				strings.Join(sliceOf(rt, "soup", 0, 12, func(rt *rapid.T) string { return pick(rt, "t", wktTokens...) }), "") + ")"
		case 2:
			s = rapid.String().Draw(rt, "str")
		default:
			s = genMutated(rt, genWKT(rt, genAnyGeom(rt), bl(rt, "rich")), wktTokens)
		}
		c.D("%q", s)
		_, _, perr := parseWKT(s)
		c.NT(perr != nil)
		checkText(rt, c, s)
	})
}

// failer is what a generated case and a fuzz target have in common.
type failer interface {
	Fatalf(format string, args ...any)
}

func checkText(rt failer, c *Case, s string) {
	var g geo.Geometry
	var err error
	if msg := noPanic(func() { g, err = wkt.Decode(s) }); msg != "" {
		rt.Fatalf("Decode(%q): %s", s, msg)
	}
	if err != nil {
		c.L("error")
		return
	}
	c.L("accepted")
	if g == nil {
		rt.Fatalf("Decode(%q) returns neither geometry nor error", s)
	}
	kw, _, n := neutral(g)
	if kw == "" {
		rt.Fatalf("Decode(%q) returns an unknown geometry %T", s, g)
	}
	if !strings.Contains(s, kw) {
		rt.Fatalf("Decode(%q) returns a %s", s, kw)
	}
	written := map[float64]bool{}
	for _, tok := range strings.FieldsFunc(s, func(r rune) bool { return unicode.IsSpace(r) || strings.ContainsRune("(),", r) }) {
		if v, err := strconv.ParseFloat(tok, 64); err == nil {
			written[v] = true
		}
	}
	for _, p := range n.positions() {
		for _, v := range p.pos {
			if !written[v] {
				rt.Fatalf("Decode(%q) = %T %v: %v is not in the text", s, g, g, v)
			}
		}
	}
	e := wkt.Encode(g)
	var g2 geo.Geometry
	if msg := noPanic(func() { g2, err = wkt.Decode(e) }); msg != "" || err != nil {
		rt.Fatalf("Decode(%q) = %T %v, but its encoding %q does not decode: %s %v", s, g, g, e, msg, err)
	}
	if !sameGeom(g, g2) {
		rt.Fatalf("Decode(%q) = %T %v, but its encoding %q decodes to %T %v", s, g, g, e, g2, g2)
	}
	// the exported part decoders cope with the same text
	for _, f := range []func(string) (geo.Geometry, error){wkt.PointFromWKT, wkt.MultiPointFromWKT, wkt.LineStringFromWKT, wkt.MultiLineStringFromWKT, wkt.PolygonFromWKT, wkt.MultiPolygonFromWKT} {
		if msg := noPanic(func() { _, _ = f(s) }); msg != "" {
			rt.Fatalf("part decoder on %q: %s", s, msg)
		}
	}
}

func FuzzC06(f *testing.F) {
	for _, s := range []string{"POINT(1 2)", "POINT Z (1 2 3)", "LINESTRING(1 2,3 4)", "MULTIPOINT((1 2),(3 4))", "MULTIPOINT(1 2,3 4)", "MULTILINESTRING((1 2,3 4),(5 6,7 8))",
		"POLYGON((0 0,4 0,4 4,0 0),(1 1,2 1,2 2,1 1))", "MULTIPOLYGON(((0 0,4 0,4 4,0 0)),((5 5,6 5,6 6,5 5)))", "MULTIPOLYGON(((0 0 1,4 0 1,4 4 1,0 0 1)))", "POLYGON(())", "POINT(1e5 -.5)", "POINT EMPTY"} {
		f.Add(s)
	}
	f.Fuzz(func(t *testing.T, s string) { checkText(t, &Case{}, s) })
}

func TestC06_Regress(t *testing.T) {
	for _, s := range []string{"POINT(1)", "POINT()", "LINESTRING(1)", "POLYGON((1 1))", "POLYGON((1 1 1))", "MULTIPOINT(1)", "MULTIPOINT()", "POLYGON((NaN 1,2 3))", "POLYGON(())", "MULTIPOLYGON(((1 1)))"} {
		if msg := noPanic(func() { _, _ = wkt.Decode(s) }); msg != "" {
			t.Errorf("Decode(%q): %s", s, msg)
		}
	}
	g, err := wkt.Decode("MULTIPOLYGON (((30 20, 45 40, 10 40, 30 20)), ((15 5, 40 10, 10 20, 5 10, 15 5)))")
	if err != nil || len(g.(geo.MultiPolygon)) != 2 {
		t.Errorf("multipolygon decodes to %v, %v", g, err)
	}
}

// ---- C07 ----

// jsonNd reads generic JSON coordinates into the neutral form.
func jsonNd(v any) (nd, error) {
	a, ok := v.([]any)
	if !ok {
		return nd{}, fmt.Errorf("%T is no array", v)
	}
	if len(a) > 0 {
		if _, num := a[0].(json.Number); num {
			n := nd{pos: []float64{}}
			for _, x := range a {
				s, ok := x.(json.Number)
				if !ok {
					return n, fmt.Errorf("%T in a position", x)
				}
				f, err := strconv.ParseFloat(string(s), 64)
				if err != nil {
					return n, err
				}
				n.pos = append(n.pos, f)
			}
			return n, nil
		}
	}
	n := nd{kids: []nd{}}
	for _, x := range a {
		k, err := jsonNd(x)
		if err != nil {
			return n, err
		}
		n.kids = append(n.kids, k)
	}
	return n, nil
}

func genericJSON(b []byte) (map[string]any, error) {
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var m map[string]any
	err := d.Decode(&m)
	return m, err
}

func isMulti(g geo.Geometry) bool { return strings.HasPrefix(string(g.Type()), "Multi") }

func TestC07_GeoJSON(t *testing.T) {
	run(t, 1200, "geometry of a random one of the 12 types with arbitrary finite coordinates; non-trivial: more than one position", func(rt *rapid.T, c *Case) {
		g := genAnyGeomOpen(rt)
		c.D("%T %v", g, g)
		c.L("%T", g)
		_, name, n := neutral(g)
		c.NT(n.count() > 1)
		b, err := geojson.MarshalGeo(g)
		if err != nil {
			rt.Fatalf("MarshalGeo(%T %v): %v", g, g, err)
		}
		m, err := genericJSON(b)
		if err != nil {
			rt.Fatalf("MarshalGeo gives %s: %v", b, err)
		}
		for k := range m {
			if k != "type" && k != "coordinates" {
				rt.Fatalf("unexpected member %q in %s", k, b)
			}
		}
		if m["type"] != name {
			rt.Fatalf("type is %v, want %s", m["type"], name)
		}
		got, err := jsonNd(m["coordinates"])
		if err != nil || !got.equal(n) {
			rt.Fatalf("coordinates differ (%v): %s", err, b)
		}
		var gj geojson.GeoJson
		if err := json.Unmarshal(b, &gj); err != nil {
			rt.Fatalf("%v", err)
		}
		back, err := geojson.UnmarshalGeo(&gj)
		if isMulti(g) {
			if err == nil {
				rt.Fatalf("UnmarshalGeo of a %s returns %v instead of the documented error", name, back)
			}
			return
		}
		if err != nil || !sameGeom(g, back) {
			rt.Fatalf("UnmarshalGeo(%s) = %T %v, %v", b, back, back, err)
		}
	})
}

func TestC07_Large(t *testing.T) {
	run(t, 6, "geometry of a random type with 200 to 10000 positions in one part or in up to 800 parts; non-trivial: always", func(rt *rapid.T, c *Case) {
		g := genHuge(rt, ir(rt, 1, 11, "kind"))
		_, name, n := neutral(g)
		b, err := geojson.MarshalGeo(g)
		if err != nil {
			rt.Fatalf("MarshalGeo of a %T of %d positions: %v", g, n.count(), err)
		}
		c.D("%T of %d positions, document of %d bytes", g, n.count(), len(b))
		c.NT(true)
		m, err := genericJSON(b)
		if err != nil || m["type"] != name {
			rt.Fatalf("MarshalGeo of a %T: %v, type %v", g, err, m["type"])
		}
		if got, err := jsonNd(m["coordinates"]); err != nil || !got.equal(n) {
			rt.Fatalf("coordinates of a %T of %d positions differ: %v", g, n.count(), err)
		}
		if isMulti(g) {
			return
		}
		var gj geojson.GeoJson
		if err := json.Unmarshal(b, &gj); err != nil {
			rt.Fatalf("%v", err)
		}
		if back, err := geojson.UnmarshalGeo(&gj); err != nil || !sameGeom(g, back) {
			rt.Fatalf("the document of a %T of %d positions decodes differently: %v", g, n.count(), err)
		}
	})
}

// TestC07_Convert calls the exported converters to coordinate arrays directly.
func TestC07_Convert(t *testing.T) {
	run(t, 400, "geometry of a random one of the 12 types, given to every exported converter; non-trivial: more than one position", func(rt *rapid.T, c *Case) {
		g := genAnyGeomOpen(rt)
		_, _, n := neutral(g)
		c.D("%T %v", g, g)
		c.NT(n.count() > 1)
		c.L("%T", g)
		okOf := map[string]bool{}
		check := func(name string, v any, err error) {
			if err != nil {
				return
			}
			okOf[name] = true
			b, err := json.Marshal(v)
			if err != nil {
				rt.Fatalf("%s: %v", name, err)
			}
			d := json.NewDecoder(strings.NewReader(string(b)))
			d.UseNumber()
			var x any
			if err := d.Decode(&x); err != nil {
				rt.Fatalf("%s: %v", name, err)
			}
			if got, err := jsonNd(x); err != nil || !got.equal(n) {
				rt.Fatalf("%s(%T %v) = %s (%v)", name, g, g, b, err)
			}
		}
		if p, ok := g.(geo.Point); ok {
			v, err := geojson.ConvertPoi(p)
			check("Poi", v, err)
		}
		if p, ok := g.(geo.PointZ); ok {
			v, err := geojson.ConvertPoiZ(p)
			check("PoiZ", v, err)
		}
		v1, err := geojson.ConvertPoiSet(g)
		check("PoiSet", v1, err)
		v2, err := geojson.ConvertPoiZSet(g)
		check("PoiZSet", v2, err)
		v3, err := geojson.ConvertPathSet(g)
		check("PathSet", v3, err)
		v4, err := geojson.ConvertPathZSet(g)
		check("PathZSet", v4, err)
		v5, err := geojson.ConvertPolygonSet(g)
		check("PolygonSet", v5, err)
		v6, err := geojson.ConvertPolygonZSet(g)
		check("PolygonZSet", v6, err)
		want := map[string]string{"Point": "Poi", "MultiPoint": "PoiSet", "LineString": "PoiSet", "MultiLineString": "PathSet", "Polygon": "PathSet", "MultiPolygon": "PolygonSet",
			"PointZ": "PoiZ", "MultiPointZ": "PoiZSet", "LineStringZ": "PoiZSet", "MultiLineStringZ": "PathZSet", "PolygonZ": "PathZSet", "MultiPolygonZ": "PolygonZSet"}[strings.TrimPrefix(fmt.Sprintf("%T", g), "geo.")]
		if want == "" || !okOf[want] || len(okOf) != 1 {
			rt.Fatalf("converters accepting a %T: %v, want %s", g, okOf, want)
		}
	})
}

// TestC07_NotFinite puts a coordinate JSON cannot express into a geometry.
func TestC07_NotFinite(t *testing.T) {
	run(t, 200, "geometry of a random one of the 12 types with one NaN or infinite ordinate; non-trivial: more than one position", func(rt *rapid.T, c *Case) {
		k := ir(rt, 0, 11, "kind")
		bad, i := pick(rt, "bad", math.NaN(), math.Inf(1), math.Inf(-1)), 0
		points, parts := ir(rt, 1, 4, "points"), ir(rt, 1, 3, "parts")
		dim := 2
		if k >= 6 {
			dim = 3
		}
		total := 0
		count := func() geo.PointZ { total++; return geo.PointZ{} }
		buildGeom(k, func() geo.Point { q := count(); return geo.Point{X: q.X, Y: q.Y} }, count, points, parts)
		at, ord := ir(rt, 0, total-1, "at"), ir(rt, 0, dim-1, "ord")
		p3 := func() geo.PointZ {
			q := [3]float64{float64(i), float64(i % 3), 7}
			if i == at {
				q[ord] = bad
			}
			i++
			return geo.PointZ{X: q[0], Y: q[1], Z: q[2]}
		}
		g := buildGeom(k, func() geo.Point { q := p3(); return geo.Point{X: q.X, Y: q.Y} }, p3, points, parts)
		c.D("%T %v", g, g)
		c.NT(total > 1)
		c.L("%T", g)
		if b, err := geojson.MarshalGeo(g); err == nil {
			rt.Fatalf("MarshalGeo(%T %v) = %s without an error", g, g, b)
		}
	})
}

func TestC07_Regress(t *testing.T) {
	if _, err := geojson.MarshalGeo(geo.PolygonZ{{{X: 0, Y: 0, Z: 1}, {X: 1, Y: 0, Z: 1}, {X: 1, Y: 1, Z: 1}, {X: 0, Y: 0, Z: 1}}}); err != nil {
		t.Fatal(err)
	}
}

// ---- C08 ----

func genJSONValue(rt *rapid.T, depth int) any {
	k := ir(rt, 0, 9, "jk")
	if depth <= 0 && k >= 6 {
		k = k % 6
	}
	switch k {
	case 0, 1, 2:
		return float64(ir(rt, -5, 5, "num"))
	case 3:
		return pick[any](rt, "odd", nil, true, "1", "", "x", map[string]any{}, []any{})
	case 4:
		return genCoord(rt, "num")
	case 5:
		return []any{float64(ir(rt, -3, 3, "a")), float64(ir(rt, -3, 3, "b"))}
	}
	n := ir(rt, 0, 4, "jn")
	a := []any{}
	for i := 0; i < n; i++ {
		a = append(a, genJSONValue(rt, depth-1))
	}
	return a
}

// genCoords builds coordinates of roughly the given depth, mostly well-formed, with local damage.
func genCoords(rt *rapid.T, depth, dim int) any {
	if ir(rt, 0, 14, "damage") == 0 {
		return genJSONValue(rt, 3)
	}
	if depth == 0 {
		n := dim
		if ir(rt, 0, 9, "dim") == 0 {
			n = ir(rt, 0, 5, "dims")
		}
		a := []any{}
		for i := 0; i < n; i++ {
			if ir(rt, 0, 40, "ord") == 0 {
				a = append(a, genJSONValue(rt, 1))
			} else {
				a = append(a, float64(ir(rt, -9, 9, "v")))
			}
		}
		return a
	}
	a := []any{}
	for i := ir(rt, 0, 4, "n"); i > 0; i-- {
		a = append(a, genCoords(rt, depth-1, dim))
	}
	return a
}

// shape says whether coordinates have the array shape of depth (0 position, 1 line, 2 polygon) with at least two
// ordinates everywhere, and collects the ordinate counts.
func shapeOf(v any, depth int, dims map[int]bool) (nd, bool) {
	a, ok := v.([]any)
	if !ok {
		return nd{}, false
	}
	if depth == 0 {
		n := nd{pos: []float64{}}
		for _, x := range a {
			f, ok := x.(float64)
			if !ok {
				return n, false
			}
			n.pos = append(n.pos, f)
		}
		dims[len(a)] = true
		return n, len(a) >= 2
	}
	n := nd{kids: []nd{}}
	for _, x := range a {
		k, ok := shapeOf(x, depth-1, dims)
		if !ok {
			return n, false
		}
		n.kids = append(n.kids, k)
	}
	return n, true
}

// prefixOf: g's coordinates are those of n, up to dropped surplus ordinates.
func (n nd) prefixOf(m nd) bool {
	if n.pos != nil {
		if len(n.pos) > len(m.pos) {
			return false
		}
		for i := range n.pos {
			if n.pos[i] != m.pos[i] {
				return false
			}
		}
		return true
	}
	if len(n.kids) != len(m.kids) {
		return false
	}
	for i := range n.kids {
		if !n.kids[i].prefixOf(m.kids[i]) {
			return false
		}
	}
	return true
}

func checkUnmarshalGeo(rt failer, c *Case, gj *geojson.GeoJson, label string) {
	var g geo.Geometry
	var err error
	if msg := noPanic(func() { g, err = geojson.UnmarshalGeo(gj) }); msg != "" {
		rt.Fatalf("UnmarshalGeo(%+v): %s", gj, msg)
	}
	if gj == nil {
		return
	}
	depth := map[string]int{"Point": 0, "LineString": 1, "Polygon": 2}
	d, ok := depth[gj.Type]
	if !ok {
		if err == nil {
			rt.Fatalf("UnmarshalGeo of type %q gives %T %v and no error", gj.Type, g, g)
		}
		c.L("%s: other type", label)
		return
	}
	dims := map[int]bool{}
	n, ok := shapeOf(gj.Coordinates, d, dims)
	if !ok {
		if err == nil {
			rt.Fatalf("UnmarshalGeo accepts malformed %s coordinates %v as %T %v", gj.Type, gj.Coordinates, g, g)
		}
		c.L("%s: malformed", label)
		return
	}
	c.L("%s: well-formed", label)
	clean := len(dims) == 1 && (dims[2] || dims[3])
	if err != nil {
		if clean {
			rt.Fatalf("UnmarshalGeo rejects well-formed %s coordinates %v: %v", gj.Type, gj.Coordinates, err)
		}
		return // empty parts, surplus ordinates and mixed dimensions are left open
	}
	_, name, got := neutral(g)
	if name != gj.Type || !got.prefixOf(n) || clean && !got.equal(n) {
		rt.Fatalf("UnmarshalGeo of %s %v gives %T %v", gj.Type, gj.Coordinates, g, g)
	}
}

// genNearName changes a type name a little.
func genNearName(rt *rapid.T, s string) string {
	switch ir(rt, 0, 9, "namechange") {
	case 0:
		return s + pick(rt, "suffix", " ", "\n", "\t", "Z", "M", "s", "\x00", "\u00a0", "ZM", "\ufeff")
	case 1:
		return pick(rt, "prefix", " ", "\n", "Multi", "Line", "geo", "\x00", "\ufeff", "Geometry") + s
	case 2:
		return strings.ToLower(s)
	case 3:
		return strings.ToUpper(s)
	case 4:
		return strings.ToLower(s[:1]) + s[1:]
	case 5:
		return s[:ir(rt, 0, len(s)-1, "cut")]
	case 6:
		return pick(rt, "kind", "LinearRing", "Linestring", "Line", "LineString Z", "Point Z", "Circle", "Curve", "Surface", "Triangle", "Feature", "Geometry", "Position")
	case 7:
		i := ir(rt, 0, len(s)-1, "swap")
		return s[:i] + string(s[i]^0x20) + s[i+1:]
	case 8:
		i := ir(rt, 0, len(s), "gap")
		return s[:i] + pick(rt, "gapby", " ", "_", "-", ".") + s[i:]
	}
	return s[1:]
}

// One damaged place in otherwise well-formed coordinates, which may be long.
func TestC08_OneDamage(t *testing.T) {
	run(t, 1000, "well-formed Point, LineString or Polygon coordinates, at times with hundreds of positions or dozens of rings, in which one randomly chosen element (an ordinate, a position or a ring) is damaged; non-trivial: there are at least two positions", func(rt *rapid.T, c *Case) {
		typ := pick(rt, "type", "Point", "LineString", "LineString", "Polygon", "Polygon", "Polygon")
		dim := ir(rt, 2, 3, "dim")
		pos := func() []any {
			a := []any{}
			for i := 0; i < dim; i++ {
				a = append(a, float64(ir(rt, -9, 9, "v")))
			}
			return a
		}
		line := func(n int) []any {
			a := []any{}
			for i := 0; i < n; i++ {
				if i < 8 {
					a = append(a, pos())
				} else { // long ones need no further choices
					a = append(a, append([]any{float64(i)}, make([]any, 0, 2)...))
					for j := 1; j < dim; j++ {
						a[i] = append(a[i].([]any), float64(i%7-j))
					}
				}
			}
			return a
		}
		var v []any
		n := sz(rt, "n", 1, 2, 3, 5, 9)
		if ir(rt, 0, 5, "long") == 0 {
			n = sz(rt, "longn", 20, 70, 300, 700)
		}
		switch typ {
		case "Point":
			v, n = pos(), 1
		case "LineString":
			v = line(n)
		default:
			for k := pickb(rt, "rings", 60, 1, 2, 3, 4); k > 0; k-- {
				v = append(v, line(n))
			}
			n *= len(v)
		}
		bad := v // descend to the list whose element is damaged
		for {
			if _, ok := bad[0].([]any); !ok || bl(rt, "stop") {
				break
			}
			bad = bad[ir(rt, 0, len(bad)-1, "descend")].([]any)
		}
		i := ir(rt, 0, len(bad)-1, "damaged")
		switch s, isList := bad[i].([]any); {
		case !isList:
			bad[i] = pick[any](rt, "badord", nil, "1", true, "", map[string]any{}, []any{}, []any{1.0})
		default:
			inner, nested := s[0].([]any)
			switch pick(rt, "badlist", 0, 1, 2, 3, 4, 5, 5, 5, 6, 6) {
			case 0:
				bad[i] = nil
			case 1:
				bad[i] = s[0]
			case 2:
				bad[i] = []any{s}
			case 3:
				bad[i] = map[string]any{"0": s}
			case 4:
				bad[i] = []any{}
			case 5:
				if nested {
					bad[i] = inner
				} else {
					bad[i] = s[:len(s)-1]
				}
			case 6:
				if nested {
					bad[i] = append(append([]any{}, s...), s)
				} else {
					bad[i] = append(append([]any{}, s...), 5.0)
				}
			}
		}
		if n <= 12 {
			c.D("%s %#v", typ, v)
		} else {
			c.D("%s of %d positions, damage at %d of %d to %#v", typ, n, i, len(bad), bad[i])
		}
		c.NT(n > 1)
		checkUnmarshalGeo(rt, c, &geojson.GeoJson{Type: typ, Coordinates: v}, typ)
	})
}

func TestC08_Coordinates(t *testing.T) {
	run(t, 2500, "GeoJSON object of a random type with coordinates that are mostly well-formed with local damage, or random JSON; non-trivial: coordinates are an array", func(rt *rapid.T, c *Case) {
		typ := pick(rt, "type", "Point", "LineString", "Polygon", "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection", "", "near")
		near := ""
		if typ == "near" { // a name that is almost one
			near = pick(rt, "neartype", "Point", "LineString", "Polygon")
			typ = genNearName(rt, near)
		}
		d := map[string]int{"Point": 0, "LineString": 1, "Polygon": 2, "MultiPoint": 1, "MultiLineString": 2, "MultiPolygon": 3}[typ]
		if near != "" {
			d = map[string]int{"Point": 0, "LineString": 1, "Polygon": 2}[near]
		}
		if ir(rt, 0, 9, "offdepth") == 0 {
			d = ir(rt, 0, 3, "depth")
		}
		v := genCoords(rt, d, ir(rt, 2, 3, "dim"))
		gj := &geojson.GeoJson{Type: typ, Coordinates: v}
		if ir(rt, 0, 3, "viajson") == 0 { // through the JSON decoder
			b, err := json.Marshal(map[string]any{"type": typ, "coordinates": v})
			if err != nil {
				rt.Skip(err)
			}
			gj = &geojson.GeoJson{}
			if err := json.Unmarshal(b, gj); err != nil {
				rt.Fatalf("%v", err)
			}
		}
		c.D("%s %#v", typ, gj.Coordinates)
		_, isArr := gj.Coordinates.([]any)
		c.NT(isArr)
		checkUnmarshalGeo(rt, c, gj, typ)
	})
}

var jsonTokens = []string{"{", "}", "[", "]", ",", ":", "null", "true", "1", "-0", "1e999", "\"\"", "\"type\"", "\"Feature\"", "\"FeatureCollection\"", "\"Point\"", "\"Polygon\"", "\"LineString\"", "\"coordinates\":", "\"features\":[null]", "\"geometry\":null", "\"geometry\":{}", "\"properties\":", "\"bbox\":[1,2]", "\"crs\":{}", "[[", "]]", "[1,2]", "[1,2,3]", "[[1]]", "\\u0000", "\xff", " ", "\n"}

func TestC08_Documents(t *testing.T) {
	run(t, 2000, "bytes: an encoded Feature, FeatureCollection or bare geometry mutated 0..5 times, a JSON document assembled from members with random values, a token soup or random bytes; non-trivial: the bytes are a JSON object", func(rt *rapid.T, c *Case) {
		var s string
		mk := func() string {
			switch ir(rt, 0, 3, "what") {
			case 0:
				b, _ := json.Marshal(genFeature(rt, nil))
				return string(b)
			case 1:
				b, _ := json.Marshal(genFC(rt))
				return string(b)
			case 2:
				b, _ := geojson.MarshalGeo(genAnyGeom(rt))
				return string(b)
			}
			m := map[string]any{}
			for _, k := range []string{"type", "id", "bbox", "geometry", "properties", "features", "crs", "coordinates", "geometries"} {
				if bl(rt, "has") {
					m[k] = genJSONValue(rt, 3)
				}
			}
			m["type"] = pick[any](rt, "t", "Feature", "FeatureCollection", "Point", "LineString", "Polygon", 5.0, nil)
			geom := map[string]any{"type": pick[any](rt, "gt", "Point", "LineString", "Polygon", "MultiPoint", "x", 5.0, nil), "coordinates": genCoords(rt, ir(rt, 0, 2, "gd"), 2)}
			switch ir(rt, 0, 2, "place") {
			case 0:
				m["geometry"] = geom
			case 1:
				m["features"] = []any{map[string]any{"type": "Feature", "geometry": geom}, nil}
			}
			b, _ := json.Marshal(m)
			return string(b)
		}
		switch ir(rt, 0, 5, "src") {
		case 0:
			s = strings.Join(sliceOf(rt, "soup", 0, 15, func(rt *rapid.T) string { return pick(rt, "t", jsonTokens...) }), "")
		case 1:
			s = string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "bytes"))
		case 2, 3:
			s = mk()
		default:
			s = genMutated(rt, mk(), jsonTokens)
		}
		c.D("%q", s)
		var m map[string]any
		c.NT(json.Unmarshal([]byte(s), &m) == nil)
		checkDoc(rt, c, s)
	})
}

func checkDoc(rt failer, c *Case, s string) {
	data := []byte(s)
	if msg := noPanic(func() {
		f, err := geojson.UnmarshalFeature(data)
		if err == nil {
			if f == nil {
				rt.Fatalf("UnmarshalFeature(%q) returns neither feature nor error", s)
			}
			checkUnmarshalGeo(rt, c, f.GeometryJson, "feature")
			_, _ = json.Marshal(f)
			f.SetBoundingBox()
			f.PropertyMustInt("a")
			_ = f.PropertyMustString("b")
		}
	}); msg != "" {
		rt.Fatalf("UnmarshalFeature(%q): %s", s, msg)
	}
	if msg := noPanic(func() {
		fc, err := geojson.UnmarshalFeatureCollection(data)
		if err == nil {
			if fc == nil {
				rt.Fatalf("UnmarshalFeatureCollection(%q) returns neither collection nor error", s)
			}
			for _, f := range fc.Features {
				if f != nil {
					checkUnmarshalGeo(rt, c, f.GeometryJson, "collection")
				}
			}
			_, _ = json.Marshal(fc)
		}
	}); msg != "" {
		rt.Fatalf("UnmarshalFeatureCollection(%q): %s", s, msg)
	}
	var gj geojson.GeoJson
	if err := json.Unmarshal(data, &gj); err == nil {
		checkUnmarshalGeo(rt, c, &gj, "bare")
	}
	if string(data) != s {
		rt.Fatalf("decoding changed its input")
	}
}

func FuzzC08(f *testing.F) {
	for _, s := range []string{`{"type":"Feature","id":"a","bbox":[1,2,3,4],"geometry":{"type":"Point","coordinates":[1,2]},"properties":{"a":1}}`,
		`{"type":"FeatureCollection","features":[{"type":"Feature","geometry":{"type":"LineString","coordinates":[[1,2],[3,4]]},"properties":null},null]}`,
		`{"type":"Polygon","coordinates":[[[0,0,1],[4,0,1],[4,4,1],[0,0,1]],[[1,1,1],[2,1,1],[2,2,1],[1,1,1]]]}`, `{"type":"Point","coordinates":[1]}`, `{"type":"LineString","coordinates":[[1,2],3]}`,
		`{"type":"MultiPoint","coordinates":[[1,2]]}`, `null`, `[]`, `{"geometry":null}`, `{"type":"Feature","geometry":{"type":"Polygon","coordinates":[]},"crs":{"a":{}}}`} {
		f.Add([]byte(s))
	}
	f.Fuzz(func(t *testing.T, b []byte) { checkDoc(t, &Case{}, string(b)) })
}

func TestC08_Regress(t *testing.T) {
	for _, s := range []string{`{"type":"Point","coordinates":[1]}`, `{"type":"Point"}`, `{"type":"Point","coordinates":null}`, `{"type":"LineString","coordinates":[1,2]}`, `{"type":"LineString","coordinates":[[1,2],[1]]}`, `{"type":"LineString","coordinates":[[1,2,3],[1,2]]}`, `{"type":"Polygon","coordinates":[[1,2]]}`, `{"type":"Polygon","coordinates":"x"}`} {
		var gj geojson.GeoJson
		if err := json.Unmarshal([]byte(s), &gj); err != nil {
			t.Fatal(err)
		}
		if msg := noPanic(func() {
			if g, err := geojson.UnmarshalGeo(&gj); err == nil {
				t.Errorf("%s decodes to %v", s, g)
			}
		}); msg != "" {
			t.Errorf("%s: %s", s, msg)
		}
	}
	if msg := noPanic(func() { _, _ = geojson.UnmarshalGeo(nil) }); msg != "" {
		t.Error(msg)
	}
}

// ---- C09 ----

func genJSONProp(rt *rapid.T, depth int) any {
	k := ir(rt, 0, 7, "pk")
	if depth <= 0 && k > 4 {
		k -= 4
	}
	switch k {
	case 0:
		return rapid.String().Draw(rt, "s")
	case 1:
		return genCoord(rt, "f")
	case 2:
		return bl(rt, "b")
	case 3:
		return nil
	case 4:
		return pick(rt, "html", "<a&b>", "\u2028", "\"\\", "名称")
	case 5, 6:
		a := []any{}
		for i := irb(rt, 0, 3, 20, "an"); i > 0; i-- {
			a = append(a, genJSONProp(rt, depth-1))
		}
		return a
	}
	return genJSONMap(rt, depth-1)
}

func genJSONMap(rt *rapid.T, depth int) map[string]any {
	m := map[string]any{}
	for i := irb(rt, 0, 3, 20, "mn"); i > 0; i-- {
		m[pick(rt, "key", "a", "b", "name", "type", "", "<k>", "键", "k"+strconv.Itoa(i), strings.Repeat("long ", i))] = genJSONProp(rt, depth)
	}
	return m
}

func genFeature(rt *rapid.T, g geo.Geometry) *geojson.Feature {
	anon := g == nil
	if anon {
		g = genAnyGeomOpen(rt)
	}
	if g != nil && ir(rt, 0, 11, "nogeom") == 0 && anon {
		g = nil
	}
	f := geojson.NewFeature(g)
	switch ir(rt, 0, 4, "id") {
	case 0:
		f.ID = rapid.String().Draw(rt, "sid")
	case 1:
		f.ID = float64(ir(rt, -3, 1000000, "nid"))
		if bl(rt, "oddid") {
			f.ID = pick[any](rt, "anyid", 1e15, 9007199254740991.0, 9007199254740993.0, -1e18, 12345678901234567.0, 0.5, 1e21, 1e-7, math.MaxFloat64, 16777217.0, "0", "null", " a ", "00012", "1e5", "\u2028<&>")
		}
	case 2:
		f.ID = ""
	}
	switch ir(rt, 0, 3, "bbox") {
	case 0:
		f.BoundingBox = genBBox(rt)
	case 1:
		f.BoundingBox = []float64{}
	}
	if bl(rt, "props") {
		for k, v := range genJSONMap(rt, 2) {
			f.SetProperty(k, v)
		}
	} else if bl(rt, "nilprops") {
		f.Properties = nil
	}
	switch ir(rt, 0, 3, "crs") {
	case 0:
		f.CRS = genJSONMap(rt, 2)
	case 1:
		f.CRS = map[string]any{"type": "name", "properties": map[string]any{"name": "EPSG:4326"}}
	}
	return f
}

// genBBox draws the numbers of a 2-D or 3-D bounding box (or of a malformed one: they are carried, not interpreted).
func genBBox(rt *rapid.T) []float64 {
	n := pick(rt, "bboxn", 4, 4, 6, 6, 1, 8)
	return sliceOf(rt, "bboxv", n, n, func(rt *rapid.T) float64 { return genCoord(rt, "") })
}

func genFC(rt *rapid.T) *geojson.FeatureCollection {
	fc := geojson.NewFeatureCollection()
	for i := pickb(rt, "nf", 60, 0, 1, 2, 3, 6); i > 0; i-- {
		if n := len(fc.Features); n > 0 && ir(rt, 0, 5, "samefeature") == 0 { // a feature may occur several times
			fc.AddFeature(fc.Features[pick(rt, "which", 0, n-1)])
			continue
		}
		fc.AddFeature(genFeature(rt, nil))
	}
	if bl(rt, "fcbox") {
		fc.BoundingBox = genBBox(rt)
	}
	if bl(rt, "fccrs") {
		fc.CRS = genJSONMap(rt, 1)
	}
	if len(fc.Features) == 0 && bl(rt, "nilfs") {
		fc.Features = nil
	}
	return fc
}

// norm turns a Go value into what generic JSON decoding gives for it.
func norm(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	var out any
	if err := json.Unmarshal(b, &out); err != nil {
		return err.Error()
	}
	return out
}

func emptyMap(m map[string]any) bool { return len(m) == 0 }

func eqBits(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

// sameFeature compares a decoded feature with the one that was encoded.
func sameFeature(got, want *geojson.Feature) string {
	if got == nil {
		return "feature is missing"
	}
	if got.Type != "Feature" {
		return "type is " + got.Type
	}
	if !reflect.DeepEqual(norm(got.ID), norm(want.ID)) || (got.ID == nil) != (want.ID == nil) {
		return fmt.Sprintf("id is %v, want %v", got.ID, want.ID)
	}
	if !eqBits(got.BoundingBox, want.BoundingBox) {
		return fmt.Sprintf("bbox is %v, want %v", got.BoundingBox, want.BoundingBox)
	}
	if !(emptyMap(got.Properties) && emptyMap(want.Properties)) && !reflect.DeepEqual(norm(got.Properties), norm(want.Properties)) {
		return fmt.Sprintf("properties are %v, want %v", got.Properties, want.Properties)
	}
	if !(emptyMap(got.CRS) && emptyMap(want.CRS)) && !reflect.DeepEqual(norm(got.CRS), norm(want.CRS)) {
		return fmt.Sprintf("crs is %v, want %v", got.CRS, want.CRS)
	}
	if want.Geometry == nil {
		if got.GeometryJson != nil {
			return fmt.Sprintf("geometry is %v, want none", got.GeometryJson)
		}
		return ""
	}
	if got.GeometryJson == nil {
		return "geometry is missing"
	}
	_, name, n := neutral(want.Geometry)
	if got.GeometryJson.Type != name {
		return fmt.Sprintf("geometry type is %q, want %q", got.GeometryJson.Type, name)
	}
	k, ok := shapeOf(got.GeometryJson.Coordinates, n.depth()-1, map[int]bool{})
	if !ok || !k.equal(n) {
		return fmt.Sprintf("coordinates are %v, want those of %v", got.GeometryJson.Coordinates, want.Geometry)
	}
	if !isMulti(want.Geometry) {
		g, err := geojson.UnmarshalGeo(got.GeometryJson)
		if err != nil || !sameGeom(g, want.Geometry) {
			return fmt.Sprintf("geometry is %T %v (%v), want %v", g, g, err, want.Geometry)
		}
	}
	return ""
}

func featureMembers(m map[string]any, f *geojson.Feature) string {
	want := map[string]bool{"type": true, "geometry": true, "properties": true, "id": f.ID != nil, "bbox": len(f.BoundingBox) > 0, "crs": len(f.CRS) > 0}
	for k, on := range want {
		if _, has := m[k]; has != on {
			return fmt.Sprintf("member %q present: %v, want %v", k, has, on)
		}
	}
	for k := range m {
		if _, known := want[k]; !known {
			return fmt.Sprintf("unexpected member %q", k)
		}
	}
	if m["type"] != "Feature" {
		return fmt.Sprintf("type is %v", m["type"])
	}
	if (m["geometry"] == nil) != (f.Geometry == nil) {
		return fmt.Sprintf("geometry is %v, want that of %v", m["geometry"], f.Geometry)
	}
	return ""
}

// cloneAny copies a value made of JSON's kinds (and of the other kinds a property can have), maps and slices included.
func cloneAny(v any) any {
	switch v := v.(type) {
	case map[string]any:
		return cloneMap(v)
	case []any:
		if v == nil {
			return v
		}
		out := make([]any, len(v))
		for i := range v {
			out[i] = cloneAny(v[i])
		}
		return out
	case []float64:
		return append([]float64(nil), v...)
	}
	return v
}

func cloneMap(m map[string]any) map[string]any {
	if m == nil {
		return nil
	}
	out := map[string]any{}
	for k, v := range m {
		out[k] = cloneAny(v)
	}
	return out
}

// cloneFeature copies a feature, so that what is expected of its encoding does not change with it.
func cloneFeature(f *geojson.Feature) *geojson.Feature {
	out := *f
	out.BoundingBox = append([]float64(nil), f.BoundingBox...)
	out.Properties, out.CRS = cloneMap(f.Properties), cloneMap(f.CRS)
	out.Geometry = cloneGeom(f.Geometry)
	return &out
}

// cloneGeom copies a geometry with all its points.
func cloneGeom(g geo.Geometry) geo.Geometry {
	if g == nil {
		return nil
	}
	return deepCopy(reflect.ValueOf(g)).Interface().(geo.Geometry)
}

func deepCopy(v reflect.Value) reflect.Value {
	if v.Kind() != reflect.Slice || v.IsNil() {
		return v
	}
	out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
	for i := 0; i < v.Len(); i++ {
		out.Index(i).Set(deepCopy(v.Index(i)))
	}
	return out
}

// unchanged tells how a feature differs from an earlier copy of it.
func unchanged(f, was *geojson.Feature) string {
	switch {
	case f.Type != was.Type, !sameValue(f.ID, was.ID):
		return fmt.Sprintf("id or type was %v %v, now %v %v", was.ID, was.Type, f.ID, f.Type)
	case !eqBits(f.BoundingBox, was.BoundingBox):
		return fmt.Sprintf("bbox was %v, now %v", was.BoundingBox, f.BoundingBox)
	case !reflect.DeepEqual(f.Properties, was.Properties):
		return fmt.Sprintf("properties were %v, now %v", was.Properties, f.Properties)
	case !reflect.DeepEqual(f.CRS, was.CRS):
		return fmt.Sprintf("crs was %v, now %v", was.CRS, f.CRS)
	case (f.Geometry == nil) != (was.Geometry == nil) || f.Geometry != nil && !sameGeom(f.Geometry, was.Geometry):
		return fmt.Sprintf("geometry was %v, now %v", was.Geometry, f.Geometry)
	}
	return ""
}

func TestC09_Feature(t *testing.T) {
	run(t, 700, "feature over a random geometry of the 12 types, optional id/bbox/crs, random nested properties; non-trivial: properties or an optional member set", func(rt *rapid.T, c *Case) {
		f := genFeature(rt, nil)
		if ir(rt, 0, 2, "lit") == 0 { // assembled by hand, with whatever Type says
			f = &geojson.Feature{ID: f.ID, BoundingBox: f.BoundingBox, GeometryJson: f.GeometryJson, Properties: f.Properties, CRS: f.CRS, Geometry: f.Geometry, Type: pick(rt, "ty", "Feature", "")}
		}
		c.D("%T %v id=%#v bbox=%v props=%#v crs=%#v", f.Geometry, f.Geometry, f.ID, f.BoundingBox, f.Properties, f.CRS)
		c.NT(f.ID != nil || len(f.BoundingBox) > 0 || len(f.Properties) > 0 || len(f.CRS) > 0)
		c.L("%T", f.Geometry)
		enc := f
		f = cloneFeature(f)
		b, err := json.Marshal(enc)
		if err != nil {
			rt.Fatalf("encoding: %v", err)
		}
		bv, err := json.Marshal(*enc)
		if err != nil || string(bv) != string(b) {
			rt.Fatalf("value and pointer encode differently: %s / %s (%v)", b, bv, err)
		}
		if msg := unchanged(enc, f); msg != "" {
			rt.Fatalf("encoding changes the feature: %s", msg)
		}
		m, err := genericJSON(b)
		if err != nil {
			rt.Fatalf("%v", err)
		}
		if msg := featureMembers(m, f); msg != "" {
			rt.Fatalf("%s: %s", b, msg)
		}
		back, err := geojson.UnmarshalFeature(b)
		if err != nil {
			rt.Fatalf("decoding %s: %v", b, err)
		}
		if msg := sameFeature(back, f); msg != "" {
			rt.Fatalf("%s: %s", b, msg)
		}
		b2, err := json.Marshal(back)
		if err != nil || string(b2) != string(b) {
			rt.Fatalf("encoding the decoded feature gives %s instead of %s (%v)", b2, b, err)
		}
	})
}

func TestC09_SetBoundingBox(t *testing.T) {
	run(t, 400, "feature over a geometry of the 12 types; SetBoundingBox, encode; non-trivial: more than one vertex", func(rt *rapid.T, c *Case) {
		g := genLatGeom(rt, genLat(rt), ir(rt, 0, 5, "gk"))
		f := genFeature(rt, g)
		c.D("%T %v", g, g)
		c.NT(len(vertices2(g)) > 1)
		if ir(rt, 0, 2, "decoded") == 0 && !isMulti(g) { // a decoded feature holds its geometry as JSON only
			b, err := json.Marshal(f)
			if err != nil {
				rt.Fatalf("%v", err)
			}
			if f, err = geojson.UnmarshalFeature(b); err != nil {
				rt.Fatalf("%v", err)
			}
			c.L("decoded")
		}
		f.SetBoundingBox()
		e := envelope(g)
		want := []float64{e.MinX, e.MinY, e.MaxX, e.MaxY}
		b, err := json.Marshal(f)
		if err != nil {
			rt.Fatalf("%v", err)
		}
		m, _ := genericJSON(b)
		n, err := jsonNd(m["bbox"])
		if err != nil || len(n.pos) != 4 {
			rt.Fatalf("no bbox of four numbers in %s", b)
		}
		for i := range want {
			if n.pos[i] != want[i] {
				rt.Fatalf("bbox %v, want %v", n.pos, want)
			}
		}
	})
}

func TestC09_Collection(t *testing.T) {
	run(t, 350, "collection of 0..6 random features with optional bbox and crs; non-trivial: two or more features", func(rt *rapid.T, c *Case) {
		fc := genFC(rt)
		c.D("%d features bbox=%v crs=%#v nil=%v", len(fc.Features), fc.BoundingBox, fc.CRS, fc.Features == nil)
		for _, f := range fc.Features {
			c.D("{%T %v %#v %#v}", f.Geometry, f.Geometry, f.ID, f.Properties)
		}
		c.NT(len(fc.Features) > 1)
		enc := *fc
		fc = &geojson.FeatureCollection{Type: fc.Type, BoundingBox: append([]float64(nil), fc.BoundingBox...), CRS: cloneMap(fc.CRS)}
		for _, f := range enc.Features {
			fc.Features = append(fc.Features, cloneFeature(f))
		}
		b, err := json.Marshal(&enc)
		if err != nil {
			rt.Fatalf("encoding: %v", err)
		}
		m, err := genericJSON(b)
		if err != nil {
			rt.Fatalf("%v", err)
		}
		fs, ok := m["features"].([]any)
		if m["type"] != "FeatureCollection" || !ok || len(fs) != len(fc.Features) {
			rt.Fatalf("%s has type %v and %d features, want %d", b, m["type"], len(fs), len(fc.Features))
		}
		for k, on := range map[string]bool{"bbox": len(fc.BoundingBox) > 0, "crs": len(fc.CRS) > 0} {
			if _, has := m[k]; has != on {
				rt.Fatalf("member %q present: %v, want %v", k, has, on)
			}
		}
		for i := range fs {
			fm, _ := fs[i].(map[string]any)
			if msg := featureMembers(fm, fc.Features[i]); msg != "" {
				rt.Fatalf("feature %d of %s: %s", i, b, msg)
			}
		}
		back, err := geojson.UnmarshalFeatureCollection(b)
		if err != nil {
			rt.Fatalf("decoding %s: %v", b, err)
		}
		if back.Type != "FeatureCollection" || len(back.Features) != len(fc.Features) || !eqBits(back.BoundingBox, fc.BoundingBox) {
			rt.Fatalf("decoded collection: type %q, %d features, bbox %v", back.Type, len(back.Features), back.BoundingBox)
		}
		if !(emptyMap(back.CRS) && emptyMap(fc.CRS)) && !reflect.DeepEqual(norm(back.CRS), norm(fc.CRS)) {
			rt.Fatalf("crs is %v, want %v", back.CRS, fc.CRS)
		}
		for i := range fc.Features {
			if msg := sameFeature(back.Features[i], fc.Features[i]); msg != "" {
				rt.Fatalf("feature %d of %s: %s", i, b, msg)
			}
		}
		b2, err := json.Marshal(back)
		if err != nil || string(b2) != string(b) {
			rt.Fatalf("encoding the decoded collection gives %s instead of %s (%v)", b2, b, err)
		}
		for i := range fc.Features {
			if msg := unchanged(enc.Features[i], fc.Features[i]); msg != "" {
				rt.Fatalf("encoding changes feature %d: %s", i, msg)
			}
		}
		if !eqBits(enc.BoundingBox, fc.BoundingBox) || !reflect.DeepEqual(enc.CRS, fc.CRS) {
			rt.Fatalf("encoding changes the collection's bbox or crs")
		}
	})
}

func TestC09_Regress(t *testing.T) {
	f := geojson.NewFeature(geo.Point{X: 1, Y: 2})
	f.SetBoundingBox()
	if !reflect.DeepEqual(f.BoundingBox, []float64{1, 2, 1, 2}) {
		t.Fatalf("bbox %v", f.BoundingBox)
	}
	f = geojson.NewFeature(nil)
	if b, err := json.Marshal(f); err != nil || !strings.Contains(string(b), `"geometry":null`) {
		t.Fatalf("a feature without geometry is encoded as %s (%v)", b, err)
	}
	f.SetBoundingBox()
	if len(f.BoundingBox) != 0 {
		t.Fatalf("a feature without geometry has the bounding box %v", f.BoundingBox)
	}
}

// ---- C10 ----

// sameValue is reflect.DeepEqual with floats compared by their bits.
func sameValue(a, b any) bool {
	x, ok := a.(float64)
	y, ok2 := b.(float64)
	if ok && ok2 {
		return math.Float64bits(x) == math.Float64bits(y)
	}
	return reflect.DeepEqual(a, b)
}

func TestC10_Properties(t *testing.T) {
	run(t, 1200, "1..12 random writes of bool/int/float/string/other values over few keys, all typed and defaulting reads of every key after each; non-trivial: a key is overwritten with another type", func(rt *rapid.T, c *Case) {
		f := geojson.NewFeature(geo.Point{})
		switch ir(rt, 0, 5, "from") {
		case 0, 1:
			f = &geojson.Feature{}
		case 2:
			f = genFeature(rt, nil)
		case 3:
			b, err := genFeature(rt, geo.LineString{{X: 1, Y: 2}, {X: 3.5, Y: 4}}).MarshalJSON()
			if err == nil {
				f, err = geojson.UnmarshalFeature(b)
			}
			if err != nil {
				rt.Fatalf("%s: %v", b, err)
			}
		}
		model := map[string]any{}
		keys := []string{"missing", "a", "b", "", "键"}
		for k, v := range f.Properties {
			model[k] = v
			keys = append(keys, k)
		}
		sort.Strings(keys[5:])
		for i := ir(rt, 0, 2, "newkeys"); i > 0; i-- {
			keys = append(keys, rapid.String().Draw(rt, "newkey"))
		}
		if ir(rt, 0, 7, "manykeys") == 3 {
			for i := 0; i < 30; i++ {
				keys = append(keys, "k"+strconv.Itoa(i), strings.Repeat("long key ", i+1)+"x")
			}
		}
		c.D("nil=%v %v id=%#v bbox=%v crs=%v", f.Properties == nil, f.Geometry, f.ID, f.BoundingBox, f.CRS)
		rest := *f
		rest.Properties = nil
		restText := show(rest)
		retyped := false
		check := func() {
			for _, k := range keys {
				v, has := model[k]
				wb, isB := v.(bool)
				ws, isS := v.(string)
				wf, isF := v.(float64)
				wi, isI := v.(int)
				if isF {
					wi = int(wf)
				}
				defB, defI, defF, defS := bl(rt, "db"), ir(rt, -9, 9, "di"), float64(ir(rt, -9, 9, "df"))/2, pick(rt, "ds", "", "x", "def")
				b, err := f.PropertyBool(k)
				if (err == nil) != isB || isB && b != wb {
					rt.Fatalf("PropertyBool(%q) = %v, %v; stored %#v", k, b, err, v)
				}
				s, err := f.PropertyString(k)
				if (err == nil) != isS || isS && s != ws {
					rt.Fatalf("PropertyString(%q) = %q, %v; stored %#v", k, s, err, v)
				}
				x, err := f.PropertyFloat64(k)
				if (err == nil) != isF || isF && math.Float64bits(x) != math.Float64bits(wf) {
					rt.Fatalf("PropertyFloat64(%q) = %v, %v; stored %#v", k, x, err, v)
				}
				i, err := f.PropertyInt(k)
				wild := isF && !(math.Abs(wf) < 1<<62) // no integer: only that it is read, and read the same
				if wild {
					wi = i
				}
				if (err == nil) != (isI || isF) || (isI || isF) && i != wi {
					rt.Fatalf("PropertyInt(%q) = %v, %v; stored %#v", k, i, err, v)
				}
				or := func(is bool, v, d any) any {
					if is {
						return v
					}
					return d
				}
				exp := []any{or(isB, wb, defB), or(isB, wb, false), or(isI || isF, wi, defI), or(isI || isF, wi, 0), or(isF, wf, defF), or(isF, wf, 0.0), or(isS, ws, defS), or(isS, ws, "")}
				got := []any{f.PropertyMustBool(k, defB), f.PropertyMustBool(k), f.PropertyMustInt(k, defI), f.PropertyMustInt(k), f.PropertyMustFloat64(k, defF), f.PropertyMustFloat64(k), f.PropertyMustString(k, defS), f.PropertyMustString(k)}
				for j := range exp {
					if !sameValue(exp[j], got[j]) {
						rt.Fatalf("defaulting read %d of %q = %#v, want %#v; stored %#v (present %v)", j, k, got[j], exp[j], v, has)
					}
				}
			}
			rest := *f
			rest.Properties = nil
			if t := show(rest); t != restText {
				rt.Fatalf("the other fields of the feature changed from %s to %s", restText, t)
			}
			if len(f.Properties) != len(model) {
				rt.Fatalf("%d properties, want %d", len(f.Properties), len(model))
			}
			for k, v := range model {
				if !sameValue(f.Properties[k], v) {
					rt.Fatalf("property %q is %#v, want %#v", k, f.Properties[k], v)
				}
			}
		}
		check()
		for n := irb(rt, 1, 12, 60, "n"); n > 0; n-- {
			k := pick(rt, "k", keys[1:]...)
			var v any
			switch ir(rt, 0, 11, "v") {
			case 9:
				v = rapid.Int().Draw(rt, "vany")
			case 10:
				v = genCoord(rt, "vcoord")
			case 11:
				v = rapid.String().Draw(rt, "vstr")
			case 0:
				v = bl(rt, "vb")
			case 1:
				v = pick(rt, "vi", 0, 1, -1, 7, math.MaxInt, math.MinInt)
			case 2:
				v = float64(ir(rt, -1000, 1000, "vf")) / 8
			case 3:
				v = pick(rt, "vff", 0.0, math.Copysign(0, -1), 0.999, -0.999, 1e15, -1e15, 2.5, 4503599627370495.5, 9007199254740991, 1e-300, math.Inf(1), math.Inf(-1), math.MaxFloat64, math.NaN())
			case 4:
				v = pick(rt, "vs", "", "x", "true", "1")
			case 5:
				v = nil
			case 6:
				v = pick[any](rt, "vo", int64(5), float32(2), uint(1), int8(1), []any{1}, []byte("x"), map[string]any{"a": 1}, json.Number("5"))
			case 7:
				v = float64(ir(rt, -1<<40, 1<<40, "big"))
			case 8:
				v = ir(rt, -100, 100, "vint")
			}
			if old, has := model[k]; has && reflect.TypeOf(old) != reflect.TypeOf(v) {
				retyped = true
			}
			c.D("%q=%#v", k, v)
			f.SetProperty(k, v)
			model[k] = v
			check()
		}
		c.NT(retyped)
	})
}

func TestC09_Large(t *testing.T) {
	run(t, 2, "a feature with a geometry of 200 to 10000 positions, and a collection of 100 to 3000 features; non-trivial: always", func(rt *rapid.T, c *Case) {
		f := geojson.NewFeature(genHuge(rt, ir(rt, 1, 11, "kind")))
		f.SetBoundingBox()
		c.NT(true)
		b, err := f.MarshalJSON()
		if err != nil {
			rt.Fatalf("MarshalJSON of a large feature: %v", err)
		}
		back, err := geojson.UnmarshalFeature(b)
		if err != nil {
			rt.Fatalf("a large feature does not decode: %v", err)
		}
		if s := sameFeature(back, f); s != "" {
			rt.Fatalf("a feature of %d bytes decodes differently: %.300s", len(b), s)
		}
		if b2, err := back.MarshalJSON(); err != nil || !bytes.Equal(b, b2) {
			rt.Fatalf("encoding the decoded feature of %d bytes gives other bytes (%v)", len(b), err)
		}
		fc := geojson.NewFeatureCollection()
		n := ir(rt, 100, 3000, "n")
		props := ir(rt, 0, 300, "props")
		for i := 0; i < n; i++ {
			g := geojson.NewFeature(geo.Point{X: float64(i), Y: float64(i*i%97) / 8})
			if i%3 == 0 {
				g.ID = "f" + strconv.Itoa(i)
			}
			if i == n-1 {
				for k := 0; k < props; k++ {
					g.SetProperty("p"+strconv.Itoa(k), k)
				}
			}
			fc.AddFeature(g)
		}
		c.D("%T, %d bytes; %d features, %d properties", f.Geometry, len(b), n, props)
		if b, err = fc.MarshalJSON(); err != nil {
			rt.Fatalf("MarshalJSON of %d features: %v", n, err)
		}
		got, err := geojson.UnmarshalFeatureCollection(b)
		if err != nil || len(got.Features) != n {
			rt.Fatalf("a collection of %d features decodes to %d (%v)", n, len(got.Features), err)
		}
		for i := range got.Features {
			if s := sameFeature(got.Features[i], fc.Features[i]); s != "" {
				rt.Fatalf("feature %d of %d: %.300s", i, n, s)
			}
		}
		if b2, err := got.MarshalJSON(); err != nil || !bytes.Equal(b, b2) {
			rt.Fatalf("encoding the decoded collection of %d features gives other bytes (%v)", n, err)
		}
	})
}

func TestC10_Large(t *testing.T) {
	run(t, 20, "50 to 2000 properties written, one in three written again; non-trivial: always", func(rt *rapid.T, c *Case) {
		f := geojson.NewFeature(geo.Point{})
		n := ir(rt, 50, 2000, "n")
		typ := ir(rt, 1, 4, "stride")
		c.D("%d properties, %d", n, typ)
		c.NT(true)
		val := func(i, round int) any {
			switch (i*typ + round) % 4 {
			case 0:
				return i + round
			case 1:
				return float64(i) + 0.5
			case 2:
				return "s" + strconv.Itoa(i+round)
			}
			return i%5 == round
		}
		model := map[string]any{}
		for round := 0; round < 2; round++ {
			for i := 0; i < n; i++ {
				if k := "k" + strconv.Itoa(i); round == 0 || i%3 == 0 {
					f.SetProperty(k, val(i, round))
					model[k] = val(i, round)
				}
			}
		}
		for k, v := range model {
			b, berr := f.PropertyBool(k)
			s, serr := f.PropertyString(k)
			x, xerr := f.PropertyFloat64(k)
			j, jerr := f.PropertyInt(k)
			bad := false
			switch v := v.(type) {
			case bool:
				bad = berr != nil || b != v || serr == nil || xerr == nil || jerr == nil || f.PropertyMustBool(k, !v) != v
			case string:
				bad = serr != nil || s != v || berr == nil || xerr == nil || jerr == nil || f.PropertyMustString(k, "def") != v
			case float64:
				bad = xerr != nil || x != v || jerr != nil || j != int(v) || berr == nil || serr == nil || f.PropertyMustFloat64(k, -1) != v
			case int:
				bad = jerr != nil || j != v || berr == nil || serr == nil || xerr == nil || f.PropertyMustInt(k, -1) != v
			}
			if bad {
				rt.Fatalf("of %d properties %q, last set to %#v, reads %v %v, %q %v, %v %v, %v %v", n, k, v, b, berr, s, serr, x, xerr, j, jerr)
			}
		}
		if len(f.Properties) != n || f.PropertyMustInt("absent", 7) != 7 {
			rt.Fatalf("%d properties, want %d", len(f.Properties), n)
		}
	})
}
