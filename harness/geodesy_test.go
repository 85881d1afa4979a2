package harness

import (
	"math"
	"strings"
	"testing"

	"github.com/golang/geo/s2"
	geo "github.com/hzw456/go-geo"
	"pgregory.net/rapid"
)

// ---- C28 UTM ----

// refTM projects with Krueger's series in the third flattening (order 6, exact to nanometres this near the meridian).
func refTM(lat, dlon float64) (x, y float64) {
	const a = 6378137.0
	const f = 1 / 298.257223563
	n := f / (2 - f)
	n2, n3, n4, n5, n6 := n*n, n*n*n, n*n*n*n, n*n*n*n*n, n*n*n*n*n*n
	A := a / (1 + n) * (1 + n2/4 + n4/64 + n6/256)
	al := []float64{0,
		n/2 - 2*n2/3 + 5*n3/16 + 41*n4/180 - 127*n5/288 + 7891*n6/37800,
		13*n2/48 - 3*n3/5 + 557*n4/1440 + 281*n5/630 - 1983433*n6/1935360,
		61*n3/240 - 103*n4/140 + 15061*n5/26880 + 167603*n6/181440,
		49561*n4/161280 - 179*n5/168 + 6601661*n6/7257600,
		34729*n5/80640 - 3418889*n6/1995840,
		212378941 * n6 / 319334400}
	e := math.Sqrt(f * (2 - f))
	phi, lam := lat*math.Pi/180, dlon*math.Pi/180
	tau := math.Tan(phi)
	sig := math.Sinh(e * math.Atanh(e*tau/math.Sqrt(1+tau*tau)))
	taup := tau*math.Sqrt(1+sig*sig) - sig*math.Sqrt(1+tau*tau)
	xi := math.Atan2(taup, math.Cos(lam))
	eta := math.Asinh(math.Sin(lam) / math.Hypot(taup, math.Cos(lam)))
	X, Y := eta, xi
	for j := 1; j <= 6; j++ {
		k := float64(2 * j)
		Y += al[j] * math.Sin(k*xi) * math.Cosh(k*eta)
		X += al[j] * math.Cos(k*xi) * math.Sinh(k*eta)
	}
	return 0.9996*A*X + 500000, 0.9996 * A * Y
}

// refZone returns the UTM zone, or 0 within 1e-9 of a border where both sides are right.
func refZone(lat, lon float64) (zone int, exception bool) {
	near := func(v, b float64) bool { return v != b && math.Abs(v-b) < 1e-9 }
	for _, b := range []float64{56, 64, 72} {
		if near(lat, b) {
			return 0, false
		}
	}
	if lat >= 56 && lat <= 64 && lon >= 3 && lon <= 12 {
		if lat == 64 || lon == 12 {
			return 0, false
		}
		return 32, true
	}
	if lat >= 72 && lon >= 0 && lon <= 42 {
		for i, b := range []float64{9, 21, 33, 42} {
			if lon == b {
				return 0, false
			}
			if lon < b {
				return 31 + 2*i, true
			}
		}
	}
	if lon != 0 && math.Abs(lon) < 1e-300 {
		return 0, false
	}
	if lon == 180 {
		return 1, false
	}
	return int(math.Floor(lon/6)) + 31, false
}

const bands = "CDEFGHJKLMNPQRSTUVWX"

func refBand(lat float64) string {
	i := 0
	for i < 19 && lat >= float64(8*(i+1)-80) {
		i++
	}
	return bands[i : i+1]
}

func genUTMPos(rt *rapid.T) (lat, lon float64) {
	switch ir(rt, 0, 5, "pk") {
	case 0: // zone and band borders, equator, limits
		lat, lon = float64(ir(rt, -10, 10, "b"))*8, float64(ir(rt, -30, 30, "z"))*6
		if bl(rt, "lim") {
			lat = pick(rt, "l", 84.0, -80, 0, math.Copysign(0, -1), -1e-12, 1e-12)
		}
	case 1: // Norway and Svalbard
		lat, lon = uf(rt, 54, 84, "ny"), uf(rt, -2, 44, "nx")
	case 2: // whole degrees
		lat, lon = float64(ir(rt, -80, 84, "iy")), float64(ir(rt, -180, 180, "ix"))
	case 3: // a few ulps, or a little, beside zone and band borders
		lat, lon = float64(ir(rt, -10, 10, "b"))*8, float64(ir(rt, -30, 30, "z"))*6
		lat = math.Min(84, math.Max(-80, beside(rt, lat)))
		lon = math.Min(180, math.Max(-180, beside(rt, lon)))
	default:
		lat, lon = uf(rt, -80, 84, "y"), uf(rt, -180, 180, "x")
	}
	return
}

// beside moves v by a few units in the last place, or by a little more, or not.
func beside(rt *rapid.T, v float64) float64 {
	switch ir(rt, 0, 3, "beside") {
	case 0:
		to := pick(rt, "side", -1e9, 1e9)
		for k := ir(rt, 1, 3, "ulps"); k > 0; k-- {
			v = math.Nextafter(v, to)
		}
	case 1:
		v += pick(rt, "side", -1.0, 1) * math.Pow(10, uf(rt, -14, -3, "little"))
	}
	return v
}

func TestC28_UTM(t *testing.T) {
	run(t, 4000, "positions over the whole valid range, at zone and band borders, in the exceptional zones, on the equator and the limits; non-trivial: not on a central meridian", func(rt *rapid.T, c *Case) {
		lat, lon := genUTMPos(rt)
		c.D("lat %v lon %v", lat, lon)
		hemi := bl(rt, "hemi")
		if err := geo.ValidateLatLone(lat, lon); err != nil {
			rt.Fatalf("valid position rejected: %v", err)
		}
		e, n, zone, letter, err := geo.FromLatLon(lat, lon, hemi)
		if err != nil {
			rt.Fatalf("FromLatLon: %v", err)
		}
		if zone < 1 || zone > 60 {
			rt.Fatalf("zone %d", zone)
		}
		wz, exc := refZone(lat, lon)
		if wz != 0 && zone != wz {
			rt.Fatalf("zone %d, want %d", zone, wz)
		}
		if exc {
			c.L("exceptional zone")
		}
		wl := refBand(lat)
		if hemi {
			wl = "N"
			if lat < 0 {
				wl = "S"
			}
		}
		if letter != wl {
			rt.Fatalf("letter %q, want %q", letter, wl)
		}
		cm := float64(zone*6 - 183)
		dl := lon - cm
		if dl > 180 {
			dl -= 360
		}
		c.NT(dl != 0)
		x, y := refTM(lat, dl)
		if lat < 0 {
			y += 1e7
		}
		if !closeTo(e, x, 0.002) || !closeTo(n, y, 0.002) {
			rt.Fatalf("easting/northing %v %v, true projection %v %v", e, n, x, y)
		}
		// back
		var la, lo float64
		if hemi {
			la, lo, err = geo.ToLatLon(e, n, zone, "", lat >= 0)
		} else {
			l := letter
			if bl(rt, "lower") {
				l = strings.ToLower(l)
			}
			la, lo, err = geo.ToLatLon(e, n, zone, l)
		}
		if n < 0 || n > 1e7 { // rounding at the equator
			return
		}
		if err != nil {
			rt.Fatalf("ToLatLon(%v, %v, %d, %s): %v", e, n, zone, letter, err)
		}
		d := math.Mod(lo-lon+540, 360) - 180
		ty, tx := 2e-8, 2e-8
		if exc || math.Abs(dl) > 3.001 {
			ty, tx = 2e-7, 2e-6
		}
		if !closeTo(la, lat, ty) || math.Abs(d) > tx {
			rt.Fatalf("back from UTM: %v %v, was %v %v", la, lo, lat, lon)
		}
	})
}

func TestC28_Reject(t *testing.T) {
	run(t, 2500, "positions and UTM values on and beyond every limit, all letters and hemisphere choices; non-trivial: one that must be rejected", func(rt *rapid.T, c *Case) {
		val := func(n string, lo, hi float64) float64 {
			switch ir(rt, 0, 9, n+"k") {
			case 0:
				return math.Nextafter(lo, math.Inf(-1))
			case 1:
				return math.Nextafter(hi, math.Inf(1))
			case 2:
				return lo
			case 3:
				return hi
			case 4:
				return pick(rt, n, math.NaN(), math.Inf(1), math.Inf(-1), 1e300)
			case 5:
				return lo - math.Pow(10, uf(rt, -6, 6, n))
			case 6:
				return hi + math.Pow(10, uf(rt, -6, 6, n))
			}
			return uf(rt, lo, hi, n)
		}
		lat, lon := val("lat", -80, 84), val("lon", -180, 180)
		ok := lat >= -80 && lat <= 84 && lon >= -180 && lon <= 180
		c.D("lat %v lon %v", lat, lon)
		_, _, z, _, err := geo.FromLatLon(lat, lon, bl(rt, "hemi"))
		if (err == nil) != ok || (geo.ValidateLatLone(lat, lon) == nil) != ok {
			rt.Fatalf("FromLatLon error %v, ValidateLatLone %v; valid: %v", err, geo.ValidateLatLone(lat, lon), ok)
		}
		if ok && (z < 1 || z > 60) {
			rt.Fatalf("zone %d", z)
		}
		e, n := val("e", 100000, 1000000), val("n", 0, 1e7)
		if bl(rt, "plain") {
			e, n = uf(rt, 166000, 834000, "pe"), uf(rt, 0, 9e6, "pn")
		}
		zone := ir(rt, -2, 63, "zone")
		if ir(rt, 0, 3, "okzone") > 0 {
			zone = ir(rt, 1, 60, "z")
		}
		letter := pick(rt, "letter", "", "N", "S", "A", "B", "C", "I", "O", "X", "Y", "Z", "c", "x", "i", "o", "a", "z", "0", "é", string(rune(ir(rt, 65, 90, "up"))), string(rune(ir(rt, 97, 122, "lo"))))
		var north []bool
		if letter == "" || ir(rt, 0, 7, "both") == 0 {
			if ir(rt, 0, 7, "none") > 0 {
				north = []bool{bl(rt, "north")}
			}
		}
		lok := strings.Contains(bands, strings.ToUpper(letter)) && letter != ""
		ok2 := e >= 100000 && e < 1000000 && n >= 0 && n <= 1e7 && zone >= 1 && zone <= 60 &&
			((letter == "") != (len(north) == 0)) && (letter == "" || lok)
		c.D("to: %v %v %d %q %v", e, n, zone, letter, north)
		la, lo, err := geo.ToLatLon(e, n, zone, letter, north...)
		if (err == nil) != ok2 {
			rt.Fatalf("ToLatLon error %v, valid: %v", err, ok2)
		}
		c.NT(!ok || !ok2)
		if ok2 && e > 166000 && e < 834000 && n < 9e6 && n > 1e6 && (math.IsNaN(la) || math.IsNaN(lo)) {
			rt.Fatalf("ToLatLon = %v %v", la, lo)
		}
	})
}

// ---- C29 Chinese datums ----

func refOut(lon, lat float64) bool {
	return !(lon > 73.66 && lon < 135.05 && lat > 3.86 && lat < 53.55)
}

// refW2G: the published offset polynomial (written from the formula, not from the code).
func refW2G(lon, lat float64) (float64, float64) {
	if refOut(lon, lat) {
		return lon, lat
	}
	dx, dy := refOffset(lon, lat)
	return lon + dx, lat + dy
}

func refOffset(lon, lat float64) (float64, float64) {
	const a, ee = 6378245.0, 0.00669342162296594323
	x, y := lon-105, lat-35
	s := func(k float64) float64 { return math.Sin(k * math.Pi) }
	common := 20*s(6*x) + 20*s(2*x)
	tx := 300 + x + 2*y + x*x/10 + x*y/10 + math.Sqrt(math.Abs(x))/10 + 2.0/3*(common+20*s(x)+40*s(x/3)+150*s(x/12)+300*s(x/30))
	ty := -100 + 2*x + 3*y + y*y/5 + x*y/10 + math.Sqrt(math.Abs(x))/5 + 2.0/3*(common+20*s(y)+40*s(y/3)+160*s(y/12)+320*s(y/30))
	phi := lat * math.Pi / 180
	w := 1 - ee*math.Sin(phi)*math.Sin(phi)
	return tx * 180 / (a / math.Sqrt(w) * math.Cos(phi) * math.Pi), ty * 180 / (a * (1 - ee) / (w * math.Sqrt(w)) * math.Pi)
}

func refG2B(lon, lat float64) (float64, float64) {
	const k = math.Pi * 3000 / 180
	z := math.Hypot(lon, lat) + 2e-5*math.Sin(lat*k)
	th := math.Atan2(lat, lon) + 3e-6*math.Cos(lon*k)
	return z*math.Cos(th) + 0.0065, z*math.Sin(th) + 0.006
}

func refB2G(lon, lat float64) (float64, float64) {
	const k = math.Pi * 3000 / 180
	x, y := lon-0.0065, lat-0.006
	z := math.Hypot(x, y) - 2e-5*math.Sin(y*k)
	th := math.Atan2(y, x) - 3e-6*math.Cos(x*k)
	return z * math.Cos(th), z * math.Sin(th)
}

func refG2W(lon, lat float64) (float64, float64) {
	if refOut(lon, lat) {
		return lon, lat
	}
	dx, dy := refOffset(lon, lat)
	return lon - dx, lat - dy
}

func TestC29_Datums(t *testing.T) {
	run(t, 4000, "positions inside the Chinese bounds (dense around cities), near and beyond the bounds, anywhere on the globe; non-trivial: inside the bounds", func(rt *rapid.T, c *Case) {
		var lon, lat float64
		switch ir(rt, 0, 6, "pk") {
		case 0:
			p := genLonLat(rt, "p")
			lon, lat = p.X, p.Y
		case 1: // near the bounds, on either side
			lon = pick(rt, "bx", 73.66, 135.05) + uf(rt, -0.05, 0.05, "dx")
			lat = uf(rt, 0, 60, "y")
			if bl(rt, "exact") {
				lon = pick(rt, "bxe", 73.66, 135.05)
			}
		case 2:
			lat = pick(rt, "by", 3.86, 53.55) + uf(rt, -0.05, 0.05, "dy")
			lon = uf(rt, 70, 140, "x")
			if bl(rt, "exact") {
				lat = pick(rt, "bye", 3.86, 53.55)
			}
		case 3: // round values, 105 and 35 included
			lon, lat = float64(ir(rt, 148, 268, "rx"))/2, float64(ir(rt, 8, 106, "ry"))/2
		default:
			lon, lat = uf(rt, 73.7, 135, "x"), uf(rt, 3.9, 53.5, "y")
		}
		c.D("lon %v lat %v", lon, lat)
		in := !refOut(lon, lat)
		c.NT(in)
		const tol = 1e-10
		eq := func(what string, f, ref func(a, b float64) (float64, float64)) (float64, float64) {
			x, y := f(lon, lat)
			wx, wy := ref(lon, lat)
			if !closeTo(x, wx, tol) || !closeTo(y, wy, tol) {
				rt.Fatalf("%s = %v %v, published formula %v %v", what, x, y, wx, wy)
			}
			return x, y
		}
		eq("WGS84toGCJ02", geo.WGS84toGCJ02, refW2G)
		eq("GCJ02toWGS84", geo.GCJ02toWGS84, refG2W)
		eq("GCJ02toBD09", geo.GCJ02toBD09, refG2B)
		eq("BD09toGCJ02", geo.BD09toGCJ02, refB2G)
		edge := func(x, y float64) bool { // the intermediate lands on a bound
			for _, b := range []float64{73.66, 135.05} {
				if math.Abs(x-b) < 1e-9 {
					return true
				}
			}
			for _, b := range []float64{3.86, 53.55} {
				if math.Abs(y-b) < 1e-9 {
					return true
				}
			}
			return false
		}
		eq("WGS84toBD09", geo.WGS84toBD09, func(x, y float64) (float64, float64) { x, y = refW2G(x, y); return refG2B(x, y) })
		if x, y := refB2G(lon, lat); !edge(x, y) {
			eq("BD09toWGS84", geo.BD09toWGS84, func(x, y float64) (float64, float64) { x, y = refB2G(x, y); return refG2W(x, y) })
		}
		if !in {
			if x, y := geo.WGS84toGCJ02(lon, lat); x != lon || y != lat {
				rt.Fatalf("not the identity outside the bounds: %v %v", x, y)
			}
			if x, y := geo.GCJ02toWGS84(lon, lat); x != lon || y != lat {
				rt.Fatalf("not the identity outside the bounds: %v %v", x, y)
			}
		}
		// there and back, away from the bounds
		if lon > 73.69 && lon < 135.02 && lat > 3.89 && lat < 53.52 {
			rtp := func(what string, f, g func(a, b float64) (float64, float64), tol float64) {
				x, y := f(lon, lat)
				x, y = g(x, y)
				if !closeTo(x, lon, tol) || !closeTo(y, lat, tol) {
					rt.Fatalf("%s: there and back gives %v %v", what, x, y)
				}
			}
			rtp("WGS84-GCJ02", geo.WGS84toGCJ02, geo.GCJ02toWGS84, 1e-4)
			rtp("GCJ02-WGS84", geo.GCJ02toWGS84, geo.WGS84toGCJ02, 1e-4)
			rtp("GCJ02-BD09", geo.GCJ02toBD09, geo.BD09toGCJ02, 1e-5)
			rtp("BD09-GCJ02", geo.BD09toGCJ02, geo.GCJ02toBD09, 1e-5)
			rtp("WGS84-BD09", geo.WGS84toBD09, geo.BD09toWGS84, 1e-4)
			rtp("BD09-WGS84", geo.BD09toWGS84, geo.WGS84toBD09, 1e-4)
		}
	})
}

// ---- C30 geohash ----

const b32 = "0123456789bcdefghjkmnpqrstuvwxyz"

type cell struct {
	prec       int
	ix, iy     int64 // column and row
	nbx, nby   uint
	w, h       float64
	minx, miny float64
}

func ghCell(ix, iy int64, prec int) cell {
	bits := uint(prec * 5)
	c := cell{prec: prec, ix: ix, iy: iy, nbx: (bits + 1) / 2, nby: bits / 2}
	c.w, c.h = math.Ldexp(360, -int(c.nbx)), math.Ldexp(180, -int(c.nby))
	c.minx, c.miny = -180+float64(ix)*c.w, -90+float64(iy)*c.h
	return c
}

func ghOf(lon, lat float64, prec int) cell {
	bits := uint(prec * 5)
	nbx, nby := (bits+1)/2, bits/2
	ix := int64(math.Floor(math.Ldexp((lon+180)/360, int(nbx))))
	iy := int64(math.Floor(math.Ldexp((lat+90)/180, int(nby))))
	return ghCell(ix, iy, prec)
}

func (c cell) hash() string {
	var out []byte
	bx, by := int(c.nbx)-1, int(c.nby)-1
	for i := 0; i < c.prec; i++ {
		v := 0
		for k := 0; k < 5; k++ {
			v <<= 1
			if (i*5+k)%2 == 0 {
				v |= int(c.ix>>uint(bx)) & 1
				bx--
			} else {
				v |= int(c.iy>>uint(by)) & 1
				by--
			}
		}
		out = append(out, b32[v])
	}
	return string(out)
}

func TestC30_Geohash(t *testing.T) {
	run(t, 4000, "points over the globe, near cell borders, the equator, the meridian, the date line and the poles, precisions 1 to 12; non-trivial: a cell whose 8 neighbours all exist", func(rt *rapid.T, c *Case) {
		prec := ir(rt, 1, 12, "prec")
		p := genLonLat(rt, "p")
		if ir(rt, 0, 2, "cell") == 0 { // inside a chosen cell, near its borders
			base := ghOf(uf(rt, -180, 179.999, "bx"), uf(rt, -90, 89.999, "by"), prec)
			if bl(rt, "west") {
				base = ghCell(pick(rt, "ex", 0, int64(1)<<base.nbx-1), base.iy, prec)
			}
			p = geo.Point{X: base.minx + base.w*uf(rt, 0.001, 0.999, "fx"), Y: base.miny + base.h*uf(rt, 0.001, 0.999, "fy")}
		}
		srid := pick(rt, "srid", geo.SRID_WGS84_GPS, 0)
		c.D("%v precision %d", p, prec)
		h := geo.GeohashEncode(p, uint(prec), srid)
		if len(h) != prec {
			rt.Fatalf("hash %q has %d characters, asked %d", h, len(h), prec)
		}
		b := geo.GeohashGetBoundary(h, srid)
		if eps := 1e-12; !(b.MinX-eps <= p.X && p.X <= b.MaxX+eps && b.MinY-eps <= p.Y && p.Y <= b.MaxY+eps) {
			rt.Fatalf("cell %v of %q does not contain the point", b, h)
		}
		ref := ghOf(p.X, p.Y, prec)
		fx, fy := (p.X-ref.minx)/ref.w, (p.Y-ref.miny)/ref.h
		if fx > 1e-3 && fx < 1-1e-3 && fy > 1e-3 && fy < 1-1e-3 {
			if h != ref.hash() {
				rt.Fatalf("hash %q, want %q", h, ref.hash())
			}
			c.L("interior")
		} else { // on a border either side may be taken: use the cell the library chose
			ref = ghOf(b.MinX/2+b.MaxX/2, b.MinY/2+b.MaxY/2, prec)
			if h != ref.hash() {
				rt.Fatalf("cell %v of %q is the cell of %q", b, h, ref.hash())
			}
		}
		const tol = 1e-9
		if !closeTo(b.MinX, ref.minx, tol) || !closeTo(b.MinY, ref.miny, tol) || !closeTo(b.MaxX, ref.minx+ref.w, tol) || !closeTo(b.MaxY, ref.miny+ref.h, tol) {
			rt.Fatalf("cell %v of %q, want %v %v +%v +%v", b, h, ref.minx, ref.miny, ref.w, ref.h)
		}
		ctr := geo.GeohashGetCenter(h, srid)
		if !closeTo(ctr.X, ref.minx+ref.w/2, ref.w*1e-3) || !closeTo(ctr.Y, ref.miny+ref.h/2, ref.h*1e-3) {
			rt.Fatalf("centre %v of %q, want %v %v", ctr, h, ref.minx+ref.w/2, ref.miny+ref.h/2)
		}
		if g := geo.GeohashEncode(ctr, uint(prec), srid); g != h {
			rt.Fatalf("centre of %q encodes to %q", h, g)
		}
		for q := 1; q < prec; q++ {
			s := geo.GeohashEncode(p, uint(q), srid)
			if !strings.HasPrefix(h, s) || len(s) != q {
				rt.Fatalf("%q is not a prefix of %q", s, h)
			}
			o := geo.GeohashGetBoundary(s, srid)
			if !(o.MinX <= b.MinX && b.MaxX <= o.MaxX && o.MinY <= b.MinY && b.MaxY <= o.MaxY) {
				rt.Fatalf("cell %v of %q is not inside cell %v of %q", b, h, o, s)
			}
		}
		ns := geo.GeohashGetAllNeighbors(h, srid)
		if len(ns) != 8 {
			rt.Fatalf("%d neighbours", len(ns))
		}
		full := true
		nx := int64(1) << ref.nbx
		for i, d := range [][2]int64{{0, 1}, {1, 1}, {1, 0}, {1, -1}, {0, -1}, {-1, -1}, {-1, 0}, {-1, 1}} {
			y := ref.iy + d[1]
			if y < 0 || y >= int64(1)<<ref.nby { // beyond a pole
				full = false
				continue
			}
			w := ghCell((ref.ix+d[0]+nx)%nx, y, prec).hash()
			if ns[i] != w {
				rt.Fatalf("neighbour %d of %q is %q, want %q", i, h, ns[i], w)
			}
		}
		c.NT(full)
		c.L("precision %d", prec)
	})
}

func TestC30_Regress(t *testing.T) {
	run(t, 1, "the repaired defect of this property; non-trivial: always", func(rt *rapid.T, c *Case) {
		c.D("the poles and the date line")
		c.NT(true)
		for prec := uint(1); prec <= 12; prec++ {
			for _, p := range []geo.Point{{X: 0, Y: 90}, {X: 180, Y: 0}, {X: 180, Y: 90}, {X: -180, Y: -90}, {X: 10, Y: math.Nextafter(90, 0)}, {X: math.Nextafter(180, 0), Y: 10}} {
				if b := geo.GeohashGetBoundary(geo.GeohashEncode(p, prec, geo.SRID_WGS84_GPS), geo.SRID_WGS84_GPS); !geo.IsPointInBox(&b, p) {
					rt.Fatalf("the cell %v of precision %d does not contain %v", b, prec, p)
				}
			}
		}
	})
}

// ---- C31 S2 ----

func s2Level(id uint64) int {
	n := 0
	for id != 0 && id&1 == 0 {
		id >>= 1
		n++
	}
	return 30 - n/2
}

func s2Lsb(id uint64) uint64 { return id & -id }

func s2Contains(a, b uint64) bool { return b >= a-(s2Lsb(a)-1) && b <= a+(s2Lsb(a)-1) }

func TestC31_Cells(t *testing.T) {
	run(t, 2500, "points over the globe, on cube-face borders and corners, poles and the date line, levels 0 to 30; non-trivial: a cell with 8 neighbours", func(rt *rapid.T, c *Case) {
		p := genLonLat(rt, "p")
		switch ir(rt, 0, 5, "face") {
		case 0: // cube corners and edges
			p = geo.Point{X: pick(rt, "fx", 45.0, -45, 135, -135) + uf(rt, -1e-3, 1e-3, "dx"), Y: pick(rt, "fy", 35.264389682754654, -35.264389682754654) + uf(rt, -1e-3, 1e-3, "dy")}
		case 1:
			p = geo.Point{X: pick(rt, "fx", 45.0, -45, 135, -135), Y: uf(rt, -80, 80, "y")}
		}
		lvl := ir(rt, 0, 30, "level")
		c.D("%v level %d", p, lvl)
		g := geo.SRID_WGS84_GPS
		id := geo.S2GetCellID(p, lvl, g)
		if s2Level(id) != lvl || id == 0 {
			rt.Fatalf("cell %x has level %d", id, s2Level(id))
		}
		ll := s2.LatLngFromDegrees(p.Y, p.X)
		leaf := uint64(s2.CellIDFromLatLng(ll))
		if !s2Contains(id, leaf) {
			rt.Fatalf("cell %x does not hold the point's leaf %x", id, leaf)
		}
		for l := 0; l < lvl; l++ {
			if a := geo.S2GetCellID(p, l, g); !s2Contains(a, id) || s2Level(a) != l {
				rt.Fatalf("cell %x of level %d is no ancestor of %x", a, l, id)
			}
		}
		for _, srid := range planarSRIDs {
			if geo.S2GetCellID(p, lvl, srid) != 0 || geo.S2GetCenter(id, srid) != nil || len(geo.S2GetBoundary(id, srid)) != 0 || len(geo.S2GetAllNeighbors(id, srid)) != 0 {
				rt.Fatalf("another reference system gives a cell")
			}
		}
		ctr := geo.S2GetCenter(id, g)
		if ctr == nil || geo.S2GetCellID(*ctr, lvl, g) != id {
			rt.Fatalf("centre %v does not map back to %x", ctr, id)
		}
		bd := geo.S2GetBoundary(id, g)
		if len(bd) != 4 {
			rt.Fatalf("boundary %v", bd)
		}
		// counter-clockwise great-circle quadrilateral: the point is left of every edge, by vectors
		v := func(p geo.Point) s2.Point { return s2.PointFromLatLng(s2.LatLngFromDegrees(p.Y, p.X)) }
		for i := range bd {
			if math.Abs(bd[i].Y) > 90 || math.Abs(bd[i].X) > 180 {
				rt.Fatalf("boundary vertex %v", bd[i])
			}
			a, b := v(bd[i]), v(bd[(i+1)%4])
			n := a.Cross(b.Sub(a.Vector))
			for _, q := range []geo.Point{p, *ctr} {
				if d := n.Dot(v(q).Sub(a.Vector)) / n.Norm(); d < -1e-14 {
					rt.Fatalf("%v is %g outside the boundary edge %d of cell %x", q, -d, i, id)
				}
			}
		}
		// corners belong to the cell
		cell := s2.CellFromCellID(s2.CellID(id))
		for i := 0; i < 4; i++ {
			best := math.Inf(1)
			for k := 0; k < 4; k++ {
				best = math.Min(best, float64(v(bd[k]).Distance(cell.Vertex(i))))
			}
			if best > 1e-14 {
				rt.Fatalf("corner %d of cell %x is missing from its boundary", i, id)
			}
		}
		// neighbours: same level, distinct, exactly those sharing a corner
		ns := geo.S2GetAllNeighbors(id, g)
		seen := map[uint64]bool{}
		for _, n := range ns {
			if seen[n] || n == id || s2Level(n) != lvl || !s2.CellID(n).IsValid() {
				rt.Fatalf("neighbour %x of %x repeated, itself or of another level", n, id)
			}
			seen[n] = true
		}
		want := map[uint64]bool{}
		for _, n := range s2.CellID(id).EdgeNeighbors() {
			want[uint64(n)] = true
		}
		for i := 0; i < 4; i++ { // all cells of the level around each corner
			for _, n := range cellsAround(cell.Vertex(i), lvl) {
				if n != id {
					want[n] = true
				}
			}
		}
		if len(want) != len(seen) {
			rt.Fatalf("%d neighbours of %x, %d cells share a corner or edge", len(seen), id, len(want))
		}
		for n := range want {
			if !seen[n] {
				rt.Fatalf("cell %x touches %x but is not among its neighbours", n, id)
			}
		}
		c.NT(len(ns) == 8)
		c.L("%d neighbours", len(ns))
	})
}

// cellsAround finds the cells of a level that have v as a corner, by stepping a little way into every direction.
func cellsAround(v s2.Point, lvl int) []uint64 {
	out := map[uint64]bool{}
	eps := s2.MinWidthMetric.Value(lvl) * 0.2
	x := v.Ortho()
	y := v.Cross(x)
	for k := 0; k < 16; k++ {
		s, c := math.Sincos(2 * math.Pi * (float64(k) + 0.37) / 16)
		d := s2.Point{Vector: v.Add(x.Mul(eps * c)).Add(y.Mul(eps * s)).Normalize()}
		out[uint64(s2.CellIDFromLatLng(s2.LatLngFromPoint(d)).Parent(lvl))] = true
	}
	var ids []uint64
	for id := range out {
		ids = append(ids, id)
	}
	return ids
}

// repeatSome repeats some positions of a ring in place.
func repeatSome(rt *rapid.T, r geo.LinearRing) geo.LinearRing {
	var out geo.LinearRing
	for _, p := range r {
		out = append(out, p)
		for ir(rt, 0, 3, "repeat") == 1 {
			out = append(out, p)
		}
	}
	return out
}

func TestC31_Cover(t *testing.T) {
	run(t, 60, "star-shaped lon/lat polygons of 3 to 80 vertices, crescents and boxes between round meridians and parallels, about 0.02 to 2 degrees wide, at levels that give 5 to 400 cells, both ring directions; non-trivial: more than four cells", func(rt *rapid.T, c *Case) {
		span := pick(rt, "span", 0.02, 0.2, 2)
		lvl := map[float64]int{0.02: 13, 0.2: 10, 2: 7}[span] - ir(rt, 0, 2, "coarser") + pick(rt, "finer", 0, 0, 1, 1, 2, 3)
		ctr := geo.Point{X: uf(rt, -170, 170, "cx"), Y: uf(rt, -65, 65, "cy")}
		if ir(rt, 0, 5, "high") == 0 {
			ctr.Y = pick(rt, "cs", 1.0, -1) * uf(rt, 65, 82, "chigh")
		}
		n := max(3, pickb(rt, "n", 80, 3, 4, 5, 8))
		var ps []geo.Point
		box := ir(rt, 0, 5, "box") == 0
		if box { // between round meridians and parallels, with further vertices on some sides
			ctr.X, ctr.Y = math.Round(ctr.X/span)*span, math.Round(ctr.Y/span)*span
			cs := [4][2]float64{{-0.5, -0.5}, {0.5, -0.5}, {0.5, 0.5}, {-0.5, 0.5}}
			for i, a := range cs {
				b := cs[(i+1)%4]
				k := pick(rt, "side", 1, 1, 2, 5)
				for j := 0; j < k; j++ {
					f := float64(j) / float64(k)
					ps = append(ps, geo.Point{X: ctr.X + span*(a[0]+f*(b[0]-a[0])), Y: ctr.Y + span*(a[1]+f*(b[1]-a[1]))})
				}
			}
			n = len(ps)
			ps = rotated(ps, ir(rt, 0, n-1, "start"))
		}
		if !box && ir(rt, 0, 3, "crescent") == 0 { // its middle lies outside
			box = true
			k := ir(rt, 3, 24, "k")
			from, arc, in := uf(rt, 0, 2*math.Pi, "from"), uf(rt, 1, 5.5, "arc"), uf(rt, 0.5, 0.9, "in")
			for i := 0; i <= 2*k+1; i++ {
				r, a := span/2, from+arc*float64(i)/float64(k)
				if i > k {
					r, a = span/2*in, from+arc*float64(2*k+1-i)/float64(k)
				}
				ps = append(ps, geo.Point{X: ctr.X + r*math.Cos(a), Y: ctr.Y + r*math.Sin(a)})
			}
			n = len(ps)
			ps = rotated(ps, ir(rt, 0, n-1, "start"))
		}
		for i := 0; i < n && !box; i++ {
			r := span / 2 * uf(rt, 0.3, 1, "r")
			a := 2 * math.Pi * (float64(i) + uf(rt, 0, 0.5, "a")) / float64(n)
			ps = append(ps, geo.Point{X: ctr.X + r*math.Cos(a), Y: ctr.Y + r*math.Sin(a)})
		}
		c.D("%v level %d", ps, lvl)
		g := geo.SRID_WGS84_GPS
		ring := append(append(geo.LinearRing{}, ps...), ps[0])
		for _, srid := range planarSRIDs {
			if len(geo.S2RegionCoverer(geo.Polygon{ring}, lvl, srid)) != 0 {
				rt.Fatalf("reference system %v gives cells", srid)
			}
		}
		// the region on the sphere: its edges are great circles
		var sv []s2.Point
		for _, p := range ps {
			sv = append(sv, s2.PointFromLatLng(s2.LatLngFromDegrees(p.Y, p.X)))
		}
		loop := s2.LoopFromPoints(sv) // ps runs counter-clockwise around its centre
		var inside []geo.Point
		if loop.Area() < 2*math.Pi {
			const m = 24
			du, dv := uf(rt, 0, 1, "du"), uf(rt, 0, 1, "dv")
			for i := 0; i < m*m; i++ {
				p := geo.Point{X: ctr.X + span*((float64(i%m)+du)/m-0.5), Y: ctr.Y + span*((float64(i/m)+dv)/m-0.5)}
				if loop.ContainsPoint(s2.PointFromLatLng(s2.LatLngFromDegrees(p.Y, p.X))) {
					inside = append(inside, p)
				}
			}
		}
		for i := range ps { // and along the edges
			for k := 0; k < 40; k++ {
				x, y := s2.Interpolate((float64(k)+uf(rt, 0, 1, "ek"))/40, sv[i], sv[(i+1)%n]), s2.PointFromLatLng(s2.LatLngFromDegrees(ctr.Y, ctr.X))
				x = s2.Interpolate(1e-7, x, y)
				if ll := s2.LatLngFromPoint(x); len(inside) > 0 {
					p := geo.Point{X: ll.Lng.Degrees(), Y: ll.Lat.Degrees()}
					if loop.ContainsPoint(s2.PointFromLatLng(s2.LatLngFromDegrees(p.Y, p.X))) {
						inside = append(inside, p)
					}
				}
			}
		}
		c.L("points inside %d0..", len(inside)/10)
		var first map[uint64]bool
		for _, r := range []geo.LinearRing{ring, geo.LinearRing(reversed(ring)), rotRing(ring, ir(rt, 0, n-1, "st")), repeatSome(rt, ring)} {
			ids := geo.S2RegionCoverer(geo.Polygon{r}, lvl, g)
			set := map[uint64]bool{}
			for _, id := range ids {
				if set[id] {
					rt.Fatalf("cell %x twice in the cover", id)
				}
				set[id] = true
				if s2Level(id) != lvl {
					rt.Fatalf("cell %x has level %d", id, s2Level(id))
				}
			}
			if len(ids) > 20000 {
				rt.Fatalf("the cover of a polygon %v degrees wide has %d cells", span, len(ids))
			}
			for _, q := range inside {
				if !set[geo.S2GetCellID(q, lvl, g)] {
					rt.Fatalf("the cover misses %v (cell %x)", q, geo.S2GetCellID(q, lvl, g))
				}
			}
			// vertices, and points inside (between the centre-side of vertices)
			for i := range ps {
				a, b := ps[i], ps[(i+1)%n]
				var qs []geo.Point
				qs = append(qs, a)
				// in the triangle centre, a, b
				u, v := uf(rt, 0.01, 0.9999, "u"), uf(rt, 0, 1, "v")
				q := geo.Point{X: ctr.X + u*((1-v)*a.X+v*b.X-ctr.X), Y: ctr.Y + u*((1-v)*a.Y+v*b.Y-ctr.Y)}
				if len(inside) > 0 && loop.ContainsPoint(s2.PointFromLatLng(s2.LatLngFromDegrees(q.Y, q.X))) {
					qs = append(qs, q)
				}
				for _, q := range qs {
					if !set[geo.S2GetCellID(q, lvl, g)] {
						rt.Fatalf("the cover misses %v (cell %x)", q, geo.S2GetCellID(q, lvl, g))
					}
				}
			}
			// no far-away cells: each cell comes near the polygon
			for id := range set {
				q := geo.S2GetCenter(id, g)
				if d := refSphere(*q, ctr); d > span*112000+2*s2.MaxDiagMetric.Value(lvl)*earthR {
					rt.Fatalf("cell %x is %v m away from the polygon", id, d)
				}
			}
			if first == nil {
				first = set
			} else if len(first) != len(set) {
				rt.Fatalf("cover of %d cells, with the ring turned %d cells", len(first), len(set))
			} else {
				for id := range first {
					if !set[id] {
						rt.Fatalf("the covers of the same ring differ")
					}
				}
			}
			c.NT(len(ids) > 4)
		}
	})
}
