package harness

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"testing"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"
	"pgregory.net/rapid"
)

// An answer is a function of the arguments alone: the same call in a process that has not seen the calls before it gives
// the same bits. Each case makes a call, changes its arguments (in place or in a copy: by a hair, by a vertex, or some of
// them altogether), calls again and compares with a second process that is only ever given the second call.

// ---- values as bytes ----

func encv(b []byte, v reflect.Value) []byte {
	u := func(n uint64) { b = binary.LittleEndian.AppendUint64(b, n) }
	switch v.Kind() {
	case reflect.Float64:
		u(math.Float64bits(v.Float()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int64:
		u(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint64:
		u(v.Uint())
	case reflect.Bool:
		n := uint64(0)
		if v.Bool() {
			n = 1
		}
		u(n)
	case reflect.String:
		u(uint64(v.Len()))
		b = append(b, v.String()...)
	case reflect.Slice:
		u(uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			b = encv(b, v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			b = encv(b, v.Field(i))
		}
	case reflect.Pointer:
		if v.IsNil() {
			u(0)
		} else {
			u(1)
			b = encv(b, v.Elem())
		}
	case reflect.Interface:
		if v.IsNil() {
			u(0)
		} else if e, ok := v.Interface().(error); ok {
			u(1)
			b = encv(b, reflect.ValueOf(e.Error()))
		} else {
			u(2)
			b = encv(b, reflect.ValueOf(v.Elem().Type().String()))
			b = encv(b, v.Elem())
		}
	default:
		panic("encv: " + v.Type().String())
	}
	return b
}

var typeByName = map[string]reflect.Type{}

func decv(b []byte, v reflect.Value) []byte {
	u := func() uint64 { n := binary.LittleEndian.Uint64(b); b = b[8:]; return n }
	str := func() string { n := u(); s := string(b[:n]); b = b[n:]; return s }
	switch v.Kind() {
	case reflect.Float64:
		v.SetFloat(math.Float64frombits(u()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int64:
		v.SetInt(int64(u()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint64:
		v.SetUint(u())
	case reflect.Bool:
		v.SetBool(u() == 1)
	case reflect.String:
		v.SetString(str())
	case reflect.Slice:
		n := int(u())
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			b = decv(b, v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			b = decv(b, v.Field(i))
		}
	case reflect.Pointer:
		if u() == 1 {
			v.Set(reflect.New(v.Type().Elem()))
			b = decv(b, v.Elem())
		}
	case reflect.Interface:
		if u() == 2 {
			w := reflect.New(typeByName[str()]).Elem()
			b = decv(b, w)
			v.Set(w)
		}
	}
	return b
}

// show for people
func argText(args []reflect.Value) string {
	var s []string
	for _, a := range args {
		if a.Kind() == reflect.Pointer {
			a = a.Elem()
		}
		s = append(s, fmt.Sprintf("%v", a.Interface()))
	}
	return strings.Join(s, ", ")
}

// ---- the calls ----

type call struct {
	prop, name string
	fn         reflect.Value
	gen        func(rt *rapid.T) []any
	tame       bool // only hairs and whole redraws
}

var calls []call

func reg(prop, name string, fn any, tame bool, gen func(rt *rapid.T) []any) {
	calls = append(calls, call{prop, name, reflect.ValueOf(fn), gen, tame})
}

func (cl call) do(args []reflect.Value) (res []reflect.Value, text string) {
	defer func() {
		if e := recover(); e != nil {
			text = fmt.Sprint("panic: ", e)
		}
	}()
	res = cl.fn.Call(args)
	var b []byte
	for _, r := range res {
		b = encv(b, r)
	}
	return res, string(b)
}

// values turns the drawn arguments into values of the function's parameter types, in memory of their own.
func (cl call) values(args []any) []reflect.Value {
	var b []byte
	out := make([]reflect.Value, len(args))
	for i, a := range args {
		p := reflect.New(cl.fn.Type().In(i)).Elem()
		p.Set(reflect.ValueOf(a))
		b = encv(b[:0], p)
		out[i] = reflect.New(p.Type()).Elem()
		decv(b, out[i])
	}
	return out
}

func (cl call) copyOf(args []reflect.Value) []reflect.Value {
	out := make([]reflect.Value, len(args))
	for i, a := range args {
		out[i] = reflect.New(a.Type()).Elem()
		decv(encv(nil, a), out[i])
	}
	return out
}

// ---- the second process ----

type fresh struct {
	in  io.WriteCloser
	out *bufio.Reader
}

var freshProc *fresh

func startFresh() *fresh {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "VH_FRESH=1")
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return &fresh{in, bufio.NewReader(out)}
}

func writeMsg(w io.Writer, b []byte) error {
	_, err := w.Write(append(binary.LittleEndian.AppendUint64(nil, uint64(len(b))), b...))
	return err
}
func readMsg(r io.Reader) ([]byte, error) {
	var h [8]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return nil, err
	}
	b := make([]byte, binary.LittleEndian.Uint64(h[:]))
	_, err := io.ReadFull(r, b)
	return b, err
}

// serveFresh answers calls until its input ends.
func serveFresh() {
	r := bufio.NewReader(os.Stdin)
	for {
		b, err := readMsg(r)
		if err != nil {
			return
		}
		cl := calls[binary.LittleEndian.Uint64(b)]
		b = b[8:]
		args := make([]reflect.Value, cl.fn.Type().NumIn())
		for i := range args {
			args[i] = reflect.New(cl.fn.Type().In(i)).Elem()
			b = decv(b, args[i])
		}
		res, text := cl.do(args)
		if writeMsg(os.Stdout, []byte(text)) != nil || writeMsg(os.Stdout, []byte(resText(res))) != nil {
			return
		}
	}
}

func askFresh(rt *rapid.T, i int, args []reflect.Value) (string, string) {
	if freshProc == nil {
		freshProc = startFresh()
	}
	b := binary.LittleEndian.AppendUint64(nil, uint64(i))
	for _, a := range args {
		b = encv(b, a)
	}
	if err := writeMsg(freshProc.in, b); err != nil {
		freshProc = nil
		rt.Fatalf("the call kills a process: %v", err)
	}
	text, err := readMsg(freshProc.out)
	if err != nil {
		freshProc = nil
		rt.Fatalf("the call kills a process: %v", err)
	}
	shown, err := readMsg(freshProc.out)
	if err != nil {
		freshProc = nil
		rt.Fatalf("the call kills a process: %v", err)
	}
	return string(text), string(shown)
}

// ---- changing arguments ----

type pslot struct {
	f    []reflect.Value // the coordinates of one point, or one number
	ring []pslot         // the points of the slice it is in
	i    int
}

// slots lists the points (and other numbers) of a value that can be changed where they are.
func slots(v reflect.Value) (out []pslot) {
	switch v.Kind() {
	case reflect.Float64:
		return []pslot{{f: []reflect.Value{v}}}
	case reflect.Pointer:
		if !v.IsNil() {
			return slots(v.Elem())
		}
	case reflect.Interface:
		if !v.IsNil() && v.Elem().Kind() == reflect.Slice {
			return slots(v.Elem())
		}
	case reflect.Slice:
		k := v.Type().Elem().Kind()
		if k == reflect.Uint8 {
			return nil
		}
		for i := 0; i < v.Len(); i++ {
			out = append(out, slots(v.Index(i))...)
		}
		if k == reflect.Struct && len(out) == v.Len() {
			ring := out
			for i := range out {
				out[i].ring, out[i].i = ring, i
			}
		}
	case reflect.Struct:
		all := true
		for i := 0; i < v.NumField(); i++ {
			all = all && v.Field(i).Kind() == reflect.Float64
		}
		if all && v.NumField() <= 3 {
			p := pslot{}
			for i := 0; i < v.NumField(); i++ {
				p.f = append(p.f, v.Field(i))
			}
			return []pslot{p}
		}
		for i := 0; i < v.NumField(); i++ {
			out = append(out, slots(v.Field(i))...)
		}
	}
	return
}

func (p pslot) vals() (out []float64) {
	for _, f := range p.f {
		out = append(out, f.Float())
	}
	return
}
func (p pslot) set(v []float64) {
	for i := range p.f {
		p.f[i].SetFloat(v[i])
	}
}
func same(a, b []float64) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

// edit changes args where they are.
func edit(rt *rapid.T, args []reflect.Value, tame bool) string {
	var ss []pslot
	for _, a := range args {
		ss = append(ss, slots(a)...)
	}
	// a geometry behind an interface that is a bare point
	for i, a := range args {
		if a.Kind() == reflect.Interface && !a.IsNil() && a.Elem().Kind() == reflect.Struct {
			w := reflect.New(a.Elem().Type()).Elem()
			w.Set(a.Elem())
			if bl(rt, "barepoint") {
				p := slots(w)[0]
				v := p.vals()
				v[ir(rt, 0, len(v)-1, "bi")] += pick(rt, "bd", 1e-9, 1e-5, 0.3, -2)
				p.set(v)
				args[i].Set(w)
				return "bare point"
			}
		}
	}
	// digits of texts
	for i, a := range args {
		if a.Kind() == reflect.String && (len(ss) == 0 || bl(rt, "text")) {
			s := []byte(a.String())
			var at []int
			for k, ch := range s {
				if ch >= '0' && ch <= '9' {
					at = append(at, k)
				}
			}
			if len(at) > 0 {
				s[at[ir(rt, 0, len(at)-1, "digit")]] = byte('0' + ir(rt, 0, 9, "to"))
				args[i].SetString(string(s))
				return "digit"
			}
		}
	}
	if len(ss) == 0 {
		return "none"
	}
	p := ss[ir(rt, 0, len(ss)-1, "slot")]
	closed := false
	if n := len(p.ring); n > 1 {
		closed = same(p.ring[0].vals(), p.ring[n-1].vals())
	}
	what := ""
	v := p.vals()
	k := ir(rt, 0, 5, "edit")
	if tame {
		k = k % 3
	}
	j := ir(rt, 0, len(v)-1, "ord")
	switch k {
	case 0:
		what = "ulps"
		d := math.Inf(pick(rt, "dir", 1, -1))
		for n := pick(rt, "ulps", 1, 2, 30); n > 0; n-- {
			v[j] = math.Nextafter(v[j], d)
		}
		p.set(v)
	case 1, 2:
		what = "hair"
		e := pick(rt, "sign", 1.0, -1) * math.Pow(10, -float64(ir(rt, 3, 13, "exp")))
		if bl(rt, "rel") {
			e *= v[j]
		}
		v[j] += e
		p.set(v)
	case 3:
		what = "step"
		v[j] += pick(rt, "step", 1, -1, 0.5, 0.015625, -0.25, 10, 3)
		p.set(v)
	case 4: // takes the place of another point
		what = "copy"
		q := ss[ir(rt, 0, len(ss)-1, "other")]
		if len(q.f) == len(p.f) {
			if w := q.vals(); bl(rt, "swap") {
				what = "swap"
				q.set(v)
				p.set(w)
			} else {
				p.set(w)
			}
		}
	case 5:
		what = "order"
		if n := len(p.ring); n > 1 {
			lo, hi := 0, n-1
			if bl(rt, "inner") {
				lo, hi = 1, n-2
			}
			for ; lo < hi; lo, hi = lo+1, hi-1 {
				a, b := p.ring[lo].vals(), p.ring[hi].vals()
				p.ring[lo].set(b)
				p.ring[hi].set(a)
			}
		}
	}
	if closed {
		p.ring[len(p.ring)-1].set(p.ring[0].vals())
	}
	return what
}

// scribble overwrites everything a result refers to.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			switch e.Kind() {
			case reflect.Float64:
				e.SetFloat(-77777)
			case reflect.Uint64, reflect.Uint8:
				e.SetUint(7)
			case reflect.String:
				e.SetString("scribble")
			case reflect.Struct:
				for j := 0; j < e.NumField(); j++ {
					if e.Field(j).Kind() == reflect.Float64 {
						e.Field(j).SetFloat(-77777)
					} else {
						scribble(e.Field(j))
					}
				}
			default:
				scribble(e)
			}
		}
	case reflect.Pointer:
		if !v.IsNil() && v.Elem().Kind() == reflect.Struct {
			for j := 0; j < v.Elem().NumField(); j++ {
				if f := v.Elem().Field(j); f.CanSet() && f.Kind() == reflect.Float64 {
					f.SetFloat(-77777)
				}
			}
		}
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	}
}

// history runs the check for the calls of one property.
func history(t *testing.T, n int) {
	prop := strings.TrimPrefix(strings.SplitN(t.Name(), "_", 2)[0], "Test")
	var mine []int
	for i, cl := range calls {
		if cl.prop == prop {
			mine = append(mine, i)
		}
	}
	run(t, n, "a call, its arguments changed in place or in a copy (a hair, a vertex, the order, whole arguments) and the call again, which must give the bits that a process without the first call gives; results do not change afterwards, and overwriting them has no effect on later calls; non-trivial: the two answers differ", func(rt *rapid.T, c *Case) {
		i := mine[ir(rt, 0, len(mine)-1, "call")]
		cl := calls[i]
		x := cl.values(cl.gen(rt))
		c.D("%s(%s)", cl.name, argText(x))
		r1, s1 := cl.do(x)
		y := x
		inPlace := ir(rt, 0, 2, "inplace") > 0
		if !inPlace {
			y = cl.copyOf(x)
		}
		how := ""
		if ir(rt, 0, 4, "redraw") == 0 {
			how = "redraw"
			z := cl.values(cl.gen(rt))
			for k := range y {
				if cl.tame || bl(rt, "arg") {
					y[k].Set(z[k])
				}
			}
		} else {
			how = edit(rt, y, cl.tame)
		}
		c.D("then (%s) %s", how, argText(y))
		c.L("%s", how)
		pristine := cl.copyOf(y)
		r2, s2 := cl.do(y)
		if want, shown := askFresh(rt, i, pristine); s2 != want {
			rt.Fatalf("%s gives (%s) after another call and (%s) on its own", cl.name, resText(r2), shown)
		}
		c.NT(s1 != s2)
		if !inPlace && r1 != nil {
			var b []byte
			for _, r := range r1 {
				b = encv(b, r)
			}
			if string(b) != s1 {
				rt.Fatalf("the result of %s changed during a later call: %s", cl.name, resText(r1))
			}
		}
		for _, r := range r2 {
			scribble(r)
		}
		if _, s := cl.do(pristine); s != s2 {
			rt.Fatalf("%s gives another answer after its earlier result was overwritten", cl.name)
		}
	})
}

func resText(res []reflect.Value) string {
	var s []string
	for _, r := range res {
		s = append(s, fmt.Sprintf("%v", r.Interface()))
	}
	return strings.Join(s, ", ")
}

// ---- which calls ----

func txt(v any, err error) (string, error) {
	b, _ := json.Marshal(v)
	return string(b), err
}

func init() {
	for _, v := range []any{geo.Point{}, geo.MultiPoint{}, geo.LineString{}, geo.MultiLineString{}, geo.Polygon{}, geo.MultiPolygon{},
		geo.PointZ{}, geo.MultiPointZ{}, geo.LineStringZ{}, geo.MultiLineStringZ{}, geo.PolygonZ{}, geo.MultiPolygonZ{}} {
		typeByName[reflect.TypeOf(v).String()] = reflect.TypeOf(v)
	}
	any1 := func(f func(rt *rapid.T) geo.Geometry) func(rt *rapid.T) []any {
		return func(rt *rapid.T) []any { return []any{f(rt)} }
	}
	// C05, C06
	reg("C05", "wkt.Encode", wkt.Encode, false, any1(genAnyGeom))
	reg("C05", "wkt.Decode of Encode", func(g geo.Geometry) (geo.Geometry, error) { return wkt.Decode(wkt.Encode(g)) }, false, any1(genAnyGeom))
	reg("C06", "wkt.Decode", func(s string) (geo.Geometry, error) { return wkt.Decode(s) }, false, func(rt *rapid.T) []any {
		return []any{genWKT(rt, genAnyGeom(rt), bl(rt, "rich"))}
	})
	// C07, C08, C09
	reg("C07", "MarshalGeo", func(g geo.Geometry) (string, error) { b, err := geojson.MarshalGeo(g); return string(b), err }, false, any1(genAnyGeomOpen))
	decodeGeo := func(s string) (geo.Geometry, error) {
		var gj geojson.GeoJson
		if err := json.Unmarshal([]byte(s), &gj); err != nil {
			return nil, err
		}
		return geojson.UnmarshalGeo(&gj)
	}
	geoText := func(rt *rapid.T) []any {
		g := genAnyGeomOpen(rt)
		if bl(rt, "single") {
			g = genGeomRings(rt, pick(rt, "sk", 0, 2, 4, 6, 8, 10), true)
		}
		b, _ := geojson.MarshalGeo(g)
		return []any{string(b)}
	}
	reg("C07", "UnmarshalGeo", decodeGeo, false, geoText)
	reg("C08", "UnmarshalGeo", decodeGeo, false, func(rt *rapid.T) []any {
		if bl(rt, "good") {
			return geoText(rt)
		}
		b, _ := json.Marshal(map[string]any{"type": pick(rt, "type", "Point", "MultiPoint", "LineString", "MultiLineString", "Polygon", "MultiPolygon", "Ring"), "coordinates": genCoords(rt, ir(rt, 0, 4, "depth"), pick(rt, "dim", 2, 3))})
		return []any{string(b)}
	})
	feat := func(rt *rapid.T) []any {
		b, _ := genFeature(rt, genAnyGeomOpen(rt)).MarshalJSON()
		return []any{string(b)}
	}
	reg("C08", "UnmarshalFeature", func(s string) (string, error) { return txt(geojson.UnmarshalFeature([]byte(s))) }, false, feat)
	reg("C09", "UnmarshalFeature", func(s string) (string, error) { return txt(geojson.UnmarshalFeature([]byte(s))) }, false, feat)
	reg("C09", "UnmarshalFeatureCollection", func(s string) (string, error) { return txt(geojson.UnmarshalFeatureCollection([]byte(s))) }, false, func(rt *rapid.T) []any {
		b, _ := genFC(rt).MarshalJSON()
		return []any{string(b)}
	})
	reg("C09", "NewFeature", func(g geo.Geometry) (string, error) {
		f := geojson.NewFeature(g)
		b, err := f.MarshalJSON()
		f.SetBoundingBox()
		b2, _ := f.MarshalJSON()
		return string(b) + string(b2), err
	}, false, any1(genAnyGeomOpen))
	// C11, C12
	reg("C11", "BoundingBox", geo.BoundingBox, false, any1(genAnyGeom))
	reg("C11", "BoxToGeo", geo.BoxToGeo, false, func(rt *rapid.T) []any { return []any{genBox(rt, "b")} })
	boxes := func(n int) func(rt *rapid.T) []any {
		return func(rt *rapid.T) (out []any) {
			for i := 0; i < n; i++ {
				b := genBox(rt, "b")
				out = append(out, &b)
			}
			return
		}
	}
	reg("C12", "Box.Intersect", func(a, b *geo.Box) bool { return a.Intersect(b) }, false, boxes(2))
	reg("C12", "Box.Contain", func(a, b *geo.Box) bool { return a.Contain(b) }, false, boxes(2))
	reg("C12", "Box.Union", func(a, b *geo.Box) *geo.Box { return a.Union(b) }, false, boxes(2))
	reg("C12", "BoxUnion", func(a []*geo.Box) *geo.Box { return geo.BoxUnion(a...) }, false, func(rt *rapid.T) []any {
		var out []*geo.Box
		for i := ir(rt, 1, 6, "n"); i > 0; i-- {
			b := genBox(rt, "b")
			out = append(out, &b)
		}
		return []any{out}
	})
	reg("C12", "Box.Size", func(a *geo.Box) float64 { return a.Size() }, false, boxes(1))
	reg("C12", "IsPointInBox", geo.IsPointInBox, false, func(rt *rapid.T) []any {
		b := genBox(rt, "b")
		return []any{&b, geo.Point{X: pick(rt, "px", b.MinX, b.MaxX, (b.MinX+b.MaxX)/2), Y: pick(rt, "py", b.MinY, b.MaxY, (b.MinY+b.MaxY)/2)}}
	})
	// plane figures
	simple := func(rt *rapid.T, l lat) geo.Polygon {
		ps, _ := genSimple(rt, min(l.r, 1000))
		return append(l.poly(ps), genHoles(rt, l, min(l.r, 1000))...)
	}
	poly := func(rt *rapid.T) geo.Polygon { return simple(rt, genLat(rt)) }
	anyPoly := func(rt *rapid.T) geo.Geometry {
		switch ir(rt, 0, 3, "pk") {
		case 0:
			return geo.MultiPolygon{poly(rt), poly(rt)}
		case 1:
			l := genLat(rt)
			return l.poly(genIPs(rt, l.r, 3, 9, "pts"))
		}
		return poly(rt)
	}
	planar := func(rt *rapid.T) geo.Geometry {
		l := genLat(rt)
		switch ir(rt, 0, 4, "pk") {
		case 0:
			return geo.MultiPoint(l.pts(genIPs(rt, l.r, 1, 9, "pts")))
		case 1:
			return l.line(genIPs(rt, l.r, 2, 9, "pts"))
		case 2:
			return l.pt(genIP(rt, l.r, "p"))
		}
		return anyPoly(rt)
	}
	reg("C13", "GetArea", geo.GetArea, false, any1(anyPoly))
	reg("C13", "IsCCW", func(p geo.Polygon) bool { return p.IsCCW() }, false, func(rt *rapid.T) []any { return []any{poly(rt)} })
	reg("C13", "MultiPolyArea", geo.MultiPolyArea, false, func(rt *rapid.T) []any { return []any{geo.MultiPolygon{poly(rt), poly(rt), poly(rt)}} })
	reg("C14", "Centroid", geo.Centroid, false, any1(planar))
	reg("C14", "LinearCentroid", geo.LinearCentroid, false, func(rt *rapid.T) []any { return []any{poly(rt)[0]} })
	nearPoly := func(rt *rapid.T, k int) (geo.Polygon, []geo.Point) {
		l := genLat(rt)
		ps, _ := genSimple(rt, min(l.r, 1000))
		var out []geo.Point
		for ; k > 0; k-- {
			out = append(out, l.pt(genNear(rt, ps, min(l.r, 1000), "p")))
		}
		return l.poly(ps), out
	}
	reg("C15", "IsPointInPolygon", geo.IsPointInPolygon, false, func(rt *rapid.T) []any {
		p, q := nearPoly(rt, 1)
		return []any{q[0], p}
	})
	seg := func(a, b geo.Point) geo.LineSegment { return geo.LineSegment{Start: a, End: b} }
	reg("C16", "SegmentRelation", geo.SegmentRelation, false, func(rt *rapid.T) []any {
		l := genLat(rt)
		a, b, c, d := genSegPair(rt, l.r)
		return []any{seg(l.pt(a), l.pt(b)), seg(l.pt(c), l.pt(d))}
	})
	reg("C16", "IsPointOnSegment", geo.IsPointOnSegment, false, func(rt *rapid.T) []any {
		l := genLat(rt)
		a, b, c, _ := genSegPair(rt, l.r)
		return []any{l.pt(a), l.pt(b), l.pt(c)}
	})
	reg("C16", "IsPointOnLine", geo.IsPointOnLine, false, func(rt *rapid.T) []any {
		p, q := nearPoly(rt, 1)
		return []any{q[0], geo.LineString(p[0][:len(p[0])-1])}
	})
	twoLines := func(rt *rapid.T) []any {
		l := genLat(rt)
		return []any{l.line(genIPs(rt, l.r, 2, 7, "a")), l.line(genIPs(rt, l.r, 2, 7, "b"))}
	}
	reg("C16", "LineRelation", geo.LineRelation, false, twoLines)
	reg("C17", "SegPolyRelation", geo.SegPolyRelation, false, func(rt *rapid.T) []any {
		p, q := nearPoly(rt, 2)
		return []any{seg(q[0], q[1]), p}
	})
	reg("C17", "LinePolyRelation", geo.LinePolyRelation, false, func(rt *rapid.T) []any {
		p, q := nearPoly(rt, ir(rt, 2, 6, "n"))
		return []any{geo.LineString(q), p}
	})
	reg("C17", "LinearPolyRelation", geo.LinearPolyRelation, false, func(rt *rapid.T) []any {
		p, q := nearPoly(rt, ir(rt, 3, 6, "n"))
		return []any{geo.LinearRing(append(q, q[0])), p}
	})
	reg("C17", "PolyRelation", geo.PolyRelation, false, func(rt *rapid.T) []any {
		l := genLat(rt)
		return []any{simple(rt, l), simple(rt, l)}
	})
	ringOf := func(rt *rapid.T) []any {
		if bl(rt, "crossing") {
			l := genLat(rt)
			return []any{l.poly(genIPs(rt, min(l.r, 20), 4, 9, "pts"))}
		}
		return []any{poly(rt)}
	}
	reg("C18", "SelfIntersect", func(p geo.Polygon) bool { return p.SelfIntersect() }, false, ringOf)
	reg("C18", "Verify", func(p geo.Polygon) error { return p.Verify() }, false, ringOf)
	// distances
	srid := func(rt *rapid.T) geo.SRID {
		return pick(rt, "srid", append([]geo.SRID{geo.SRID_WGS84_GPS, geo.SRID_WGS84_GPS}, planarSRIDs...)...)
	}
	pts := func(rt *rapid.T, n int) []geo.Point {
		s := scene{pick(rt, "span", 1e-3, 1, 10), pick(rt, "sox", 0.0, 116, -170), pick(rt, "soy", 0.0, 39.9, -70)}
		out := make([]geo.Point, n)
		for i := range out {
			out[i] = s.pt(rt, "p")
		}
		return out
	}
	reg("C19", "PointToSegmentDistance", geo.PointToSegmentDistance, false, func(rt *rapid.T) []any { p := pts(rt, 3); return []any{p[0], p[1], p[2], srid(rt)} })
	reg("C19", "PointToLineDistance", geo.PointToLineDistance, false, func(rt *rapid.T) []any { p := pts(rt, 3); return []any{p[0], p[1], p[2], srid(rt)} })
	reg("C19", "PointHitLineString", geo.PointHitLineString, false, func(rt *rapid.T) []any {
		p := pts(rt, ir(rt, 3, 9, "n"))
		return []any{p[0], geo.LineString(p[1:]), srid(rt)}
	})
	reg("C19", "PointPolygonDistance", geo.PointPolygonDistance, false, func(rt *rapid.T) []any {
		p, q := nearPoly(rt, 1)
		return []any{q[0], p, srid(rt)}
	})
	reg("C20", "PointDistance", geo.PointDistance, false, func(rt *rapid.T) []any { p := pts(rt, 2); return []any{p[0], p[1], pick(rt, "srid", planarSRIDs...)} })
	reg("C20", "EuclideanDistance", geo.EuclideanDistance, false, func(rt *rapid.T) []any { p := pts(rt, 2); return []any{p[0], p[1]} })
	reg("C20", "EuclideanDis", geo.EuclideanDis, false, func(rt *rapid.T) []any { p := pts(rt, 2); return []any{p[0], p[1]} })
	reg("C20", "Distance", geo.Point.Distance, false, func(rt *rapid.T) []any { p := pts(rt, 2); return []any{p[0], p[1]} })
	reg("C20", "EuclideanDisZ", geo.EuclideanDisZ, false, func(rt *rapid.T) []any { return []any{genPtZ(rt, "a"), genPtZ(rt, "b")} })
	reg("C20", "Length", geo.LineString.Length, false, func(rt *rapid.T) []any { return []any{geo.LineString(pts(rt, ir(rt, 2, 9, "n")))} })
	reg("C20", "HausdorffDistance", geo.HausdorffDistance, false, func(rt *rapid.T) []any {
		p, k := pts(rt, 9), ir(rt, 2, 7, "k")
		return []any{geo.LineString(p[:k]), geo.LineString(p[k:]), srid(rt)}
	})
	reg("C21", "CoordDistance", geo.CoordDistance, false, func(rt *rapid.T) []any { return []any{genLonLat(rt, "p"), genLonLat(rt, "q")} })
	reg("C21", "CoordGreateCircle", geo.CoordGreateCircle, false, func(rt *rapid.T) []any { return []any{genLonLat(rt, "p"), genLonLat(rt, "q")} })
	reg("C21", "PointDistance", geo.PointDistance, false, func(rt *rapid.T) []any {
		return []any{genLonLat(rt, "p"), genLonLat(rt, "q"), geo.SRID_WGS84_GPS}
	})
	reg("C22", "GetAzimuth", geo.GetAzimuth, false, func(rt *rapid.T) []any { return []any{genLonLat(rt, "p"), genLonLat(rt, "q"), srid(rt)} })
	reg("C22", "DestinationPoint", geo.DestinationPoint, false, func(rt *rapid.T) []any {
		p := genLonLat(rt, "p")
		return []any{p.Y, p.X, math.Pow(10, uf(rt, -3, 7.3, "d")), uf(rt, -360, 720, "b")}
	})
	// shapes
	reg("C23", "DouglasPeuckerSimplify", func(l geo.LineString, thr float64, srid geo.SRID) geo.LineString {
		return geo.DouglasPeuckerSimplify(l, math.Abs(thr), srid)
	}, false, func(rt *rapid.T) []any {
		l := genLat(rt)
		ps := genIPs(rt, l.r, 2, 12, "pts")
		return []any{l.line(ps), pick(rt, "thr", 0, 0.3, 0.5, 1, 3) * l.scale, pick(rt, "srid", planarSRIDs...)}
	})
	reg("C24", "ConvexHull", func(ps []geo.Point) geo.Polygon { return geo.ConvexHull(ps...) }, false, func(rt *rapid.T) []any {
		l := genLat(rt)
		return []any{l.pts(genCloud(rt, min(l.r, 1000)))}
	})
	reg("C25", "Mbr", geo.Mbr, false, any1(planar))
	reg("C26", "RotateCW", geo.RotateCW, false, func(rt *rapid.T) []any {
		l := genLat(rt)
		return []any{pick(rt, "what", geo.Geometry(simple(rt, l)), geo.Geometry(l.pt(genIP(rt, l.r, "p")))), l.pt(genIP(rt, l.r, "c")), uf(rt, -7, 7, "angle")}
	})
	reg("C26", "RotateCCW", geo.RotateCCW, false, func(rt *rapid.T) []any {
		l := genLat(rt)
		return []any{pick(rt, "what", geo.Geometry(simple(rt, l)), geo.Geometry(l.pt(genIP(rt, l.r, "p")))), l.pt(genIP(rt, l.r, "c")), uf(rt, -7, 7, "angle")}
	})
	reg("C26", "Buffer", func(p geo.Point, w float64) geo.Polygon { return p.Buffer(math.Abs(w)) }, false, func(rt *rapid.T) []any { return []any{pts(rt, 1)[0], uf(rt, 0, 1000, "w")} })
	reg("C27", "CacAngle", geo.CacAngle, false, func(rt *rapid.T) []any { p := pts(rt, 3); return []any{p[0], p[1], p[2]} })
	reg("C27", "CacQuadrantAngle", geo.CacQuadrantAngle, false, func(rt *rapid.T) []any { p := pts(rt, 2); return []any{p[0], p[1]} })
	reg("C27", "CacConvex", geo.CacConvex, false, func(rt *rapid.T) []any { p := pts(rt, 3); return []any{p[0], p[1], p[2]} })
	reg("C27", "vectors", func(a, b, p, q geo.Point, k float64) (out []float64) {
		u, v := geo.ConvertPointToVector(a, b), geo.ConvertSegToVector(seg(p, q))
		d := u.Clone()
		d.Multiply(k)
		e := v.Clone()
		e.Normalize()
		for _, x := range []geo.Vector2{u.Add(*v), u.Sub(*v), geo.Add(*u, *v), *geo.Normalize(*u), *d, *e} {
			out = append(out, x.X, x.Y)
		}
		return append(out, u.Dot(*v), u.Cross(*v), u.Length(), v.LengthSq())
	}, false, func(rt *rapid.T) []any { p := pts(rt, 4); return []any{p[0], p[1], p[2], p[3], uf(rt, -4, 4, "k")} })
	// geodesy
	reg("C28", "FromLatLon", geo.FromLatLon, false, func(rt *rapid.T) []any { y, x := genUTMPos(rt); return []any{y, x, bl(rt, "north")} })
	reg("C28", "ToLatLon", func(e, n float64, z int, s string, north []bool) (float64, float64, error) {
		return geo.ToLatLon(e, n, z, s, north...)
	}, false, func(rt *rapid.T) []any {
		y, x := genUTMPos(rt)
		e, n, z, s, _ := geo.FromLatLon(y, x, false)
		if bl(rt, "hemi") {
			return []any{e, n, z, "", []bool{y >= 0}}
		}
		return []any{e, n, z, s, []bool{}}
	})
	reg("C28", "ValidateLatLone", geo.ValidateLatLone, false, func(rt *rapid.T) []any { y, x := genUTMPos(rt); return []any{y, x} })
	lonlat := func(rt *rapid.T) []any {
		if bl(rt, "china") {
			return []any{uf(rt, 72, 138, "lon"), uf(rt, 0, 56, "lat")}
		}
		p := genLonLat(rt, "p")
		return []any{p.X, p.Y}
	}
	reg("C29", "BD09toGCJ02", geo.BD09toGCJ02, false, lonlat)
	reg("C29", "GCJ02toBD09", geo.GCJ02toBD09, false, lonlat)
	reg("C29", "WGS84toGCJ02", geo.WGS84toGCJ02, false, lonlat)
	reg("C29", "GCJ02toWGS84", geo.GCJ02toWGS84, false, lonlat)
	reg("C29", "BD09toWGS84", geo.BD09toWGS84, false, lonlat)
	reg("C29", "WGS84toBD09", geo.WGS84toBD09, false, lonlat)
	inside := func(rt *rapid.T) geo.Point { return geo.Point{X: uf(rt, -179, 179, "x"), Y: uf(rt, -89, 89, "y")} }
	hash := func(rt *rapid.T) string {
		return geo.GeohashEncode(inside(rt), uint(ir(rt, 1, 12, "prec")), geo.SRID_WGS84_GPS)
	}
	reg("C30", "GeohashEncode", geo.GeohashEncode, true, func(rt *rapid.T) []any { return []any{inside(rt), uint(ir(rt, 1, 12, "prec")), geo.SRID_WGS84_GPS} })
	reg("C30", "GeohashGetCenter", geo.GeohashGetCenter, false, func(rt *rapid.T) []any { return []any{hash(rt), geo.SRID_WGS84_GPS} })
	reg("C30", "GeohashGetBoundary", geo.GeohashGetBoundary, false, func(rt *rapid.T) []any { return []any{hash(rt), geo.SRID_WGS84_GPS} })
	reg("C30", "GeohashGetAllNeighbors", geo.GeohashGetAllNeighbors, false, func(rt *rapid.T) []any { return []any{hash(rt), geo.SRID_WGS84_GPS} })
	g := geo.SRID_WGS84_GPS
	cell := func(rt *rapid.T) []any { return []any{geo.S2GetCellID(inside(rt), ir(rt, 0, 30, "level"), g), g} }
	reg("C31", "S2GetCellID", geo.S2GetCellID, false, func(rt *rapid.T) []any { return []any{inside(rt), ir(rt, 0, 30, "level"), g} })
	reg("C31", "S2GetCenter", geo.S2GetCenter, false, cell)
	reg("C31", "S2GetBoundary", geo.S2GetBoundary, false, cell)
	reg("C31", "S2GetAllNeighbors", geo.S2GetAllNeighbors, false, cell)
	reg("C31", "S2RegionCoverer", func(p geo.Polygon, level int, srid geo.SRID) []uint64 {
		// only covers of a moderate number of cells: no large rings and none that cross themselves
		if e := envelope(p); math.Max(e.MaxX-e.MinX, e.MaxY-e.MinY) > 900/float64(int(1)<<level) || len(p[0]) < 4 {
			return nil
		}
		side := func(a, b, c geo.Point) float64 { return (b.X-a.X)*(c.Y-a.Y) - (b.Y-a.Y)*(c.X-a.X) }
		r := p[0]
		for i := 1; i < len(r); i++ {
			for j := i + 2; j < len(r); j++ {
				a, b, c, d := r[i-1], r[i], r[j-1], r[j]
				if (i > 1 || j < len(r)-1) && side(a, b, c)*side(a, b, d) <= 0 && side(c, d, a)*side(c, d, b) <= 0 {
					return nil
				}
			}
			if r[i] == r[i-1] {
				return nil
			}
		}
		return geo.S2RegionCoverer(p, level, srid)
	}, true, func(rt *rapid.T) []any {
		lvl := ir(rt, 2, 20, "level")
		sz := 90 / float64(int(1)<<lvl)
		o := geo.Point{X: uf(rt, -170, 170, "ox"), Y: uf(rt, -70, 70, "oy")}
		r := geo.LinearRing{}
		for i, k := 0, ir(rt, 3, 6, "k"); i < k; i++ {
			a := 2 * math.Pi * (float64(i) + uf(rt, 0, 0.8, "a")) / float64(k)
			d := sz * uf(rt, 0.3, 3, "d")
			r = append(r, geo.Point{X: o.X + d*math.Cos(a), Y: o.Y + d*math.Sin(a)})
		}
		return []any{geo.Polygon{append(r, r[0])}, lvl, g}
	})
}

func TestC05_History(t *testing.T) { history(t, 1000) }
func TestC06_History(t *testing.T) { history(t, 1000) }
func TestC07_History(t *testing.T) { history(t, 1000) }
func TestC08_History(t *testing.T) { history(t, 1000) }
func TestC09_History(t *testing.T) { history(t, 1000) }
func TestC11_History(t *testing.T) { history(t, 1000) }
func TestC12_History(t *testing.T) { history(t, 1000) }
func TestC13_History(t *testing.T) { history(t, 1000) }
func TestC14_History(t *testing.T) { history(t, 1000) }
func TestC15_History(t *testing.T) { history(t, 1000) }
func TestC16_History(t *testing.T) { history(t, 1000) }
func TestC17_History(t *testing.T) { history(t, 1000) }
func TestC18_History(t *testing.T) { history(t, 1000) }
func TestC19_History(t *testing.T) { history(t, 1000) }
func TestC20_History(t *testing.T) { history(t, 1000) }
func TestC21_History(t *testing.T) { history(t, 1000) }
func TestC22_History(t *testing.T) { history(t, 1000) }
func TestC23_History(t *testing.T) { history(t, 1000) }
func TestC24_History(t *testing.T) { history(t, 1000) }
func TestC25_History(t *testing.T) { history(t, 1000) }
func TestC26_History(t *testing.T) { history(t, 1000) }
func TestC27_History(t *testing.T) { history(t, 1000) }
func TestC28_History(t *testing.T) { history(t, 1000) }
func TestC29_History(t *testing.T) { history(t, 1000) }
func TestC30_History(t *testing.T) { history(t, 1000) }
func TestC31_History(t *testing.T) { history(t, 1000) }
