package harness

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"testing"

	geo "github.com/hzw456/go-geo"
	"pgregory.net/rapid"
)

// rt model: the multiset of stored objects, each with an independently computed envelope.

type rtObj struct {
	sp  geo.Spatial
	box geo.Box
}

type rtMachine struct {
	c      *Case
	l      lat
	tree   *geo.Rtree
	objs   []rtObj
	min    int
	max    int
	bulk   bool // bulk-loaded at construction (depth bound does not apply)
	next   int
	uniq   bool // all ids unique
	kind   string
	maxed  int
	ops    int
	drains int
	metric bool // distances between objects matter
	held   []heldAnswer
}

// heldAnswer is the answer of an earlier query that its caller kept: it may not change afterwards.
type heldAnswer struct {
	what string
	got  []geo.Spatial
	keys []string
}

func (m *rtMachine) hold(what string, got []geo.Spatial) {
	if len(got) == 0 || len(got) > 60 {
		return
	}
	h := heldAnswer{what: what, got: got}
	for _, s := range got {
		h.keys = append(h.keys, spKey(s))
	}
	if len(m.held) < 6 {
		m.held = append(m.held, h)
	} else {
		m.held[(m.ops*7+len(got))%6] = h
	}
}

// checkHeld compares the kept answers with what they were; now and then a caller overwrites an answer he owns, which must
// change neither the index nor another answer.
func (m *rtMachine) checkHeld(rt *rapid.T) {
	for _, h := range m.held {
		for i, s := range h.got {
			if k := spKey(s); k != h.keys[i] {
				rt.Fatalf("the answer of %s was changed by later calls: element %d is now %s, was %s", h.what, i, k, h.keys[i])
			}
		}
	}
	if len(m.held) > 0 && ir(rt, 0, 9, "scribble") == 0 {
		i := ir(rt, 0, len(m.held)-1, "scribbleat")
		h := m.held[i]
		m.held = append(append([]heldAnswer(nil), m.held[:i]...), m.held[i+1:]...)
		m.c.D("\n overwrite answer of %s", h.what)
		for j := range h.got {
			h.got[j] = geo.Spatial{ID: "overwritten", Geom: geo.Point{X: 77, Y: 77}}
		}
	}
}

func envel(g geo.Geometry) geo.Box { return envelope(g) }

func boxMeet(a, b geo.Box) bool {
	return math.Max(a.MinX, b.MinX) <= math.Min(a.MaxX, b.MaxX) && math.Max(a.MinY, b.MinY) <= math.Min(a.MaxY, b.MaxY)
}
func boxIn(out, in geo.Box) bool {
	return out.MinX <= in.MinX && in.MaxX <= out.MaxX && out.MinY <= in.MinY && in.MaxY <= out.MaxY
}

func spKey(s geo.Spatial) string {
	return fmt.Sprintf("%q|%#v|%T%v", s.ID, s.Properties, s.Geom, s.Geom)
}

func (m *rtMachine) genObj(rt *rapid.T) geo.Spatial {
	m.next++
	id := fmt.Sprintf("o%d", m.next)
	if !m.uniq {
		id = pick(rt, "dupid", "d0", "d1", "d2", "d3", "d4", "D1", "d1 ", "", "d10", "D10", "d010", "dd1", "\u00e9", "e\u0301")
	}
	var props interface{}
	switch ir(rt, 0, 4, "props") {
	case 0:
		props = m.next
	case 1:
		props = map[string]interface{}{"k": []int{ir(rt, 0, 2, "pv")}}
	case 2:
		props = []string{"x"}
	}
	k := 0
	switch m.kind {
	case "points":
	case "lines":
		k = 2
	case "polys":
		k = 4
	default:
		k = ir(rt, 0, 5, "geomk")
	}
	if len(m.objs) > 0 && ir(rt, 0, 7, "again") == 0 { // same geometry, maybe the same object
		o := pickObj(rt, m.objs).sp
		if bl(rt, "samegeom") {
			return geo.Spatial{ID: id, Properties: props, Geom: o.Geom}
		}
		if !m.uniq {
			return o
		}
	}
	return geo.Spatial{ID: id, Properties: props, Geom: genLatGeom(rt, m.l, k)}
}

// an id much like another
func likeID(rt *rapid.T, id string) string {
	r := []rune(id)
	switch k := ir(rt, 0, 6, "likeid"); {
	case k == 0:
		return strings.ToUpper(id)
	case k == 1:
		return id + pick(rt, "tail", " ", "\x00", "0", "_")
	case k == 2:
		return pick(rt, "head", " ", "0", "+") + id
	case k == 3 && len(r) > 0:
		return string(r[:len(r)-1])
	case k == 4 && len(r) > 0:
		return string(r[1:])
	case k == 5 && len(r) > 0:
		i := ir(rt, 0, len(r)-1, "at")
		r[i]++
		return string(r)
	}
	return string(reversed(r))
}

func (m *rtMachine) hasID(id string) bool {
	for _, o := range m.objs {
		if o.sp.ID == id {
			return true
		}
	}
	return false
}

func pickObj(rt *rapid.T, objs []rtObj) rtObj {
	return objs[ir(rt, 0, len(objs)-1, "pick")]
}

// newMachine constructs a tree by one of the public constructors.
func newMachine(rt *rapid.T, c *Case, grownOnly, metric bool) *rtMachine {
	m := &rtMachine{c: c, l: genLat(rt), metric: metric}
	m.l.r = pick(rt, "treerange", 2, 4, 10, 40, 200)
	if ir(rt, 0, 4, "odd") == 0 { // coordinates with full mantissas, huge ones
		m.l.scale = pick(rt, "oddscale", 0.1, 1.0/3, math.Pi*1e-5, 7e-12, 1e100)
		if !m.metric && bl(rt, "overflow") { // areas and squared distances overflow
			m.l.scale = pick(rt, "hugescale", 1e150, 1e200, 1e300)
		}
	}
	m.uniq = ir(rt, 0, 2, "uniq") != 0
	m.kind = pick(rt, "kind", "mixed", "mixed", "points", "lines", "polys")
	ctor := ir(rt, 0, 5, "ctor")
	n := sz(rt, "bulkn", 0, 0, 1, 5, 9, 10, 11, 12, 20, 35, 64, 90, 130)
	if ctor >= 3 {
		m.max = sz(rt, "max", 2, 2, 3, 4, 4, 5, 6, 8, 10)
		m.min = ir(rt, 1, max(1, m.max/2), "min")
		n = pick(rt, "bulkn2", 0, 0, m.max, m.max+1, m.max*m.max, m.max*m.max+1, m.max*m.max*m.max, 17, 40, 100)
	}
	if n > 250 {
		n = 250
	}
	if ir(rt, 0, 59, "bulkbig") == 30 {
		n = sz(rt, "bign", 300, 513, 1025, 2500)
	}
	if grownOnly {
		n = 0
		m.max = sz(rt, "gmax", 4, 5, 6, 8, 10)
		m.min = ir(rt, 2, m.max/2, "gmin")
		ctor = 3
	}
	if n > 0 {
		n = max(1, n-ir(rt, 0, 2, "fewer"))
	}
	var objs []geo.Spatial
	for i := 0; i < n; i++ {
		s := m.genObj(rt)
		objs = append(objs, s)
		m.objs = append(m.objs, rtObj{s, envel(s.Geom)})
	}
	if ctor < 3 {
		if n < 10 {
			m.min, m.max = 2, 10
		} else {
			m.min, m.max = n/6, n/2
		}
	}
	m.bulk = n > m.max
	c.D("ctor=%d min=%d max=%d uniq=%v objs=%s", ctor, m.min, m.max, m.uniq, descSps(objs))
	switch ctor {
	case 0:
		m.tree = geo.NewTree(objs...)
	case 1:
		m.tree = geo.NewTreeWith(objs...)
	case 2:
		var gs []geo.Geometry
		for _, o := range objs {
			gs = append(gs, o.Geom)
		}
		m.tree = geo.NewRandomIDTree(gs...)
		m.adopt(rt, objs)
	default:
		m.tree = geo.NewMinMaxTree(m.min, m.max, objs...)
	}
	m.maxed = len(m.objs)
	return m
}

func descSps(s []geo.Spatial) string {
	var b strings.Builder
	for i, o := range s {
		if i > 0 {
			b.WriteByte(';')
		}
		fmt.Fprintf(&b, "%s:%T%v/%v", o.ID, o.Geom, o.Geom, o.Properties)
	}
	return b.String()
}

// adopt learns the ids the index generated for anonymous geometries; they have to be distinct and non-empty.
func (m *rtMachine) adopt(rt *rapid.T, anon []geo.Spatial) {
	all := m.all()
	if len(all) != len(m.objs) {
		rt.Fatalf("index built from %d geometries returns %d", len(m.objs), len(all))
	}
	seen := map[string]bool{}
	var objs []rtObj
	var got, want []string
	for _, s := range all {
		if s.ID == "" || seen[s.ID] {
			rt.Fatalf("generated id %q is empty or not unique", s.ID)
		}
		seen[s.ID] = true
		objs = append(objs, rtObj{s, envel(s.Geom)})
		got = append(got, fmt.Sprintf("%T%v", s.Geom, s.Geom))
	}
	for _, o := range anon {
		want = append(want, fmt.Sprintf("%T%v", o.Geom, o.Geom))
	}
	sort.Strings(got)
	sort.Strings(want)
	if !reflect.DeepEqual(got, want) {
		rt.Fatalf("anonymous geometries stored as %v, want %v", got, want)
	}
	m.objs = objs
}

func (m *rtMachine) all() []geo.Spatial {
	return m.tree.SearchIntersect(&geo.Box{MinX: -math.MaxFloat64, MinY: -math.MaxFloat64, MaxX: math.MaxFloat64, MaxY: math.MaxFloat64})
}

func (m *rtMachine) remove(i int) {
	m.objs = append(append([]rtObj(nil), m.objs[:i]...), m.objs[i+1:]...)
}

func (m *rtMachine) find(s geo.Spatial) int {
	for i, o := range m.objs {
		if reflect.DeepEqual(o.sp, s) {
			return i
		}
	}
	return -1
}

// step performs one operation on tree and model and checks what the operation itself reports.
func (m *rtMachine) step(rt *rapid.T) {
	m.ops++
	c := m.c
	op := ir(rt, 0, 15, "op")
	if len(m.objs) == 0 && op >= 5 && op <= 11 {
		op = 0
	}
	if op == 14 && m.drains >= 2 {
		op = 1
	}
	switch {
	case op <= 4:
		s := m.genObj(rt)
		c.D("\n ins %s", descSps([]geo.Spatial{s}))
		m.tree.Insert(s)
		m.objs = append(m.objs, rtObj{s, envel(s.Geom)})
	case op <= 7: // delete a stored object
		o := pickObj(rt, m.objs)
		c.D("\n del %s", descSps([]geo.Spatial{o.sp}))
		if !m.tree.Delete(o.sp) {
			rt.Fatalf("Delete of a stored object reports false: %s", spKey(o.sp))
		}
		m.remove(m.find(o.sp))
	case op == 8: // delete by id
		id := pickObj(rt, m.objs).sp.ID
		c.D("\n delid %s", id)
		if !m.tree.DeleteBySpatialID(id) {
			rt.Fatalf("DeleteBySpatialID(%q) reports false for a stored id", id)
		}
		m.dropID(id)
	case op == 9: // delete with a comparator on unique content
		o := pickObj(rt, m.objs)
		c.D("\n delcmp %s", descSps([]geo.Spatial{o.sp}))
		ok := m.tree.DeleteWithComparator(o.sp, func(s ...geo.Spatial) bool {
			return len(s) == 2 && s[0].ID == s[1].ID && reflect.DeepEqual(s[0], s[1])
		})
		if !ok {
			rt.Fatalf("DeleteWithComparator of a stored object reports false: %s", spKey(o.sp))
		}
		m.remove(m.find(o.sp))
	case op == 10: // upsert an existing id
		s := m.genObj(rt)
		o := pickObj(rt, m.objs).sp
		s.ID = o.ID
		if ir(rt, 0, 2, "sameplace") == 0 { // only the attributes change
			s.Geom = o.Geom
		}
		c.D("\n upsert %s", descSps([]geo.Spatial{s}))
		m.tree.UpsertBySpatialID(s)
		m.dropID(s.ID)
		m.objs = append(m.objs, rtObj{s, envel(s.Geom)})
	case op == 11: // absent objects
		o := pickObj(rt, m.objs).sp
		switch ir(rt, 0, 3, "absent") {
		case 0:
			o.ID += "?"
		case 1:
			o.Geom = m.l.pt(genIP(rt, 2*m.l.r, "absentpt"))
		case 2:
			o.Properties = "absent"
		case 3:
			o = geo.Spatial{ID: "none", Geom: genLatGeom(rt, m.l, ir(rt, 0, 5, "absk"))}
		}
		if m.find(o) < 0 {
			c.D("\n delabsent %s", descSps([]geo.Spatial{o}))
			if m.tree.Delete(o) {
				rt.Fatalf("Delete of an absent object reports true: %s", spKey(o))
			}
			if m.tree.DeleteBySpatialID("none!") {
				rt.Fatalf("DeleteBySpatialID of an absent id reports true")
			}
		}
		if id := likeID(rt, pickObj(rt, m.objs).sp.ID); !m.hasID(id) {
			c.D("\n delidabsent %q", id)
			if m.tree.DeleteBySpatialID(id) {
				rt.Fatalf("DeleteBySpatialID(%q) of an absent id reports true", id)
			}
		}
	case op == 12: // upsert several, new ids possible
		var ss []geo.Spatial
		for i := ir(rt, 1, 3, "ups"); i > 0; i-- {
			s := m.genObj(rt)
			s.ID = fmt.Sprintf("u%d", ir(rt, 0, 3, "uid"))
			if len(m.objs) > 0 && ir(rt, 0, 2, "uidlike") == 0 {
				s.ID = strings.ToUpper(pickObj(rt, m.objs).sp.ID)
				if !m.uniq {
					s.ID = likeID(rt, s.ID)
				}
			}
			ss = append(ss, s)
		}
		c.D("\n upserts %s", descSps(ss))
		m.tree.UpsertBySpatialID(ss...)
		for _, s := range ss {
			m.dropID(s.ID)
			m.objs = append(m.objs, rtObj{s, envel(s.Geom)})
		}
	case op == 13: // anonymous geometry
		s := m.genObj(rt)
		c.D("\n anon %T%v", s.Geom, s.Geom)
		before := map[string]int{}
		for _, o := range m.objs {
			before[o.sp.ID]++
		}
		b := envel(s.Geom)
		m.tree.InsertWithRandomId(s.Geom)
		var fresh []geo.Spatial
		for _, g := range m.tree.SearchIntersect(&b) {
			if before[g.ID] == 0 {
				fresh = append(fresh, g)
			}
		}
		if len(fresh) != 1 || fresh[0].ID == "" || !reflect.DeepEqual(fresh[0].Geom, s.Geom) {
			rt.Fatalf("InsertWithRandomId(%v): objects with a new id near it: %v", s.Geom, fresh)
		}
		m.objs = append(m.objs, rtObj{fresh[0], b})
	case op == 14: // drain to a few or to nothing
		m.drains++
		keep := pick(rt, "keep", 0, 0, 1, 2, 5)
		c.D("\n drain to %d:", keep)
		byID := bl(rt, "byid")
		order := ir(rt, 0, 2, "order")
		for len(m.objs) > keep {
			i := 0
			switch order {
			case 1:
				i = len(m.objs) - 1
			case 2:
				i = ir(rt, 0, len(m.objs)-1, "drain")
			}
			o := m.objs[i].sp
			c.D("%s", o.ID)
			if byID {
				if !m.tree.DeleteBySpatialID(o.ID) {
					rt.Fatalf("DeleteBySpatialID(%q) reports false while draining", o.ID)
				}
				m.dropID(o.ID)
				continue
			}
			if !m.tree.Delete(o) {
				rt.Fatalf("Delete reports false while draining: %s", spKey(o))
			}
			m.remove(m.find(o))
		}
	case op == 15: // burst of insertions
		n := sz(rt, "burst", 3, 8, 20, 40)
		c.D("\n burst %d:", n)
		for i := 0; i < n; i++ {
			s := m.genObj(rt)
			c.D("%s", descSps([]geo.Spatial{s}))
			m.tree.Insert(s)
			m.objs = append(m.objs, rtObj{s, envel(s.Geom)})
		}
	}
	m.maxed = max(m.maxed, len(m.objs))
}

func (m *rtMachine) dropID(id string) {
	var keep []rtObj
	for _, o := range m.objs {
		if o.sp.ID != id {
			keep = append(keep, o)
		}
	}
	m.objs = keep
}

func (m *rtMachine) genWindow(rt *rapid.T) geo.Box {
	var b geo.Box
	switch ir(rt, 0, 5, "win") {
	case 0: // an object's box, maybe grown or pushed so that it touches by an edge or corner
		if len(m.objs) > 0 {
			o := pickObj(rt, m.objs).box
			s := m.l.scale
			dx, dy := float64(ir(rt, -1, 1, "wx")), float64(ir(rt, -1, 1, "wy"))
			w, h := o.MaxX-o.MinX, o.MaxY-o.MinY
			k := float64(ir(rt, 0, 1, "gap")) * s
			return geo.Box{MinX: o.MinX + dx*(w+k), MaxX: o.MaxX + dx*(w+k), MinY: o.MinY + dy*(h+k), MaxY: o.MaxY + dy*(h+k)}
		}
		fallthrough
	case 1: // a point
		p := m.l.pt(genIP(rt, m.l.r+6, "wp"))
		return geo.Box{MinX: p.X, MinY: p.Y, MaxX: p.X, MaxY: p.Y}
	case 2: // everything
		inf := math.Inf(1)
		return pick(rt, "all", geo.Box{MinX: -1e8, MinY: -1e8, MaxX: 1e8, MaxY: 1e8}, geo.Box{MinX: -inf, MinY: -inf, MaxX: inf, MaxY: inf},
			geo.Box{MinX: -inf, MinY: m.l.pt(ip{}).Y, MaxX: inf, MaxY: inf}, geo.Box{MinX: -math.MaxFloat64, MinY: -inf, MaxX: m.l.pt(ip{}).X, MaxY: inf})
	case 3: // a thin window
		p, q := m.l.pt(genIP(rt, m.l.r+6, "wa")), m.l.pt(genIP(rt, m.l.r+6, "wb"))
		b = geo.Box{MinX: math.Min(p.X, q.X), MaxX: math.Max(p.X, q.X), MinY: p.Y, MaxY: p.Y}
		if bl(rt, "upright") {
			b = geo.Box{MinX: p.X, MaxX: p.X, MinY: math.Min(p.Y, q.Y), MaxY: math.Max(p.Y, q.Y)}
		}
		return b
	}
	p, q := m.l.pt(genIP(rt, m.l.r+6, "wa")), m.l.pt(genIP(rt, m.l.r+6, "wb"))
	b = geo.Box{MinX: math.Min(p.X, q.X), MaxX: math.Max(p.X, q.X), MinY: math.Min(p.Y, q.Y), MaxY: math.Max(p.Y, q.Y)}
	return b
}

func sameMultiset(rt *rapid.T, what string, got []geo.Spatial, want []geo.Spatial) {
	count := map[string]int{}
	for _, s := range want {
		count[spKey(s)]++
	}
	for _, s := range got {
		count[spKey(s)]--
	}
	for k, n := range count {
		if n > 0 {
			rt.Fatalf("%s: %d missing of %s (got %d objects, want %d)", what, n, k, len(got), len(want))
		}
		if n < 0 {
			rt.Fatalf("%s: %d too many of %s (got %d objects, want %d)", what, -n, k, len(got), len(want))
		}
	}
}

func (m *rtMachine) checkWindow(rt *rapid.T, w geo.Box) (hits int) {
	var want []geo.Spatial
	for _, o := range m.objs {
		if boxMeet(o.box, w) {
			want = append(want, o.sp)
		}
	}
	wc := w
	ans := m.tree.SearchIntersect(&wc)
	sameMultiset(rt, fmt.Sprintf("SearchIntersect(%v)", w), ans, want)
	m.hold(fmt.Sprintf("SearchIntersect(%v)", w), ans)
	mod := ir(rt, 0, 3, "cond")
	pred := func(s geo.Spatial) bool {
		switch mod {
		case 0:
			return len(s.ID)%2 == 0
		case 1:
			return s.Properties != nil
		case 2:
			return s.Geom.Type() != geo.GEOMETRY_LINESTRING
		}
		return false
	}
	var cw []geo.Spatial
	for _, s := range want {
		if pred(s) {
			cw = append(cw, s)
		}
	}
	got := m.tree.SearchIntersectWithCond(&wc, func(s ...geo.Spatial) bool { return len(s) == 1 && pred(s[0]) })
	sameMultiset(rt, fmt.Sprintf("SearchIntersectWithCond(%v, cond %d)", w, mod), got, cw)
	m.hold(fmt.Sprintf("SearchIntersectWithCond(%v)", w), got)
	if wc != w {
		rt.Fatalf("query changed its window from %v to %v", w, wc)
	}
	return len(want)
}

const rtRule = "tree from a random public constructor (bulk 0..250 objects, rarely up to 2500, 1<=min<=max/2, max 2..125) on a lattice with many equal coordinates, then a random history of insert/delete/delete-by-id/comparator-delete/upsert/absent-delete/anonymous-insert/drain/burst; "

func TestC01_Windows(t *testing.T) {
	run(t, 500, rtRule+"after every operation random windows (object boxes, edge/corner contacts, points, everything, random) are queried; non-trivial: the index held more than max objects (so it split or was bulk-loaded) and a window hit some but not all objects", func(rt *rapid.T, c *Case) {
		m := newMachine(rt, c, false, false)
		n := ir(rt, 1, 14, "ops")
		part := false
		check := func() {
			for k := ir(rt, 1, 3, "wins"); k > 0; k-- {
				w := m.genWindow(rt)
				h := m.checkWindow(rt, w)
				if h > 0 && h < len(m.objs) {
					part = true
				}
			}
			m.checkWindow(rt, geo.Box{MinX: -1e8, MinY: -1e8, MaxX: 1e8, MaxY: 1e8})
		}
		check()
		for i := 0; i < n; i++ {
			m.step(rt)
			check()
			m.checkHeld(rt)
		}
		c.NT(m.maxed > m.max && part)
		c.L("bulk=%v", m.bulk)
		c.L("drains=%d", m.drains)
	})
}

func TestC02_Model(t *testing.T) {
	run(t, 500, rtRule+"after every operation size, full content, id lookups of a present and an absent id are compared with a multiset model; non-trivial: the index held more than max objects and the history removed objects", func(rt *rapid.T, c *Case) {
		m := newMachine(rt, c, false, false)
		n := ir(rt, 1, 30, "ops")
		removed := 0
		asked := "" // the id asked for last
		check := func() {
			if m.tree.Size() != len(m.objs) {
				rt.Fatalf("Size() = %d, want %d", m.tree.Size(), len(m.objs))
			}
			var want []geo.Spatial
			for _, o := range m.objs {
				want = append(want, o.sp)
			}
			all := m.all()
			sameMultiset(rt, "full content", all, want)
			m.hold("a search of everything", all)
			ids := []string{"nothing"}
			if asked != "" && bl(rt, "askagain") {
				ids = append(ids, asked)
			}
			if len(m.objs) > 0 {
				asked = pickObj(rt, m.objs).sp.ID
				ids = append(ids, asked, likeID(rt, asked))
			}
			for _, id := range ids {
				var w []geo.Spatial
				for _, o := range m.objs {
					if o.sp.ID == id {
						w = append(w, o.sp)
					}
				}
				got := m.tree.SearchBySpatialID(id)
				sameMultiset(rt, "SearchBySpatialID("+id+")", got, w)
				m.hold("SearchBySpatialID("+id+")", got)
			}
			m.checkHeld(rt)
		}
		check()
		for i := 0; i < n; i++ {
			before := len(m.objs)
			m.step(rt)
			if len(m.objs) < before {
				removed++
			}
			check()
		}
		c.NT(m.maxed > m.max && removed > 0)
		c.L("uniq=%v", m.uniq)
		c.L("bulk=%v", m.bulk)
	})
}

func distToBox(p geo.Point, b geo.Box) float64 {
	dx := math.Max(0, math.Max(b.MinX-p.X, p.X-b.MaxX))
	dy := math.Max(0, math.Max(b.MinY-p.Y, p.Y-b.MaxY))
	return dx*dx + dy*dy
}

func TestC03_KNN(t *testing.T) {
	run(t, 500, rtRule+"after every operation k-nearest queries with k from 0 to beyond the size, from points inside, beside and far from the data; non-trivial: more than max objects were stored and 0 < k < size", func(rt *rapid.T, c *Case) {
		m := newMachine(rt, c, false, true)
		n := ir(rt, 0, 10, "ops")
		nt := false
		check := func() {
			p := m.l.pt(genIP(rt, pick(rt, "qr", 1, m.l.r, m.l.r+6, 10*m.l.r), "q"))
			if len(m.objs) > 0 && bl(rt, "atobj") {
				b := pickObj(rt, m.objs).box
				p = geo.Point{X: b.MinX, Y: b.MaxY}
			}
			k := pick(rt, "k", 0, 1, 1, 2, 3, 5, 10, ir(rt, 0, len(m.objs), "kany"), len(m.objs)/2, len(m.objs), len(m.objs)+1, 1000, math.MaxInt)
			m.checkKNN(rt, k, p)
			m.checkHeld(rt)
			if k > 0 && k < len(m.objs) && len(m.objs) > m.max {
				nt = true
			}
		}
		for i := 0; i < 3; i++ {
			check()
		}
		for i := 0; i < n; i++ {
			m.step(rt)
			check()
		}
		c.NT(nt)
		c.L("bulk=%v", m.bulk)
	})
}

func (m *rtMachine) checkKNN(rt *rapid.T, k int, p geo.Point) {
	m.c.D("\n knn k=%d p=%v", k, p)
	got := m.tree.NearestNeighbors(k, p)
	if len(got) != min(k, len(m.objs)) {
		rt.Fatalf("NearestNeighbors(%d, %v) returns %d objects of %d", k, p, len(got), len(m.objs))
	}
	m.hold(fmt.Sprintf("NearestNeighbors(%d, %v)", k, p), got)
	// returned objects are stored ones, not more often than stored
	count := map[string]int{}
	for _, o := range m.objs {
		count[spKey(o.sp)]++
	}
	var dists []float64
	for _, s := range got {
		count[spKey(s)]--
		if count[spKey(s)] < 0 {
			rt.Fatalf("NearestNeighbors(%d, %v) returns %s more often than it is stored", k, p, spKey(s))
		}
		dists = append(dists, distToBox(p, envel(s.Geom)))
	}
	for i := 1; i < len(dists); i++ {
		if dists[i] < dists[i-1]*(1-1e-12) {
			rt.Fatalf("NearestNeighbors(%d, %v) is not in order of distance: %v", k, p, dists)
		}
	}
	var all []float64
	for _, o := range m.objs {
		all = append(all, distToBox(p, o.box))
	}
	sort.Float64s(all)
	for i := range dists {
		if math.Abs(dists[i]-all[i]) > 1e-12*math.Max(dists[i], all[i]) {
			rt.Fatalf("NearestNeighbors(%d, %v): squared distances %v, true nearest %v", k, p, dists, all[:len(dists)])
		}
	}
}

func TestC04_Structure(t *testing.T) {
	run(t, 500, rtRule+"after every operation the reported internal boxes and the depth are checked; a third of the cases is grown by insertion only, with min >= 2, for the depth bound; non-trivial: depth of 2 or more was reached", func(rt *rapid.T, c *Case) {
		grown := ir(rt, 0, 2, "grown") == 0
		m := newMachine(rt, c, grown, false)
		n := ir(rt, 1, 20, "ops")
		deep := 0
		check := func() {
			d := m.tree.Depth()
			deep = max(deep, d)
			boxes := m.tree.GetAllBoundingBoxes()
			if d < 1 {
				rt.Fatalf("Depth() = %d", d)
			}
			if d == 1 && len(boxes) != 0 {
				rt.Fatalf("index of depth 1 reports %d internal boxes", len(boxes))
			}
			for _, o := range m.objs {
				k := 0
				for _, b := range boxes {
					if boxIn(*b, o.box) {
						k++
					}
				}
				if k < d-1 {
					rt.Fatalf("only %d internal boxes contain %s, depth is %d", k, spKey(o.sp), d)
				}
			}
			for _, b := range boxes {
				var sides [4]bool
				for _, o := range m.objs {
					if boxIn(*b, o.box) {
						sides[0] = sides[0] || o.box.MinX == b.MinX
						sides[1] = sides[1] || o.box.MaxX == b.MaxX
						sides[2] = sides[2] || o.box.MinY == b.MinY
						sides[3] = sides[3] || o.box.MaxY == b.MaxY
					}
				}
				if sides != [4]bool{true, true, true, true} {
					rt.Fatalf("internal box %v is not tight (minX,maxX,minY,maxY attained: %v)", *b, sides)
				}
			}
			if grown {
				bound := 1.0
				if len(m.objs) >= 2 {
					bound = math.Max(1, 1+math.Log(float64(len(m.objs))/2)/math.Log(float64(m.min)))
				}
				if float64(d) > bound+1e-9 {
					rt.Fatalf("depth %d of a grown index of %d objects, min fill %d, bound %.3f", d, len(m.objs), m.min, bound)
				}
			}
		}
		check()
		for i := 0; i < n; i++ {
			if grown { // insertions only
				k := pick(rt, "grow", 1, 1, 3, 20)
				c.D("\n grow:")
				for ; k > 0; k-- {
					s := m.genObj(rt)
					c.D("%s", descSps([]geo.Spatial{s}))
					m.tree.Insert(s)
					m.objs = append(m.objs, rtObj{s, envel(s.Geom)})
				}
			} else {
				m.step(rt)
			}
			check()
		}
		c.NT(deep >= 2)
		c.L("depth=%d", min(deep, 6))
		c.L("grown=%v", grown)
	})
}

// ---- regression inputs of repaired defects ----

func TestC01_Regress(t *testing.T) {
	var objs []geo.Spatial
	for i := 0; i < 12; i++ {
		objs = append(objs, geo.Spatial{ID: fmt.Sprint(i), Geom: geo.Point{X: float64(i), Y: 0}})
	}
	tr := geo.NewMinMaxTree(2, 4, objs...)
	tr.Insert(geo.Spatial{ID: "n", Geom: geo.Point{X: 0.5, Y: 0}})
	seen := map[string]int{}
	for _, s := range tr.SearchIntersect(&geo.Box{MinX: -1, MinY: -1, MaxX: 99, MaxY: 1}) {
		seen[s.ID]++
	}
	for i := 0; i < 12; i++ {
		if seen[fmt.Sprint(i)] != 1 {
			t.Fatalf("object %d found %d times after an insertion into a bulk-loaded index", i, seen[fmt.Sprint(i)])
		}
	}
}

func TestC02_Regress(t *testing.T) {
	line := geo.LineString{{X: 0, Y: 0}, {X: 1, Y: 1}}
	tr := geo.NewTree(geo.Spatial{ID: "a", Geom: line})
	if msg := noPanic(func() {
		if !tr.Delete(geo.Spatial{ID: "a", Geom: line}) || tr.Size() != 0 {
			t.Fatalf("line not deleted")
		}
	}); msg != "" {
		t.Fatalf("Delete of a line: %s", msg)
	}
	// empty a deep index and fill it again
	for n := 5; n <= 40; n++ {
		var objs []geo.Spatial
		for i := 0; i < n; i++ {
			objs = append(objs, geo.Spatial{ID: fmt.Sprint(i), Geom: geo.Point{X: float64(i * i % 17), Y: float64(i % 5)}})
		}
		if msg := noPanic(func() {
			tr := geo.NewMinMaxTree(2, 4, objs...)
			for i := range objs {
				if !tr.Delete(objs[i]) {
					t.Fatalf("n=%d: delete %d reports false", n, i)
				}
			}
			for i := range objs {
				tr.Insert(objs[i])
			}
			if tr.Size() != n {
				t.Fatalf("n=%d: size %d", n, tr.Size())
			}
		}); msg != "" {
			t.Fatalf("n=%d: %s", n, msg)
		}
	}
}
