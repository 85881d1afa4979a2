// Package harness holds the generated-input checks of go-geo. It only uses the exported API of /repo.
package harness

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---- one generated case ----

type Case struct {
	rt     *rapid.T
	desc   strings.Builder
	nt     bool
	labels []string
}

// D appends to the description of the case. It must be called before the code under test runs on that data.
func (c *Case) D(format string, args ...any) {
	if c.desc.Len() > 0 {
		c.desc.WriteByte(' ')
	}
	if len(args) == 0 {
		c.desc.WriteString(format)
	} else {
		fmt.Fprintf(&c.desc, format, args...)
	}
	if journalPath != "" {
		_ = os.WriteFile(journalPath, []byte(c.desc.String()), 0o644)
	}
	wd.mu.Lock()
	wd.cur = c
	wd.mu.Unlock()
}

// NT marks the case as non-trivial.
func (c *Case) NT(b bool) {
	if b {
		c.nt = true
	}
}

// L counts a class of cases.
func (c *Case) L(format string, args ...any) {
	c.labels = append(c.labels, fmt.Sprintf(format, args...))
}

// ---- statistics ----

type stats struct {
	Test    string         `json:"test"`
	Rule    string         `json:"rule"`
	Evals   int            `json:"evals"`
	NT      int            `json:"nontrivial"`
	Labels  map[string]int `json:"labels"`
	Samples []string       `json:"samples"`
	hashes  map[uint64]struct{}
}

var (
	outDir      = os.Getenv("VH_OUT")
	journalPath = os.Getenv("VH_JOURNAL")
	mult        = 1.0
	baseSeed    = uint64(1)
	shard       = 0
)

// ---- watchdog: CPU time and memory of a single case ----

type watchdog struct {
	mu       sync.Mutex
	cur      *Case
	serial   int
	active   bool
	cpuStart time.Duration
}

var wd watchdog

func cpuNow() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rssBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

const (
	caseCPULimit = 60 * time.Second
	caseRSSLimit = 2500 << 20
)

func (w *watchdog) loop() {
	for {
		time.Sleep(50 * time.Millisecond)
		w.mu.Lock()
		if w.active {
			cpu := cpuNow() - w.cpuStart
			rss := rssBytes()
			if cpu > caseCPULimit || rss > caseRSSLimit {
				desc := ""
				if w.cur != nil {
					desc = w.cur.desc.String()
				}
				msg := fmt.Sprintf("HANG: one case used %v CPU, process holds %d MB\nCASE %s\n", cpu, rss>>20, desc)
				fmt.Println(msg)
				if outDir != "" {
					_ = os.WriteFile(filepath.Join(outDir, "hang.txt"), []byte(msg), 0o644)
				}
				os.Exit(97)
			}
		}
		w.mu.Unlock()
	}
}

func (w *watchdog) begin(c *Case) {
	now := cpuNow()
	w.mu.Lock()
	w.cur, w.active, w.cpuStart = c, true, now
	w.mu.Unlock()
}

func (w *watchdog) end() {
	w.mu.Lock()
	w.active = false
	w.mu.Unlock()
}

func TestMain(m *testing.M) {
	flag.Parse()
	if s := os.Getenv("VH_MULT"); s != "" {
		mult, _ = strconv.ParseFloat(s, 64)
	}
	if s := os.Getenv("VH_SEED"); s != "" {
		baseSeed, _ = strconv.ParseUint(s, 10, 64)
	}
	if s := os.Getenv("VH_SHARD"); s != "" {
		shard, _ = strconv.Atoi(s)
	}
	debug.SetMaxStack(128 << 20)
	if os.Getenv("VH_FRESH") != "" {
		serveFresh()
		os.Exit(0)
	}
	go wd.loop()
	os.Exit(m.Run())
}

func testSeed(name string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%d|%d", name, baseSeed, shard)
	s := h.Sum64()
	if s == 0 {
		s = 1
	}
	return s
}

// run drives one generated property. n is the number of cases per process in the quick tier; rule says how cases
// are made and what makes one non-trivial.
func run(t *testing.T, n int, rule string, body func(rt *rapid.T, c *Case)) {
	t.Helper()
	checks := int(float64(n) * mult)
	if checks < 1 {
		checks = 1
	}
	_ = flag.Set("rapid.checks", strconv.Itoa(checks))
	_ = flag.Set("rapid.seed", strconv.FormatUint(testSeed(t.Name()), 10))
	st := &stats{Test: t.Name(), Rule: rule, Labels: map[string]int{}, hashes: map[uint64]struct{}{}}
	t.Cleanup(func() { st.write() })
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{rt: rt}
		done := false
		wd.begin(c)
		defer func() {
			wd.end()
			if !done {
				rt.Logf("CASE %s", c.desc.String())
			}
		}()
		body(rt, c)
		done = true
		st.add(c)
	})
}

func (st *stats) add(c *Case) {
	st.Evals++
	for _, l := range c.labels {
		st.Labels[l]++
	}
	if !c.nt {
		return
	}
	st.NT++
	d := c.desc.String()
	if len(st.hashes) < 250000 { // beyond this many the distinct count is a lower bound
		h := fnv.New64a()
		h.Write([]byte(st.Test))
		h.Write([]byte(d))
		st.hashes[h.Sum64()] = struct{}{}
	}
	// deterministic, spread-out samples
	if st.NT == 3 || st.NT == 50 || st.NT == 700 {
		if len(d) > 1500 {
			d = d[:1500] + "..."
		}
		st.Samples = append(st.Samples, d)
	}
}

func (st *stats) write() {
	if outDir == "" {
		return
	}
	b, _ := json.Marshal(st)
	base := filepath.Join(outDir, strings.ReplaceAll(st.Test, "/", "_"))
	_ = os.WriteFile(base+".json", b, 0o644)
	buf := make([]byte, 0, 8*len(st.hashes))
	for h := range st.hashes {
		buf = binary.LittleEndian.AppendUint64(buf, h)
	}
	_ = os.WriteFile(base+".hash", buf, 0o644)
}

// known reports a recorded, unrepaired defect: it prints a KNOWN-FINDING line while the specific input still fails.
func known(prop, what string, stillFails bool) {
	if stillFails && shard == 0 {
		fmt.Printf("\nKNOWN-FINDING: property=%s %s\n", prop, what)
	}
}

// noPanic runs f and returns the recovered panic value as text ("" if none).
func noPanic(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("panic: %v", e)
		}
	}()
	f()
	return ""
}
