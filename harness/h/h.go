// Package h runs generated-case checks: it counts what was generated, keeps samples, and watches
// every case for hanging, so that the runner (check.py) can report what each check covered.
package h

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/bits"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const (
	noteSize   = 1 << 18
	maxSamples = 12
	maxHashes  = 1 << 20
)

type groupStats struct {
	Cases      int            `json:"cases"`
	NonTrivial int            `json:"nontrivial"`
	Distinct   int            `json:"distinct"`
	Labels     map[string]int `json:"labels"`
	Samples    []string       `json:"samples"`
}

var (
	mu     sync.Mutex
	groups = map[string]*groupStats{}
	hashes = map[string]map[uint64]struct{}{}

	scale   = 1.0
	note    []byte
	started atomic.Int64 // unix nanoseconds when the current case began; 0 for none
	budget  atomic.Int64 // seconds a case may take before it counts as hanging
)

// Case is one generated case.
type Case struct {
	g       *groupStats
	name    string
	nontriv bool
	hash    uint64
	sample  string
	labels  []string
	notes   strings.Builder
}

// NonTrivial marks the case as one that exercises the property, and gives the text that identifies
// it, which is also the sample that is shown.
func (c *Case) NonTrivial(format string, args ...any) {
	s := format
	if len(args) > 0 {
		s = fmt.Sprintf(format, args...)
	}
	c.nontriv = true
	h := fnv.New64a()
	h.Write([]byte(c.name + "\n" + s))
	c.hash = h.Sum64()
	c.sample = s
}

// Label counts a kind of case.
func (c *Case) Label(l string) {
	c.labels = append(c.labels, l)
}

func (c *Case) LabelIf(b bool, l string) {
	if b {
		c.Label(l)
	}
}

// Note keeps a description of the case where the runner finds it if the process dies.
func (c *Case) Note(format string, args ...any) {
	s := format
	if len(args) > 0 {
		s = fmt.Sprintf(format, args...)
	}
	c.notes.WriteString(s)
	c.notes.WriteByte('\n')
	if note != nil {
		writeNote(c.name + "\n" + c.notes.String())
	}
}

// Renote replaces the description of the case.
func (c *Case) Renote(format string, args ...any) {
	c.notes.Reset()
	c.Note(format, args...)
}

func writeNote(s string) {
	if len(s) > noteSize-1 {
		s = s[:noteSize-1]
	}
	n := copy(note, s)
	note[n] = 0
}

// Scale gives the number of cases for a base number.
func Scale(base int) int {
	n := int(float64(base) * scale)
	if n < 1 {
		n = 1
	}
	return n
}

// Check runs base (scaled) cases of prop.
func Check(t *testing.T, base int, prop func(t *rapid.T, c *Case)) {
	t.Helper()
	CheckTimed(t, base, 60, prop)
}

// CheckTimed is Check with the number of seconds after which a case counts as hanging.
func CheckTimed(t *testing.T, base int, secs int, prop func(t *rapid.T, c *Case)) {
	t.Helper()

	name := t.Name()
	mu.Lock()
	g := groups[name]
	if g == nil {
		g = &groupStats{Labels: map[string]int{}}
		groups[name] = g
		hashes[name] = map[uint64]struct{}{}
	}
	hs := hashes[name]
	mu.Unlock()

	flag.Set("rapid.checks", strconv.Itoa(Scale(base)))
	budget.Store(int64(secs))
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{g: g, name: name}
		if note != nil {
			writeNote(name + "\n")
		}
		started.Store(time.Now().UnixNano())
		defer started.Store(0)
		prop(rt, c)

		mu.Lock()
		defer mu.Unlock()
		g.Cases++
		for _, l := range c.labels {
			g.Labels[l]++
		}
		if c.nontriv {
			g.NonTrivial++
			if _, ok := hs[c.hash]; !ok && len(hs) < maxHashes {
				hs[c.hash] = struct{}{}
				g.Distinct = len(hs)
				// Keep the samples spread over the run.
				if n := g.Distinct; n&(n-1) == 0 && len(g.Samples) < maxSamples {
					s := c.sample
					if len(s) > 600 {
						s = s[:600] + "…"
					}
					g.Samples = append(g.Samples, strings.ToValidUTF8(s, "�"))
				}
			}
		}
	})
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec) + float64(ru.Utime.Usec)/1e6 +
		float64(ru.Stime.Sec) + float64(ru.Stime.Usec)/1e6
}

func die(kind string) {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	fmt.Fprintf(os.Stderr, "\nVERIF-HANG %s\n%s\n", kind, buf[:n])
	os.Exit(3)
}

// blocked reports whether no goroutine but the caller could run.
func blocked() bool {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	for i, s := range strings.Split(string(buf[:n]), "\n\n") {
		if i == 0 {
			continue // the caller
		}
		hdr, _, _ := strings.Cut(s, "\n")
		if strings.Contains(hdr, "[running") || strings.Contains(hdr, "[runnable") ||
			strings.Contains(hdr, "[syscall") || strings.Contains(hdr, "[sleep") {
			return false
		}
	}
	return true
}

func watch() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	var cur int64
	var cpu float64
	stuck := 0
	for {
		time.Sleep(250 * time.Millisecond)
		metrics.Read(sample)
		st := started.Load()
		if st == 0 {
			cur = 0
			continue
		}
		if st != cur {
			cur, cpu, stuck = st, cpuSeconds(), 0
		}
		if sample[0].Value.Uint64() > 6<<30 {
			die("memory grew beyond 6 GB in one case")
		}
		if time.Since(time.Unix(0, st)) < time.Duration(budget.Load())*time.Second {
			continue
		}
		if cpuSeconds()-cpu >= 20 {
			die("case does not finish")
		}
		if blocked() {
			stuck++
			if stuck >= 8 {
				die("case is blocked for ever")
			}
		} else {
			stuck = 0
		}
	}
}

// Main runs the tests of a package.
func Main(m *testing.M) {
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		f, err := strconv.ParseFloat(s, 64)
		if err == nil && f > 0 {
			scale = f
		}
	}
	debug.SetMaxStack(256 << 20)
	flag.Parse()
	if fn := os.Getenv("VERIF_NOTE"); fn != "" {
		f, err := os.OpenFile(fn, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
		if err == nil {
			f.Truncate(noteSize)
			note, err = syscall.Mmap(int(f.Fd()), 0, noteSize, syscall.PROT_READ|syscall.PROT_WRITE,
				syscall.MAP_SHARED)
			if err != nil {
				note = nil
			}
		}
	}
	go watch()
	rc := m.Run()

	if fn := os.Getenv("VERIF_STATS"); fn != "" {
		mu.Lock()
		buf, err := json.MarshalIndent(groups, "", " ")
		var hb []byte
		for _, hs := range hashes {
			for x := range hs {
				hb = binary.LittleEndian.AppendUint64(hb, x)
			}
		}
		mu.Unlock()
		if err == nil {
			err = os.WriteFile(fn+".hashes", hb, 0o644)
		}
		if err == nil {
			err = os.WriteFile(fn, buf, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "stats:", err)
			rc = 4
		}
	}
	os.Exit(rc)
}

// ---- Drawing ----

var nGens sync.Map

// N draws an integer from 0 to n-1 evenly (rapid's own integers and SampledFrom prefer the ends).
func N(t *rapid.T, n int, label string) int {
	if n <= 1 {
		return 0
	}
	g, ok := nGens.Load(n)
	if !ok {
		k := bits.Len(uint(n-1)) + 3
		g = rapid.Custom(func(t *rapid.T) int {
			v := 0
			for i := 0; i < k; i++ {
				v <<= 1
				if bit.Draw(t, "bit") {
					v |= 1
				}
			}
			return v * n >> k
		})
		nGens.Store(n, g)
	}
	return g.(*rapid.Generator[int]).Draw(t, label)
}

var bit = rapid.Bool()

var intsCache sync.Map

func ints(n int) []int {
	if v, ok := intsCache.Load(n); ok {
		return v.([]int)
	}
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	intsCache.Store(n, s)
	return s
}

// Pick draws one of the choices, evenly.
func Pick[T any](t *rapid.T, label string, choices ...T) T {
	return choices[N(t, len(choices), label)]
}

// Chance is true with pct percent.
func Chance(t *rapid.T, pct int, label string) bool {
	// Shrinks to false.
	return N(t, 100, label) >= 100-pct
}

// Weighted draws an index with the given weights.
func Weighted(t *rapid.T, label string, w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	n := N(t, sum, label)
	for i, x := range w {
		if n < x {
			return i
		}
		n -= x
	}
	return len(w) - 1
}

// Perm draws a permutation of n.
func Perm(t *rapid.T, n int, label string) []int {
	return rapid.Permutation(ints(n)).Draw(t, label)
}

func SortedKeys[K ~string, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

// Panicked runs fn and reports the panic, if there was one.
func Panicked(fn func()) (val any) {
	defer func() {
		val = recover()
	}()
	fn()
	return nil
}

// Refused runs a call that has to be refused, by an error or a panic with a message.
func Refused(what string, fn func() error) error {
	var err error
	p := Panicked(func() {
		err = fn()
	})
	if err == nil && p == nil {
		return fmt.Errorf("%s was not refused", what)
	}
	if e, ok := p.(runtime.Error); ok {
		return fmt.Errorf("%s failed badly: %s", what, e)
	}
	return nil
}
