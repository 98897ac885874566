// Package hx drives rapid properties from a plain binary: it counts and
// samples the generated cases, saves shrunk failures, and watches for cases
// that kill or hang the process.
package hx

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Exit codes understood by check.py.
const (
	ExitHang = 97
	ExitMem  = 96
)

type sub struct {
	prop, name      string
	quick, thorough int
	fn              func(*rapid.T, *Case)
}

type probe struct {
	prop, id string
	fn       func() (bool, string)
}

var subs []sub
var probes []probe

// Register adds one sub-check of a property with its case counts.
func Register(prop, name string, quick, thorough int, fn func(*rapid.T, *Case)) {
	subs = append(subs, sub{prop, name, quick, thorough, fn})
}

// Probe adds a reproduction of a listed known finding; it returns whether the
// recorded failure still happens, and what it saw.
func Probe(prop, id string, fn func() (bool, string)) {
	probes = append(probes, probe{prop, id, fn})
}

// Case collects what one generated case was.
type Case struct {
	nontrivial bool
	repr       string
	classes    []string
}

// Describe records the case in a canonical text form, and whether it is
// non-trivial by the property's rule.
func (c *Case) Describe(nontrivial bool, format string, args ...interface{}) {
	c.nontrivial = nontrivial
	c.repr = fmt.Sprintf(format, args...)
}

// Class labels the case for the distribution report.
func (c *Case) Class(cond bool, label string) {
	if cond {
		c.classes = append(c.classes, label)
	}
}

type subStats struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Invalid     int            `json:"discarded"`
	Classes     map[string]int `json:"classes,omitempty"`
	WallS       float64        `json:"wall_s"`
}

type failure struct {
	Sub      string `json:"sub"`
	Message  string `json:"message"`
	FailFile string `json:"failfile"`
	CaseRepr string `json:"case"`
}

type result struct {
	Property string               `json:"property"`
	Seed     uint64               `json:"seed"`
	Subs     map[string]*subStats `json:"subs"`
	Samples  []string             `json:"samples"`
	Failures []failure            `json:"failures"`
	Known    []string             `json:"known"`
	KnownAbs []string             `json:"known_absent"`
}

// tb is the reporter handed to rapid.
type tb struct {
	name   string
	mu     sync.Mutex
	failed bool
	buf    strings.Builder
}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return t.name }
func (t *tb) logf(f string, a ...interface{}) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.buf.Len() < 200000 {
		fmt.Fprintf(&t.buf, f+"\n", a...)
	}
}
func (t *tb) Logf(f string, a ...any)   { t.logf(f, a...) }
func (t *tb) Log(a ...any)              { t.logf("%s", fmt.Sprintln(a...)) }
func (t *tb) Skipf(f string, a ...any)  { t.logf(f, a...); runtime.Goexit() }
func (t *tb) Skip(a ...any)             { runtime.Goexit() }
func (t *tb) SkipNow()                  { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.logf(f, a...); t.Fail() }
func (t *tb) Error(a ...any)            { t.Log(a...); t.Fail() }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *tb) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *tb) FailNow()                  { t.Fail(); runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

var caseStart, caseCPU int64 // unix nanoseconds, process cpu nanoseconds
var caseLimitS int64 = 90

// SlowCases raises the watchdog's per-case limit for a property whose cases
// legitimately take long.
func SlowCases(seconds int64) { atomic.StoreInt64(&caseLimitS, seconds) }

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// watchdog ends the process when one case has used far more processor time
// than any case needs, has been stuck without using any, or has filled memory.
func watchdog() {
	lastCPU, idleSince := int64(0), time.Now()
	lastStart := int64(0)
	for {
		time.Sleep(500 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 5<<30 {
			fmt.Fprintln(os.Stderr, "HX: case filled memory")
			dump()
			os.Exit(ExitMem)
		}
		st := atomic.LoadInt64(&caseStart)
		now := cpuNow()
		if st == 0 {
			idleSince = time.Now()
			lastCPU = now
			continue
		}
		if st != lastStart || now-lastCPU > int64(200*time.Millisecond) {
			lastStart = st
			idleSince = time.Now()
			lastCPU = now
		}
		lim := time.Duration(atomic.LoadInt64(&caseLimitS)) * time.Second
		if now-atomic.LoadInt64(&caseCPU) > int64(lim) || time.Since(idleSince) > lim {
			fmt.Fprintln(os.Stderr, "HX: case does not finish")
			dump()
			os.Exit(ExitHang)
		}
	}
}

func dump() {
	b := make([]byte, 1<<18)
	n := runtime.Stack(b, true)
	os.Stderr.Write(b[:n])
}

// SeedRand seeds the package-level generator golearn uses from a drawn value.
func SeedRand(t *rapid.T) int64 {
	s := rapid.Int64Range(1, 1<<31).Draw(t, "randseed")
	rand.Seed(s)
	return s
}

// Scratch is a directory private to this run.
var Scratch string

func hash(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

func setFlag(k, v string) {
	if err := flag.Set(k, v); err != nil {
		panic(err)
	}
}

func runOne(s sub, checks int, seed uint64, failfile string, res *result, hashes map[uint64]bool) {
	st := &subStats{Classes: map[string]int{}}
	res.Subs[s.name] = st
	if seed == 0 {
		seed = 1
	}
	setFlag("rapid.checks", strconv.Itoa(checks))
	setFlag("rapid.seed", strconv.FormatUint(seed, 10))
	setFlag("rapid.failfile", failfile)
	setFlag("rapid.shrinktime", "12s")
	rep := &tb{name: s.prop + "_" + s.name}
	var lastRepr string
	nsamples := 0
	failing := false
	body := func(t *rapid.T) {
		c := &Case{}
		atomic.StoreInt64(&caseCPU, cpuNow())
		atomic.StoreInt64(&caseStart, time.Now().UnixNano())
		ok := false
		defer func() {
			atomic.StoreInt64(&caseStart, 0)
			lastRepr = c.repr
			if !ok || failing {
				if !ok && !failing {
					st.Invalid++ // a discarded or (the last one) failing case
				}
				return
			}
			st.Evaluations++
			for _, l := range c.classes {
				st.Classes[l]++
			}
			if c.nontrivial {
				st.Nontrivial++
				hashes[hash(s.name+"\x00"+c.repr)] = true
				if nsamples < 2 && len(c.repr) < 2500 && st.Nontrivial > 3 {
					nsamples++
					res.Samples = append(res.Samples, s.name+": "+c.repr)
				}
			}
		}()
		rand.Seed(1)
		s.fn(t, c)
		ok = true
	}
	start := time.Now()
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(rep, body)
	}()
	<-done
	st.WallS = time.Since(start).Seconds()
	if rep.failed {
		msg := rep.buf.String()
		if strings.Contains(msg, "[rapid] only generated") {
			// a generator problem of ours, not a violation
			fmt.Fprintln(os.Stderr, "HX: generator discards too much: "+msg)
			os.Exit(3)
		}
		ff := ""
		if m, _ := filepath.Glob(filepath.Join("testdata", "rapid", "*", "*.fail")); len(m) > 0 {
			sort.Strings(m)
			for _, f := range m {
				if strings.HasPrefix(filepath.Base(f), s.prop+"_"+s.name+"-") {
					ff, _ = filepath.Abs(f)
				}
			}
		}
		if failfile != "" {
			ff = failfile
		}
		res.Failures = append(res.Failures, failure{s.name, msg, ff, lastRepr})
	}
}

// Main runs the checks of VERIF_PROP and writes a result file.
func Main() {
	testing.Init()
	flag.CommandLine.Parse(nil)
	debug.SetTraceback("all")
	prop := os.Getenv("VERIF_PROP")
	out := os.Getenv("HX_OUT")
	only := os.Getenv("HX_SUB")
	failfile := os.Getenv("HX_FAILFILE")
	tier := os.Getenv("VERIF_TIER")
	seed, err := strconv.ParseUint(os.Getenv("HX_SEED"), 10, 64)
	if err != nil || seed == 0 {
		seed = 1
	}
	scale := 1.0
	if v, err := strconv.ParseFloat(os.Getenv("HX_SCALE"), 64); err == nil && v > 0 {
		scale = v
	}
	Scratch = os.Getenv("HX_SCRATCH")
	if Scratch == "" {
		Scratch, _ = os.MkdirTemp("", "hx")
	}
	if err := os.Chdir(Scratch); err != nil {
		panic(err)
	}
	// golearn prints progress from Go and from C
	if null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0); err == nil {
		syscall.Dup2(int(null.Fd()), 1)
	}
	log.SetOutput(io.Discard)
	go watchdog()

	res := &result{Property: prop, Seed: seed, Subs: map[string]*subStats{}}
	hashes := map[uint64]bool{}
	n := 0
	for _, s := range subs {
		if s.prop != prop || (only != "" && s.name != only) {
			continue
		}
		n++
		checks := s.quick
		if tier == "thorough" {
			checks = s.thorough
		}
		checks = int(float64(checks)*scale + 0.5)
		if checks < 1 {
			checks = 1
		}
		if failfile != "" {
			checks = 1
		}
		os.WriteFile(out+".at", []byte(s.name), 0644)
		runOne(s, checks, seed+hash(s.name)%1000003, failfile, res, hashes)
	}
	if n == 0 {
		fmt.Fprintln(os.Stderr, "HX: no checks for", prop)
		os.Exit(3)
	}
	if os.Getenv("HX_PROBES") != "" {
		for _, p := range probes {
			if p.prop != prop {
				continue
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						res.Known = append(res.Known, p.id+"\t"+fmt.Sprint(r))
					}
				}()
				if failing, what := p.fn(); failing {
					res.Known = append(res.Known, p.id+"\t"+what)
				} else {
					res.KnownAbs = append(res.KnownAbs, p.id)
				}
			}()
		}
	}
	hb := make([]byte, 0, 8*len(hashes))
	for h := range hashes {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	os.WriteFile(out+".hashes", hb, 0644)
	b, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(out, b, 0644); err != nil {
		panic(err)
	}
}
