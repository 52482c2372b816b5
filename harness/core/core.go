// Package core is the check runner: deterministic case lists, panic capture,
// counting of what was observed, replay files and evidence.
package core

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/ref"
)

// Gen is one workload generator: Quick/Thorough cases, each decided by Run.
type Gen struct {
	Name     string
	Quick    int
	Thorough int
	Run      func(c *C)
	Serial   bool // run its cases after the parallel ones, one at a time
}

// Prop is a property with its workloads.
type Prop struct {
	ID          string
	Rule        string
	Assumptions []string
	MinEval     int
	Gens        []Gen
}

var Props = map[string]*Prop{}

func Register(p *Prop) { Props[p.ID] = p }

// C is the context of one case.
type C struct {
	Prop  *Prop
	Gen   string
	I     int
	Tier  string
	Seed  int64
	R     *mrand.Rand
	evals int
	keys  [][12]byte
	obs   map[string]int
	note  []string
}

type failure struct{ class, msg string }

// Fail ends the case with a violation. class identifies what failed, so that a
// known finding suppresses only itself.
func (c *C) Fail(class, format string, a ...interface{}) {
	panic(failure{class, fmt.Sprintf(format, a...)})
}

// Check fails unless ok.
func (c *C) Check(ok bool, class, format string, a ...interface{}) {
	if !ok {
		c.Fail(class, format, a...)
	}
}

// Ev counts one oracle evaluation. key makes it distinct; empty key = trivial.
func (c *C) Ev(key ...interface{}) {
	c.evals++
	if len(key) > 0 {
		h := sha256.New()
		fmt.Fprintf(h, "%s|", c.Gen)
		for _, k := range key {
			switch v := k.(type) {
			case []byte:
				fmt.Fprintf(h, "b%d:", len(v))
				h.Write(v)
			case *big.Int:
				fmt.Fprintf(h, "i%s,", v.Text(16))
			case ref.Point:
				fmt.Fprintf(h, "p%x,", v.Compressed())
			default:
				fmt.Fprintf(h, "v%v,", v)
			}
		}
		var s [12]byte
		copy(s[:], h.Sum(nil))
		c.keys = append(c.keys, s)
	}
}

// Obs counts an observed event kind.
func (c *C) Obs(name string, n int) { c.obs[name] += n }

// Note adds a line describing the case (for samples and replay files).
func (c *C) Note(format string, a ...interface{}) {
	if len(c.note) < 12 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.note = append(c.note, s)
	}
}

// Panics reports whether f panics (and the panic text).
func (c *C) Panics(f func()) (msg string, p bool) {
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(failure); ok {
				panic(fl)
			}
			msg, p = fmt.Sprint(r)+" @ "+panicSite(debug.Stack()), true
		}
	}()
	f()
	return "", false
}

// NoPanic runs f and fails with class if it panics.
func (c *C) NoPanic(class string, what string, f func()) {
	if msg, p := c.Panics(f); p {
		c.Fail(class, "%s: crashed: %s", what, msg)
	}
}

func panicSite(st []byte) string {
	lines := strings.Split(string(st), "\n")
	seen := false
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.Contains(l, "PlatONnetwork/tecdsa") && i+1 < len(lines) {
			return strings.TrimSpace(lines[i+1])
		}
	}
	return "outside the library"
}

// ---- deterministic random values with boundary bias ----

func (c *C) Int(n int) int { return c.R.Intn(n) }
func (c *C) Bool() bool    { return c.R.Intn(2) == 0 }
func (c *C) Bytes(n int) []byte {
	b := make([]byte, n)
	c.R.Read(b)
	return b
}
func (c *C) Uniform(m *big.Int) *big.Int {
	return new(big.Int).Mod(new(big.Int).SetBytes(c.Bytes(48)), m)
}

func boundaries(m *big.Int) []*big.Int {
	out := []*big.Int{}
	for d := int64(0); d <= 5; d++ {
		out = append(out, big.NewInt(d), new(big.Int).Sub(m, big.NewInt(d+1)))
	}
	h := new(big.Int).Rsh(m, 1)
	for d := int64(-2); d <= 2; d++ {
		out = append(out, new(big.Int).Add(h, big.NewInt(d)))
	}
	for _, k := range []uint{8, 31, 32, 63, 64, 65, 127, 128, 129, 191, 192, 193, 254, 255} {
		p := new(big.Int).Lsh(big.NewInt(1), k)
		out = append(out, p, new(big.Int).Sub(p, big.NewInt(1)), new(big.Int).Add(p, big.NewInt(1)))
		out = append(out, new(big.Int).Mod(new(big.Int).Sub(m, p), m))
	}
	// Montgomery-related values: R, R^-1, R/2, R mod m and neighbours.
	R := new(big.Int).Lsh(big.NewInt(1), 256)
	Rm := new(big.Int).Mod(R, m)
	Ri := new(big.Int).ModInverse(Rm, m)
	out = append(out, Rm, Ri, new(big.Int).Mod(new(big.Int).Neg(Rm), m), new(big.Int).Mod(new(big.Int).Neg(Ri), m), new(big.Int).Mod(new(big.Int).Mul(h, Ri), m))
	// limb patterns
	for _, s := range []string{
		"ffffffffffffffff000000000000000000000000000000000000000000000000",
		"0000000000000000ffffffffffffffff0000000000000000ffffffffffffffff",
		"00000000000000000000000000000000ffffffffffffffffffffffffffffffff",
		"7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
		"8000000000000000000000000000000000000000000000000000000000000000",
		"00000000000000000000000000000001000000000000000000000000000000ff"} {
		v, _ := new(big.Int).SetString(s, 16)
		out = append(out, new(big.Int).Mod(v, m))
	}
	for i, v := range out {
		out[i] = new(big.Int).Mod(v, m)
	}
	return out
}

var (
	ScalarEdges = boundaries(ref.N)
	FieldEdges  = boundaries(ref.P)
)

// Scalar is boundary-biased, SmallScalar small, RandScalar uniform non-zero.
func (c *C) Scalar() *big.Int {
	switch c.Int(13) {
	case 0:
		return new(big.Int)
	case 1:
		return []*big.Int{big.NewInt(1), big.NewInt(2), new(big.Int).Sub(ref.N, big.NewInt(1))}[c.Int(3)]
	case 2, 3, 4:
		return new(big.Int).Set(ScalarEdges[c.Int(len(ScalarEdges))])
	case 5, 6: // sparse/short values
		return ref.Mod(new(big.Int).SetBytes(c.Bytes(1 + c.Int(32))))
	}
	return c.Uniform(ref.N)
}
func (c *C) Fe() *big.Int {
	switch c.Int(13) {
	case 0:
		return new(big.Int)
	case 1:
		return []*big.Int{big.NewInt(1), big.NewInt(2), new(big.Int).Sub(ref.P, big.NewInt(1))}[c.Int(3)]
	case 2, 3, 4:
		return new(big.Int).Set(FieldEdges[c.Int(len(FieldEdges))])
	case 5, 6:
		return ref.FMod(new(big.Int).SetBytes(c.Bytes(1 + c.Int(32))))
	}
	return c.Uniform(ref.P)
}
func (c *C) RandScalar() *big.Int {
	for {
		if s := c.Uniform(ref.N); s.Sign() != 0 {
			return s
		}
	}
}

// Point: mostly random multiples of G, sometimes G, H, infinity, small multiples,
// points with edge coordinates.
func (c *C) Point() ref.Point {
	switch c.Int(12) {
	case 0:
		return ref.Infinity()
	case 1:
		return ref.G
	case 2:
		return ref.H
	case 3, 4:
		return ref.MulG(c.Scalar())
	case 5:
		return c.EdgePoint()
	}
	return ref.MulG(c.RandScalar())
}

// EdgePoint: a finite point whose x coordinate is small, close to p, not below
// n, close to a power of two or short; its logarithm is unknown.
func (c *C) EdgePoint() ref.Point {
	for {
		x := c.Fe()
		switch c.Int(4) {
		case 0:
			x = new(big.Int).Add(ref.N, big.NewInt(int64(c.Int(200))))
		case 1:
			x = new(big.Int).Add(ref.N, c.Uniform(new(big.Int).Sub(ref.P, ref.N)))
		case 2:
			x = big.NewInt(int64(c.Int(300)))
		}
		for i := 0; i < 4; i++ {
			if p, ok := ref.Decompress(ref.FMod(x), uint(c.Int(2))); ok {
				return p
			}
			x = new(big.Int).Add(x, big.NewInt(1))
		}
	}
}
func (c *C) RandPoint() ref.Point { return ref.MulG(c.RandScalar()) }

// Index: node indices with byte/word boundaries.
func (c *C) Index() int {
	switch c.Int(5) {
	case 0:
		e := []int{0, 1, 2, 3, 7, 8, 15, 16, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 65534, 65535, 65536, 65537, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}
		return e[c.Int(len(e))]
	case 1:
		return c.Int(1 << 16)
	case 2:
		return int(c.R.Uint32())
	}
	return c.Int(40)
}

// WideEdges are node indices around every power of two, up to the largest.
var WideEdges = func() (e []int) {
	for k := uint(1); k < 63; k++ {
		e = append(e, 1<<k-2, 1<<k-1, 1<<k)
	}
	return append(e, 1<<63-2, 1<<63-1)
}()

// WideIndex is a node index of any size: the arithmetic on indices is not
// limited to the 32 bits of the encryption context.
func (c *C) WideIndex() int {
	switch c.Int(4) {
	case 0:
		return WideEdges[c.Int(len(WideEdges))]
	case 1:
		return int(c.R.Uint64() >> uint(1+c.Int(62)))
	}
	return c.Index()
}

var adLens = []int{0, 0, 1, 2, 31, 32, 33, 55, 56, 63, 64, 65, 127, 128, 254, 255, 256, 257, 300, 511, 512, 1000, 4096, 65535, 65536, 70000}

// Long generators use byte strings longer than one or two bytes can count.
func (c *C) Long() bool { return strings.HasPrefix(c.Gen, "long-") }

var longLens = []int{4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 65791, 70000, 100000, 131071, 131072, 131073, 200000}

// LongLen is the length of a long string.
func (c *C) LongLen() int { return longLens[c.Int(len(longLens))] }

// LongBytes is a long string.
func (c *C) LongBytes() []byte {
	if c.Int(24) == 0 {
		return c.Bytes(1<<20 + c.Int(3) - 1)
	}
	return c.Bytes(longLens[c.Int(len(longLens))])
}

// AD: associated data of interesting lengths (nil included).
func (c *C) AD() []byte {
	if c.Long() && c.Int(5) > 0 {
		return c.LongBytes()
	}
	l := adLens[c.Int(len(adLens))]
	if l == 0 && c.Bool() {
		return nil
	}
	return c.Bytes(l)
}

// ADLen is AD with a bound on the length (cost control).
func (c *C) ADMax(max int) []byte {
	for {
		if a := c.AD(); len(a) <= max || c.Long() {
			return a
		}
	}
}

// Perm returns a random permutation prefix of size k out of n.
func (c *C) Subset(n, k int) []int {
	p := c.R.Perm(n)[:k]
	sort.Ints(p)
	return p
}
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// Fork gives a sub-generator that does not disturb c.R's sequence.
func (c *C) Fork(label string) *mrand.Rand { return rngFor(c.Seed, c.Prop.ID, c.Gen+"/"+label, c.I) }

// With is the case with another source of randomness (its evaluations do not count).
func (c *C) With(r *mrand.Rand) *C {
	d := *c
	d.R, d.obs = r, map[string]int{}
	return &d
}

func rngFor(seed int64, prop, gen string, i int) *mrand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d|%s|%s|%d", seed, prop, gen, i)))
	return mrand.New(mrand.NewSource(int64(binary.BigEndian.Uint64(h[:8]))))
}

// ---- running ----

type Violation struct {
	Property, Gen, Class, Msg, Stack, Tier string
	Index                                  int
	Seed                                   int64
	Notes                                  []string
}

type Result struct {
	Evals    int
	Distinct map[[12]byte]struct{}
	Obs      map[string]int
	PerGen   map[string]int
	Samples  []interface{}
	Viol     []Violation
	Wall     float64
	Cases    int
	Planned  int
}

// NewCase makes a case outside of Run.
func NewCase(p *Prop, gen string, i int, seed int64) *C {
	return &C{Prop: p, Gen: gen, I: i, Tier: "quick", Seed: seed, R: rngFor(seed, p.ID, gen, i), obs: map[string]int{}}
}

func runCase(p *Prop, g *Gen, i int, tier string, seed int64) (c *C, v *Violation) {
	c = &C{Prop: p, Gen: g.Name, I: i, Tier: tier, Seed: seed, R: rngFor(seed, p.ID, g.Name, i), obs: map[string]int{}}
	defer func() {
		if r := recover(); r != nil {
			v = &Violation{Property: p.ID, Gen: g.Name, Index: i, Seed: seed, Tier: tier, Notes: c.note}
			if f, ok := r.(failure); ok {
				v.Class, v.Msg = f.class, f.msg
				return
			}
			st := debug.Stack()
			v.Class = "crash"
			v.Msg = fmt.Sprintf("crash: %v @ %s", r, panicSite(st))
			v.Stack = string(st)
		}
	}()
	g.Run(c)
	return c, nil
}

// Deadline: no case starts later than this after the beginning of the run.
var Deadline = 600 * time.Second

// OnHang reports the result of a run whose case does not return.
var OnHang = func(*Result) {}

// Run executes every generator of the property.
func Run(p *Prop, tier string, seed int64, only string) *Result {
	t0 := time.Now()
	res := &Result{Distinct: map[[12]byte]struct{}{}, Obs: map[string]int{}, PerGen: map[string]int{}}
	type job struct {
		g *Gen
		i int
	}
	type planned struct {
		job
		at float64
	}
	var plan []planned
	var par, ser []job
	for gi := range p.Gens {
		g := &p.Gens[gi]
		if only != "" && g.Name != only {
			continue
		}
		n := g.Quick
		if tier == "thorough" && g.Thorough > 0 {
			n = g.Thorough
		}
		for i := 0; i < n; i++ {
			if g.Serial {
				ser = append(ser, job{g, i})
			} else {
				plan = append(plan, planned{job{g, i}, (float64(i) + 0.5) / float64(n)})
			}
		}
	}
	// Generators advance together, so that a run cut short at the deadline has
	// explored a share of each.
	sort.SliceStable(plan, func(a, b int) bool { return plan[a].at < plan[b].at })
	for _, j := range plan {
		par = append(par, j.job)
	}
	plan = nil
	res.Planned = len(par) + len(ser)
	parEnd, serEnd := t0.Add(Deadline), t0.Add(Deadline)
	if len(ser) > 0 {
		parEnd = t0.Add(Deadline / 2)
	}
	running := map[*job]time.Time{}
	var mu sync.Mutex
	sampled := map[string]int{}
	perClass := map[string]int{}
	var stop int32
	quit := make(chan struct{})
	defer close(quit)
	go func() { // a case that never returns, or eats all memory
		limit := 240 * time.Second
		if tier == "thorough" || len(par) == 0 {
			limit = 500 * time.Second
		}
		for {
			select {
			case <-quit:
				return
			case <-time.After(time.Second):
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			mu.Lock()
			for j, t := range running {
				d := time.Since(t)
				big := ms.HeapAlloc > 18<<30 && d > 5*time.Second
				if d < limit && !big {
					continue
				}
				st := make([]byte, 1<<20)
				st = st[:runtime.Stack(st, true)]
				if !strings.Contains(string(st), "PlatONnetwork/tecdsa/") {
					continue
				}
				res.Viol = append(res.Viol, Violation{Property: p.ID, Gen: j.g.Name, Index: j.i, Seed: seed, Tier: tier, Class: "no-return",
					Msg: fmt.Sprintf("a case that takes seconds has not returned after %.0f s (heap %d MB)", d.Seconds(), ms.HeapAlloc>>20), Stack: string(st)})
				res.Wall = time.Since(t0).Seconds()
				OnHang(res)
				os.Exit(2)
			}
			mu.Unlock()
		}
	}()
	do := func(j job) {
		if atomic.LoadInt32(&stop) != 0 {
			return
		}
		tc := time.Now()
		if !j.g.Serial && tc.After(parEnd) || j.g.Serial && tc.After(serEnd) {
			return
		}
		mu.Lock()
		running[&j] = tc
		mu.Unlock()
		defer func() {
			mu.Lock()
			delete(running, &j)
			mu.Unlock()
		}()
		c, v := runCase(p, j.g, j.i, tier, seed)
		if os.Getenv("VERIF_TIMING") != "" {
			if d := time.Since(tc); d > 500*time.Millisecond {
				fmt.Fprintf(os.Stderr, "slow case %s/%s[%d] %.2fs\n", p.ID, j.g.Name, j.i, d.Seconds())
			}
		}
		mu.Lock()
		defer mu.Unlock()
		res.Cases++
		res.Evals += c.evals
		res.PerGen[j.g.Name] += c.evals
		for _, k := range c.keys {
			res.Distinct[k] = struct{}{}
		}
		for k, n := range c.obs {
			res.Obs[k] += n
		}
		if sampled[j.g.Name] < 2 && len(c.note) > 0 && v == nil {
			sampled[j.g.Name]++
			res.Samples = append(res.Samples, map[string]interface{}{"generator": j.g.Name, "case": j.i, "what": c.note})
		}
		if v != nil {
			perClass[v.Class]++
			if perClass[v.Class] <= 3 {
				res.Viol = append(res.Viol, *v)
			}
			if len(perClass) > 40 || os.Getenv("VERIF_FAILFAST") != "" { // the latter for development
				atomic.StoreInt32(&stop, 1)
			}
		}
	}
	ch := make(chan job)
	var wg sync.WaitGroup
	for w := 0; w < runtime.GOMAXPROCS(0); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				do(j)
			}
		}()
	}
	for _, j := range par {
		ch <- j
	}
	close(ch)
	wg.Wait()
	for _, j := range ser {
		do(j)
	}
	res.Wall = time.Since(t0).Seconds()
	sort.Slice(res.Viol, func(a, b int) bool {
		if res.Viol[a].Gen != res.Viol[b].Gen {
			return res.Viol[a].Gen < res.Viol[b].Gen
		}
		return res.Viol[a].Index < res.Viol[b].Index
	})
	return res
}

// Known findings: lines "finding: property=<id> class=<class> <text>".
func LoadKnown(path, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		for _, f := range strings.Fields(l) {
			if strings.HasPrefix(f, "class=") {
				out[strings.TrimPrefix(f, "class=")] = strings.TrimSpace(strings.SplitN(l, f, 2)[1])
			}
		}
	}
	return out
}

// Finish writes evidence and replays and returns the exit code.
func Finish(p *Prop, res *Result, tier string, seed int64, verif string, extra map[string]interface{}) int {
	known := LoadKnown(filepath.Join(verif, "KNOWN_FINDINGS.txt"), p.ID)
	for cl, txt := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", p.ID, cl, txt)
	}
	var live []Violation
	for _, v := range res.Viol {
		if _, ok := known[v.Class]; !ok {
			live = append(live, v)
		}
	}
	if len(res.Samples) > 12 {
		res.Samples = res.Samples[:12]
	}
	for _, v := range live {
		if len(res.Samples) < 16 {
			res.Samples = append(res.Samples, map[string]interface{}{"violation": v.Msg, "generator": v.Gen, "case": v.Index})
		}
	}
	cov := map[string]interface{}{
		"evaluations":         res.Evals,
		"distinct_nontrivial": len(res.Distinct),
		"rule":                p.Rule,
		"samples":             res.Samples,
		"cases_run":           res.Cases,
		"cases_planned":       res.Planned,
		"per_generator":       res.PerGen,
		"observed":            res.Obs,
	}
	for k, v := range extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": p.Assumptions, "wall_s": res.Wall, "violations": len(live),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("error writing evidence:", err)
		return 2
	}
	fmt.Printf("%s tier=%s seed=%d: %d cases, %d evaluations, %d distinct, %.1fs\n", p.ID, tier, seed, res.Cases, res.Evals, len(res.Distinct), res.Wall)
	names := make([]string, 0)
	for k := range res.Obs {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Printf("  observed %s: %d\n", k, res.Obs[k])
	}
	if len(live) > 0 {
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0755)
		seen := map[string]bool{}
		for _, v := range live {
			if seen[v.Class] {
				continue
			}
			seen[v.Class] = true
			h := sha256.Sum256([]byte(v.Class))
			f := filepath.Join(dir, fmt.Sprintf("%s-%s-%s.json", p.ID, v.Gen, hex.EncodeToString(h[:4])))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(f, append(b, '\n'), 0644)
			fmt.Printf("  [%s #%d] %s: %s\n", v.Gen, v.Index, v.Class, v.Msg)
			for _, n := range v.Notes {
				fmt.Printf("      %s\n", n)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, f)
		}
		return 1
	}
	if p.MinEval > 0 && len(res.Distinct) < p.MinEval {
		fmt.Printf("INCONCLUSIVE: only %d distinct observations (need %d)\n", len(res.Distinct), p.MinEval)
		return 2
	}
	return 0
}

// Replay runs the recorded case again.
func Replay(p *Prop, v *Violation) *Violation {
	for i := range p.Gens {
		if p.Gens[i].Name == v.Gen {
			_, nv := runCase(p, &p.Gens[i], v.Index, v.Tier, v.Seed)
			return nv
		}
	}
	return &Violation{Property: v.Property, Gen: v.Gen, Class: "unknown-generator", Msg: "no such generator"}
}
