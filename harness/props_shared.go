package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/PlatONnetwork/tecdsa/curve"

	"verif/harness/core"
	"verif/harness/insp"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "C25", MinEval: 300,
		Rule: "one evaluation compares the result of one call made while other calls were running on the same objects with the result of the call run alone, under the race detector; distinct by operation, stage, scheduling mode and set of operations that overlapped it",
		Assumptions: []string{"the race detector reports unsynchronized accesses that the explored schedules perform without a happens-before order, whether or not they coincide; schedules are those of the Go scheduler with injected delays",
			"a race is reported once per pair of stacks"},
		Gens: []core.Gen{
			{Name: "first-use", Quick: 4, Thorough: 24, Run: c25first, Serial: true},
			{Name: "storm", Quick: 2, Thorough: 16, Run: c25storm, Serial: true},
			{Name: "pairs", Quick: 1, Thorough: 6, Run: c25pairs, Serial: true},
			{Name: "sessions", Quick: 1, Thorough: 12, Run: c25sessions, Serial: true},
			{Name: "wide", Quick: 2, Thorough: 12, Run: c25wide, Serial: true},
		}})
	core.Register(&core.Prop{ID: "C26", MinEval: 1000,
		Rule: "one evaluation compares the deep fingerprints of all objects of a stage before and after one call and the call's result with its first result, or checks that altering a clone leaves the original as it was and the reverse; distinct by stage, operation and position in the history",
		Gens: []core.Gen{
			{Name: "histories", Quick: 14, Thorough: 600, Run: c26histories},
			{Name: "orders", Quick: 8, Thorough: 200, Run: c26orders},
			{Name: "results", Quick: 14, Thorough: 500, Run: c26results},
			{Name: "clones", Quick: 30, Thorough: 1200, Run: c26clones},
			{Name: "wide-histories", Quick: 4, Thorough: 80, Run: c26histories},
			{Name: "wide-results", Quick: 4, Thorough: 80, Run: c26results},
			{Name: "updates", Quick: 8, Thorough: 400, Run: c26updates},
			{Name: "wide-updates", Quick: 2, Thorough: 60, Run: c26updates},
		}})
}

// ---------- C25 ----------

// races reads the race detector's reports written since the last call.
var raceSeen = map[string]int{}

var raceFunc = regexp.MustCompile(`(?m)^  (github\.com/PlatONnetwork/tecdsa[^\n(]*(?:\([^)\n]*\))?[^\n(]*)\(`)

func raceReports() []string {
	base := os.Getenv("VERIF_RACE_LOG")
	if base == "" {
		return nil
	}
	files, _ := filepath.Glob(base + ".*")
	var out []string
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		reports := strings.Split(string(b), "WARNING: DATA RACE")
		for i := 1; i < len(reports); i++ {
			if i > raceSeen[f] {
				out = append(out, reports[i])
			}
		}
		raceSeen[f] = len(reports) - 1
	}
	return out
}

// checkRaces fails the case if the detector reported a race.
func checkRaces(c *C) {
	rs := raceReports()
	if len(rs) == 0 {
		return
	}
	names := map[string]bool{}
	for _, m := range raceFunc.FindAllStringSubmatch(rs[0], -1) {
		names[strings.TrimPrefix(m[1], "github.com/PlatONnetwork/tecdsa/")] = true
	}
	if len(names) == 0 {
		fmt.Println(rs[0])
		panic("race report outside the library")
	}
	var l []string
	for n := range names {
		l = append(l, n)
	}
	sort.Strings(l)
	if len(l) > 6 {
		l = l[:6]
	}
	txt := rs[0]
	if len(txt) > 3000 {
		txt = txt[:3000]
	}
	c.Fail("race", "%d data races; the first one in %s:%s", len(rs), strings.Join(l, ", "), txt)
}

// rawCall runs one operation without rendering its result.
func rawCall(o sharedOp) (x []interface{}, crash string) {
	defer func() {
		if r := recover(); r != nil {
			crash = fmt.Sprintf("crash: %v", r)
		}
	}()
	return o.run(), ""
}
func textOf(x []interface{}, crash string) string {
	if crash != "" {
		return crash
	}
	return resultText(x)
}

// c25run runs every worker's list of operations concurrently. The only
// synchronization is the common start and end: what ran at the same time is
// worked out afterwards from times taken by each worker.
func c25run(c *C, what string, st *stage, alone func(i int) string, plan [][]int, delays bool) {
	type got struct {
		op       int
		x        []interface{}
		crash    string
		from, to time.Duration
	}
	results := make([][]got, len(plan))
	rs := make([]uint64, len(plan))
	for w := range plan {
		rs[w] = uint64(c.R.Int63()) | 1
	}
	var ready, done sync.WaitGroup
	gate := make(chan struct{})
	t0 := time.Now()
	for w := range plan {
		w := w
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			ready.Done()
			<-gate
			x := rs[w]
			for _, oi := range plan[w] {
				x ^= x << 13
				x ^= x >> 7
				x ^= x << 17
				if delays {
					switch x % 5 {
					case 0:
						runtime.Gosched()
					case 1:
						time.Sleep(time.Duration(x>>8%200) * time.Microsecond)
					}
				}
				g := got{op: oi, from: time.Since(t0)}
				g.x, g.crash = rawCall(st.ops[oi])
				g.to = time.Since(t0)
				results[w] = append(results[w], g)
			}
		}()
	}
	ready.Wait()
	close(gate)
	done.Wait()
	checkRaces(c)
	pairs := map[string]bool{}
	for w := range results {
		for _, g := range results[w] {
			name := st.ops[g.op].name
			var with []string
			for v := range results {
				if v == w {
					continue
				}
				for _, h := range results[v] {
					if h.from < g.to && g.from < h.to {
						with = append(with, st.ops[h.op].name)
						pairs[name+"|"+st.ops[h.op].name] = true
					}
				}
			}
			exp, txt := alone(g.op), textOf(g.x, g.crash)
			if txt != exp {
				c.Fail("result", "%s: %q returned something else than when run alone (running at the same time: %v)\n  alone:      %s\n  concurrent: %s", what, name, with, firstDiff(exp, txt), firstDiff(txt, exp))
			}
			sort.Strings(with)
			c.Ev(what, c.I, g.op, name, strings.Join(with, ","))
			if len(with) > 0 {
				c.Obs("calls that overlapped others", 1)
			} else {
				c.Obs("calls that overlapped none", 1)
			}
		}
	}
	mergePairs(c, pairs)
}

var overlapPairs = map[string]bool{}

func mergePairs(c *C, p map[string]bool) {
	for k := range p {
		if !overlapPairs[k] {
			overlapPairs[k] = true
			c.Obs("distinct pairs of operations seen running at the same time", 1)
		}
	}
}

// firstDiff shows a around the first difference from b.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	j := i - 60
	if j < 0 {
		j = 0
	}
	e := i + 200
	if e > len(a) {
		e = len(a)
	}
	return fmt.Sprintf("(at %d) ...%s", i, a[j:e])
}

// twins are two stages with equal objects.
func twins(c *C) (a, b *stage) {
	var wg sync.WaitGroup
	var crash [2]interface{}
	for i, p := range []**stage{&a, &b} {
		i, p, d := i, p, c.With(c.Fork("stage"))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { crash[i] = recover() }()
			*p = genStage(d)
		}()
	}
	wg.Wait()
	for _, r := range crash {
		if r != nil {
			panic(r)
		}
	}
	return a, b
}

// aloneOn runs operations one at a time on the (unshared) stage, once each.
func aloneOn(b *stage) func(int) string {
	memo := map[int]string{}
	return func(i int) string {
		if t, ok := memo[i]; ok {
			return t
		}
		memo[i] = textOf(rawCall(b.ops[i]))
		return memo[i]
	}
}

func c25storm(c *C) {
	a, b := twins(c)
	before := a.prints()
	w := []int{8, 16, 4, 2}[c.I%4]
	plan := make([][]int, w)
	for i := range plan {
		plan[i] = c.R.Perm(len(a.ops))
		if w > 8 {
			plan[i] = plan[i][:len(plan[i])/2]
		}
	}
	if c.I%2 == 1 { // all workers in the same order
		for i := range plan {
			plan[i] = plan[0]
		}
	}
	c25run(c, "storm", a, aloneOn(b), plan, c.I%3 != 0)
	samePrints(c, before, a, "a storm of concurrent calls")
	c.Note("%d goroutines, %d operations each", w, len(a.ops))
}

// c25wide: few goroutines on operations over many objects.
func c25wide(c *C) {
	a, b := twins(c)
	before := a.prints()
	plan := make([][]int, 3)
	for i := range plan {
		plan[i] = c.R.Perm(len(a.ops))
	}
	c25run(c, "wide", a, aloneOn(b), plan, c.Bool())
	samePrints(c, before, a, "concurrent calls on many objects")
	c.Note("%d goroutines, %d operations each", len(plan), len(a.ops))
}

// c25pairs runs few operations against each other, many times.
func c25pairs(c *C) {
	a, b := twins(c)
	alone := aloneOn(b)
	order := c.R.Perm(len(a.ops))
	n := len(order)
	if !c.Thorough() && n > 40 {
		n = 40
	}
	for _, i := range order[:n] {
		j := i
		if c.Bool() {
			j = c.Int(len(a.ops))
		}
		plan := make([][]int, 6)
		for w := range plan {
			for r := 0; r < 2; r++ {
				if w%2 == 0 {
					plan[w] = append(plan[w], i)
				} else {
					plan[w] = append(plan[w], j)
				}
			}
		}
		c25run(c, "pair", a, alone, plan, false)
	}
	c.Note("%d pairs of operations", n)
}

// session runs a whole stage of its own.
func runSession(c *C) (out []string, crash string) {
	defer func() {
		if r := recover(); r != nil {
			crash = fmt.Sprintf("%v", r)
		}
	}()
	s := genStage(c)
	for _, o := range s.ops {
		x, cr := rawCall(o)
		out = append(out, o.name+": "+textOf(x, cr))
	}
	return out, ""
}

// c25sessions runs independent sessions concurrently: nothing is shared but the
// library's own state.
func c25sessions(c *C) {
	const w = 8 // every session is run twice
	outs := make([][]string, w)
	crash := make([]string, w)
	cs := make([]*C, w)
	for i := range cs {
		cs[i] = c.With(c.Fork(fmt.Sprint("session ", i/2)))
	}
	var wg sync.WaitGroup
	for i := 0; i < w; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			outs[i], crash[i] = runSession(cs[i])
		}()
	}
	wg.Wait()
	checkRaces(c)
	compare := func(what string, i int, out []string, cr string) {
		c.Check(cr == "" && crash[i] == "", "session", "session %d: %q when concurrent, %q %s", i/2, crash[i], cr, what)
		c.Check(len(out) == len(outs[i]), "session", "session %d ran %d operations, %d %s", i/2, len(outs[i]), len(out), what)
		for j := range out {
			if out[j] != outs[i][j] {
				c.Fail("session", "session %d returned something else than %s:\n  %s\n  %s", i/2, what, firstDiff(out[j], outs[i][j]), firstDiff(outs[i][j], out[j]))
			}
			c.Ev("session", c.I, i, j)
		}
		c.Obs("independent sessions compared", 1)
	}
	for i := 0; i < w; i += 2 {
		compare("the same session run at the same time", i, outs[i+1], crash[i+1])
	}
	k := c.Int(w)
	out, cr := runSession(c.With(c.Fork(fmt.Sprint("session ", k/2))))
	compare("when run alone", k, out, cr)
}

// c25first starts a fresh process in which the first uses of the library are
// concurrent.
func c25first(c *C) {
	cmd := exec.Command(os.Args[0], "-prop", "C25", "-child", fmt.Sprint(c.I), "-seed", fmt.Sprint(c.Seed))
	b, err := cmd.CombinedOutput()
	checkRaces(c)
	if err != nil {
		txt := string(b)
		if len(txt) > 2000 {
			txt = txt[:2000]
		}
		c.Fail("first-use", "concurrent first use of the library: %v\n%s", err, txt)
	}
	c.Check(strings.Contains(string(b), "child ok"), "first-use", "no answer from the fresh process: %s", b)
	c.Ev("first use", c.I)
	c.Obs("fresh processes with concurrent first use", 1)
}

// firstChild is the fresh process: eight goroutines do the same things at once,
// starting at different ones.
func firstChild(seed int64, i int) int {
	const w = 8
	outs, names := make([]string, w), make([][]string, w)
	base := func(k int) *C {
		p := core.Props["C25"]
		c := core.NewCase(p, "child", i, seed)
		return c.With(c.Fork(fmt.Sprint("child ", k)))
	}
	prim := []func(){
		func() { curve.Point.HashToPoint(K, []byte{1, 2, 3}, []byte("x")) },
		func() { curve.Point.GeneratorH(K) },
		func() { curve.Scalar.One(K).IsHigh() },
		func() { f := curve.Field.One(K); f.Sqrt(f) },
		func() { curve.Scalar.HashToSeveralScalar(K, 2, []byte{1}, []byte("x")) },
		func() { x := curve.Scalar.One(K); x.Invert(x) },
		func() { curve.Point.Pedersen(curve.Scalar.One(K), curve.Scalar.One(K)) },
		func() { curve.Point.GeneratorG(K).MulByNodeIndex(5) },
	}
	var wg sync.WaitGroup
	cs := make([]*C, w)
	for k := range cs {
		cs[k] = base(0)
	}
	for k := 0; k < w; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range prim {
				prim[(j+k*(i%3)+i)%len(prim)]()
			}
			defer func() {
				if r := recover(); r != nil {
					outs[k] = fmt.Sprintf("crash: %v", r)
				}
			}()
			s := genStage(cs[k])
			for n := range s.obj {
				names[k] = append(names[k], n)
			}
			sort.Strings(names[k])
			for _, n := range names[k] {
				outs[k] += insp.Canon(s.obj[n]) + "\n"
			}
		}()
	}
	wg.Wait()
	if strings.HasPrefix(outs[0], "crash") {
		fmt.Println(outs[0])
		return 1
	}
	for k := 1; k < w; k++ {
		if outs[k] != outs[0] {
			fmt.Printf("goroutines 0 and %d differ:\n  %s\n  %s\n", k, firstDiff(outs[0], outs[k]), firstDiff(outs[k], outs[0]))
			return 1
		}
	}
	fmt.Println("child ok")
	return 0
}

// ---------- C26 ----------

func samePrints(c *C, before map[string]string, s *stage, what string) {
	for n, x := range s.obj {
		if t := insp.Canon(x); t != before[n] {
			c.Fail("input", "%s changed %s:\n  before: %s\n  after:  %s", what, n, firstDiff(before[n], t), firstDiff(t, before[n]))
		}
	}
}

type kept struct {
	name string
	x    []interface{}
	text string
}

func c26histories(c *C) {
	s := genStage(c)
	before := s.prints()
	first := map[int]string{}
	var results []kept
	order := append(c.R.Perm(len(s.ops)), c.R.Perm(len(s.ops))...)
	for pos, i := range order {
		o := s.ops[i]
		var x []interface{}
		c.NoPanic("crash", o.name, func() { x = o.run() })
		txt := resultText(x)
		samePrints(c, before, s, fmt.Sprintf("%q", o.name))
		if f, ok := first[i]; ok {
			if f != txt {
				c.Fail("repeat", "%q returns something else when called again:\n  first: %s\n  again: %s", o.name, firstDiff(f, txt), firstDiff(txt, f))
			}
		} else {
			first[i] = txt
		}
		results = append(results, kept{o.name, x, txt})
		c.Ev(c.I, pos, i, o.name)
		c.Obs("calls after which all objects were compared", 1)
	}
	for _, k := range results {
		if t := resultText(k.x); t != k.text {
			c.Fail("result", "the result of %q was changed by later calls:\n  then: %s\n  now:  %s", k.name, firstDiff(k.text, t), firstDiff(t, k.text))
		}
		c.Obs("results unchanged at the end of the history", 1)
	}
	c.Note("%d objects, %d operations, %d calls", len(s.obj), len(s.ops), len(order))
}

// view marks a result that is a part of an argument by contract (an accessor, or a
// constructor that wraps its arguments): it may share storage with it.
type view struct{ x interface{} }

// c26results: a computed result is independent of the arguments and of everything
// computed before: overwriting it in place changes nothing else.
func c26results(c *C) {
	s := genStage(c)
	before := s.prints()
	alter := func(x interface{}) int {
		if _, ok := x.(view); ok {
			return 0
		}
		if b, ok := x.([]byte); ok {
			for i := range b {
				b[i] ^= 0x5a
			}
			return len(b)
		}
		return insp.Alter(x, func() curve.EccScalar { return S(c.RandScalar()) }, func() curve.EccPoint { return P(c.RandPoint()) }, func() curve.EccFieldElement { return F(c.Uniform(ref.P)) })
	}
	for pos, i := range c.R.Perm(len(s.ops)) {
		o := s.ops[i]
		var x []interface{}
		c.NoPanic("crash", o.name, func() { x = o.run() })
		txt := resultText(x)
		for k := range x {
			rest := resultText(x[k+1:])
			n := alter(x[k])
			if n == 0 {
				continue
			}
			samePrints(c, before, s, fmt.Sprintf("overwriting result %d (%T) of %q", k, x[k], o.name))
			if t := resultText(x[k+1:]); t != rest {
				c.Fail("result", "overwriting result %d (%T) of %q changed another result:\n  then: %s\n  now:  %s", k, x[k], o.name, firstDiff(rest, t), firstDiff(t, rest))
			}
			c.Obs("results overwritten", 1)
		}
		if t := resultText(o.run()); t != txt {
			c.Fail("result", "%q returns something else after its results were overwritten:\n  first: %s\n  again: %s", o.name, firstDiff(txt, t), firstDiff(t, txt))
		}
		c.Ev(c.I, pos, i, o.name)
	}
	c.Note("%d operations, %d objects", len(s.ops), len(s.obj))
}

// change is an update that the owner of an object makes in place.
type change struct {
	do, undo func()
}

// changes draws updates of the objects of two equal stages: the same ones for both.
// Only what a caller can reach is updated: exported fields, elements and byte slices.
func changes(c *C, a, b *stage, mode int) (ca, cb []change, names []string) {
	var all []string
	for n := range a.obj {
		all = append(all, n)
	}
	sort.Strings(all)
	only := c.Int(len(all))
	pick := map[string]int{} // mode 3: one dealing of every kind
	for k, n := range all {
		if mode == 3 {
			i := strings.Index(n, " dealing: ")
			if i < 0 {
				continue
			}
			if _, ok := pick[n[:i]]; !ok {
				pick[n[:i]] = c.Int(3)
			}
			if pick[n[:i]]--; pick[n[:i]] != -1 {
				continue
			}
		}
		if mode == 0 && c.Int(4) != 0 || mode == 1 && k != only {
			continue
		}
		if insp.Canon(a.obj[n]) != insp.Canon(b.obj[n]) {
			panic("the stages differ in " + n)
		}
		la, lb := insp.OpenLeaves(a.obj[n]), insp.OpenLeaves(b.obj[n])
		if len(la) != len(lb) {
			panic("the stages differ in " + n)
		}
		one := -1
		if mode != 1 && len(la) > 0 {
			one = c.Int(len(la))
		}
		for i := range la {
			if one >= 0 && i != one {
				continue
			}
			x, p, z, at := c.RandScalar(), c.RandPoint(), c.RandScalar(), c.Int(1<<20)
			mk := func(l insp.Leaf) change {
				switch {
				case l.Scalar != nil:
					old := l.Scalar.Clone()
					return change{func() { l.Scalar.Assign(S(x)) }, func() { l.Scalar.Assign(old) }}
				case l.Point != nil:
					old := l.Point.Clone()
					return change{func() { l.Point.Assign(PZ(p, z)) }, func() { l.Point.Assign(old) }}
				default:
					k := at % len(l.Bytes)
					return change{func() { l.Bytes[k] ^= 1 }, func() { l.Bytes[k] ^= 1 }}
				}
			}
			ca, cb = append(ca, mk(la[i])), append(cb, mk(lb[i]))
			names = append(names, n+la[i].Path)
		}
	}
	return ca, cb, names
}

// c26updates: a result depends on the values that the arguments have when the call is
// made, not on those they had in earlier calls: after the owner updated objects in
// place, calls return what they return on equal objects never used before, and after
// the updates were undone, what they returned at first.
func c26updates(c *C) {
	a, b := twins(c)
	first := map[int]string{}
	for _, i := range c.R.Perm(len(a.ops)) {
		first[i] = textOf(rawCall(a.ops[i]))
	}
	ca, cb, names := changes(c, a, b, c.I%4)
	for i := range ca {
		ca[i].do()
		cb[i].do()
	}
	shown := names
	if len(shown) > 4 {
		shown = shown[:4]
	}
	differ := 0
	order := c.R.Perm(len(a.ops))
	for k := range order {
		i := order[k]
		ta := textOf(rawCall(a.ops[i]))
		tb := textOf(rawCall(b.ops[i]))
		if ta != tb {
			c.Fail("updated", "%q returns something else on objects updated in place (%v) than on equal objects not used before:\n  used:  %s\n  fresh: %s", a.ops[i].name, shown, firstDiff(ta, tb), firstDiff(tb, ta))
		}
		if ta != first[i] {
			differ++
		}
		c.Ev(c.I, "updated", i, a.ops[i].name)
	}
	for i := len(ca) - 1; i >= 0; i-- {
		ca[i].undo()
		cb[i].undo()
	}
	for _, i := range c.R.Perm(len(a.ops)) {
		for k, s := range []*stage{a, b} {
			if t := textOf(rawCall(s.ops[i])); t != first[i] {
				c.Fail("updated", "%q returns something else after updates (%v) were undone (%d):\n  first: %s\n  now:   %s", s.ops[i].name, shown, k, firstDiff(first[i], t), firstDiff(t, first[i]))
			}
			c.Ev(c.I, "undone", k, i, a.ops[i].name)
		}
	}
	c.Obs("values updated in place", len(ca))
	c.Obs("operations whose result the updates changed", differ)
	c.Note("%d updates, %d of %d operations returned something else", len(ca), differ, len(a.ops))
}

// c26orders: the operations in opposite orders on equal objects.
func c26orders(c *C) {
	a, b := twins(c)
	order := c.R.Perm(len(a.ops))
	ta, tb := map[int]string{}, map[int]string{}
	for k := range order {
		i, j := order[k], order[len(order)-1-k]
		ta[i] = textOf(rawCall(a.ops[i]))
		tb[j] = textOf(rawCall(b.ops[j]))
	}
	for _, i := range order {
		if ta[i] != tb[i] {
			c.Fail("order", "%q returns something else when the calls are made in another order:\n  %s\n  %s", a.ops[i].name, firstDiff(ta[i], tb[i]), firstDiff(tb[i], ta[i]))
		}
		c.Ev(c.I, i, a.ops[i].name)
	}
	c.Note("%d operations in opposite orders", len(order))
}

// leafText lists the values inside x.
func leafText(x interface{}) string {
	if f, ok := x.(curve.EccFieldElement); ok {
		return insp.Canon(f)
	}
	out := ""
	for _, l := range insp.Leaves(x) {
		if l.Scalar != nil {
			out += insp.Canon(l.Scalar) + " "
		} else {
			out += insp.Canon(l.Point) + " "
		}
	}
	return out
}

// c26clones: a clone is equal, and altering one leaves the other as it was.
func c26clones(c *C) {
	s := genStage(c)
	names := make([]string, 0)
	for n := range s.obj {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for k, x := range insp.Cloneable(s.obj[n]) {
			var y interface{}
			c.NoPanic("crash", "cloning a "+fmt.Sprintf("%T", x), func() { y = reflect.ValueOf(x).MethodByName("Clone").Call(nil)[0].Interface() })
			tx := insp.Canon(x)
			ty := insp.Canon(y)
			// (the clone of a transcript's commitment is the commitment inside)
			if lx, ly := leafText(x), leafText(y); lx != ly {
				c.Fail("clone", "the clone of a %T differs: %s / %s", x, firstDiff(tx, ty), firstDiff(ty, tx))
			}
			alter := func(z interface{}) int {
				return insp.Alter(z, func() curve.EccScalar { return S(c.RandScalar()) }, func() curve.EccPoint { return P(c.RandPoint()) }, func() curve.EccFieldElement { return F(c.Uniform(ref.P)) })
			}
			m := alter(y)
			if t := insp.Canon(x); t != tx {
				c.Fail("clone", "altering the clone of a %T (%s) changed the original:\n  before: %s\n  after:  %s", x, n, firstDiff(tx, t), firstDiff(t, tx))
			}
			if insp.Canon(y) == ty {
				c.Obs(fmt.Sprintf("clones of %T with nothing to alter", x), 1)
				continue
			}
			y = reflect.ValueOf(x).MethodByName("Clone").Call(nil)[0].Interface()
			ty = insp.Canon(y)
			if k%2 == 0 {
				alter(x)
				if t := insp.Canon(y); t != ty {
					c.Fail("clone", "altering a %T (%s) changed its clone:\n  before: %s\n  after:  %s", x, n, firstDiff(ty, t), firstDiff(t, ty))
				}
			}
			c.Ev(c.I, n, k, fmt.Sprintf("%T", x))
			c.Obs(fmt.Sprintf("clones of %T", x), 1)
			c.Obs("parts of clones altered", m)
		}
	}
}

// units are the factors that leave the x coordinate (-1), the y coordinate
// (cube roots of one) or x^3 and y^2 (sixth roots) of every point unchanged.
var units = []struct {
	name string
	f    *Int
}{{"negated", ref.Neg(bi(1))}, {"multiplied by a cube root of one", ref.Lambda}, {"multiplied by the other cube root of one", ref.Mul(ref.Lambda, ref.Lambda)},
	{"multiplied by a sixth root of one", ref.Neg(ref.Lambda)}}
